"""AES (FIPS 197), CMAC (SP 800-38B) and SIV (RFC 5297)."""
import functools


def _tables():
    exp = [0] * 512; log = [0] * 256
    x = 1
    for i in range(255):
        exp[i] = x; log[x] = i
        x ^= (x << 1) ^ (0x11b if x & 0x80 else 0)
        x &= 0xff
    for i in range(255, 512): exp[i] = exp[i - 255]
    sbox = []
    for a in range(256):
        b = 0 if a == 0 else exp[255 - log[a]]
        r = 0x63
        for k in range(5): r ^= ((b << k) | (b >> (8 - k))) & 0xff
        sbox.append(r)

    def mul(a, b): return 0 if 0 in (a, b) else exp[log[a] + log[b]]
    return sbox, mul


SBOX, gmul = _tables()
INV = [0] * 256
for _i, _v in enumerate(SBOX): INV[_v] = _i
T0 = [(gmul(2, s) << 24) | (s << 16) | (s << 8) | gmul(3, s) for s in SBOX]
T1 = [((t >> 8) | (t << 24)) & 0xffffffff for t in T0]
T2 = [((t >> 8) | (t << 24)) & 0xffffffff for t in T1]
T3 = [((t >> 8) | (t << 24)) & 0xffffffff for t in T2]


@functools.lru_cache(4096)
def schedule(key):
    nk = len(key) // 4
    assert nk in (4, 6, 8) and len(key) % 4 == 0
    nr = nk + 6
    w = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(nk)]
    rc = 1

    def sub(t): return (SBOX[t >> 24] << 24) | (SBOX[t >> 16 & 255] << 16) | (SBOX[t >> 8 & 255] << 8) | SBOX[t & 255]
    for i in range(nk, 4 * (nr + 1)):
        t = w[i - 1]
        if i % nk == 0:
            t = sub(((t << 8) | (t >> 24)) & 0xffffffff) ^ (rc << 24)
            rc = gmul(rc, 2)
        elif nk > 6 and i % nk == 4:
            t = sub(t)
        w.append(w[i - nk] ^ t)
    return w, nr


def encrypt(key, blk):
    w, nr = schedule(key)
    a, b, c, d = [int.from_bytes(blk[4 * i:4 * i + 4], 'big') ^ w[i] for i in range(4)]
    k = 4
    for _ in range(nr - 1):
        a, b, c, d = (T0[a >> 24] ^ T1[b >> 16 & 255] ^ T2[c >> 8 & 255] ^ T3[d & 255] ^ w[k],
                      T0[b >> 24] ^ T1[c >> 16 & 255] ^ T2[d >> 8 & 255] ^ T3[a & 255] ^ w[k + 1],
                      T0[c >> 24] ^ T1[d >> 16 & 255] ^ T2[a >> 8 & 255] ^ T3[b & 255] ^ w[k + 2],
                      T0[d >> 24] ^ T1[a >> 16 & 255] ^ T2[b >> 8 & 255] ^ T3[c & 255] ^ w[k + 3])
        k += 4
    o = b''
    for x, y, z, u in ((a, b, c, d), (b, c, d, a), (c, d, a, b), (d, a, b, c)):
        o += (((SBOX[x >> 24] << 24) | (SBOX[y >> 16 & 255] << 16) | (SBOX[z >> 8 & 255] << 8) | SBOX[u & 255]) ^ w[k]).to_bytes(4, 'big')
        k += 1
    return o


def decrypt(key, blk):
    """straight inverse cipher, bytewise"""
    w, nr = schedule(key)
    rk = [b''.join(x.to_bytes(4, 'big') for x in w[4 * r:4 * r + 4]) for r in range(nr + 1)]
    s = [x ^ y for x, y in zip(blk, rk[nr])]
    for r in range(nr - 1, -1, -1):
        t = [0] * 16
        for c in range(4):
            for q in range(4): t[4 * ((c + q) % 4) + q] = s[4 * c + q]
        s = [INV[x] ^ y for x, y in zip(t, rk[r])]
        if r:
            t = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for q in range(4):
                    t.append(gmul(14, a[q]) ^ gmul(11, a[(q + 1) % 4]) ^ gmul(13, a[(q + 2) % 4]) ^ gmul(9, a[(q + 3) % 4]))
            s = t
    return bytes(s)


def xor(a, b):
    assert len(a) == len(b)
    return bytes(x ^ y for x, y in zip(a, b))


def dbl(b):
    v = int.from_bytes(b, 'big') << 1
    if v >> 128: v = (v & ((1 << 128) - 1)) ^ 0x87
    return v.to_bytes(16, 'big')


def subkeys(key):
    k1 = dbl(encrypt(key, b'\0' * 16))
    return k1, dbl(k1)


def cmac_last(key, msg):
    """CBC state before the last block, and the last block already masked"""
    k1, k2 = subkeys(key)
    n = max(1, (len(msg) + 15) // 16)
    last = msg[16 * (n - 1):]
    last = xor(last, k1) if len(last) == 16 else xor(last + b'\x80' + b'\0' * (15 - len(last)), k2)
    x = b'\0' * 16
    for i in range(n - 1): x = encrypt(key, xor(x, msg[16 * i:16 * i + 16]))
    return x, last


def cmac(key, msg):
    x, last = cmac_last(key, msg)
    return encrypt(key, xor(x, last))


def s2v(key, strings):
    if not strings: return cmac(key, b'\0' * 15 + b'\1')
    d = cmac(key, b'\0' * 16)
    for s in strings[:-1]: d = xor(dbl(d), cmac(key, s))
    s = strings[-1]
    if len(s) >= 16:
        t = s[:-16] + xor(s[-16:], d)
    else:
        t = xor(dbl(d), s + b'\x80' + b'\0' * (15 - len(s)))
    return cmac(key, t)


def siv_ctr(key2, iv, data):
    q = int.from_bytes(iv, 'big') & ~(1 << 31) & ~(1 << 63)
    ks = b''
    for i in range((len(data) + 15) // 16):
        ks += encrypt(key2, ((q + i) % (1 << 128)).to_bytes(16, 'big'))
    return xor(data, ks[:len(data)])


def siv_encrypt(key, pt, ads):
    h = len(key) // 2
    iv = s2v(key[:h], list(ads) + [pt])
    return iv + siv_ctr(key[h:], iv, pt)


def siv_pt_for_iv(key, head, ads, iv):
    """a plaintext head + 16 octets (head: whole blocks) whose synthetic IV is iv"""
    assert len(head) % 16 == 0
    k = key[:len(key) // 2]
    d = cmac(k, b'\0' * 16)
    for s in ads: d = xor(dbl(d), cmac(k, s))
    x = b'\0' * 16
    for i in range(0, len(head), 16): x = encrypt(k, xor(x, head[i:i + 16]))
    k1, _ = subkeys(k)
    last = xor(xor(xor(decrypt(k, iv), x), k1), d)
    return head + last
