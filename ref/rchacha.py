"""RFC 7539, written from the specification."""
import struct

M = 0xffffffff


def qr(a, b, c, d):
    a = (a + b) & M; d ^= a; d = ((d << 16) | (d >> 16)) & M
    c = (c + d) & M; b ^= c; b = ((b << 12) | (b >> 20)) & M
    a = (a + b) & M; d ^= a; d = ((d << 8) | (d >> 24)) & M
    c = (c + d) & M; b ^= c; b = ((b << 7) | (b >> 25)) & M
    return a, b, c, d


ROUND = ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
         (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))


def block(key, counter, nonce):
    s = list(struct.unpack('<4I', b'expand 32-byte k')) + list(struct.unpack('<8I', key)) + [counter] + list(struct.unpack('<3I', nonce))
    w = list(s)
    for _ in range(10):
        for i, j, k, l in ROUND:
            w[i], w[j], w[k], w[l] = qr(w[i], w[j], w[k], w[l])
    return struct.pack('<16I', *[(x + y) & M for x, y in zip(s, w)])


def keystream(key, counter, nonce, n):
    out = b''.join(block(key, counter + i, nonce) for i in range((n + 63) // 64))
    return out[:n]


def xor(a, b):
    return (int.from_bytes(a, 'big') ^ int.from_bytes(b, 'big')).to_bytes(len(a), 'big')


def encrypt(key, counter, nonce, data):
    return xor(data, keystream(key, counter, nonce, len(data)))


P1305 = (1 << 130) - 5
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff


def poly1305(msg, key):
    r = int.from_bytes(key[:16], 'little') & CLAMP
    s = int.from_bytes(key[16:32], 'little')
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b'\1', 'little')) * r % P1305
    return ((a + s) % (1 << 128)).to_bytes(16, 'little')


def pad16(x):
    return b'\0' * (-len(x) % 16)


def aead_tag(key, nonce, aad, ct):
    otk = block(key, 0, nonce)[:32]
    return poly1305(aad + pad16(aad) + ct + pad16(ct) + struct.pack('<QQ', len(aad), len(ct)), otk)


def aead_encrypt(key, nonce, aad, pt):
    ct = encrypt(key, 1, nonce, pt)
    return ct, aead_tag(key, nonce, aad, ct)
