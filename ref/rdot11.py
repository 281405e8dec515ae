"""Michael and TKIP key mixing (IEEE 802.11i), written from the standard's description."""
from raes import SBOX


def rol(v, n): return ((v << n) | (v >> (32 - n))) & 0xffffffff


def block(l, r):
    r ^= rol(l, 17)
    l = (l + r) & 0xffffffff
    r ^= ((l & 0xff00ff00) >> 8) | ((l & 0x00ff00ff) << 8)      # XSWAP
    l = (l + r) & 0xffffffff
    r ^= rol(l, 3)
    l = (l + r) & 0xffffffff
    r ^= rol(l, 30)                                               # rotate right by 2
    l = (l + r) & 0xffffffff
    return l, r


def michael(key, msg):
    l = int.from_bytes(key[:4], 'little'); r = int.from_bytes(key[4:], 'little')
    m = msg + b'\x5a' + bytes(4)
    m += bytes(-len(m) % 4)
    for i in range(0, len(m), 4):
        l ^= int.from_bytes(m[i:i + 4], 'little')
        l, r = block(l, r)
    return l.to_bytes(4, 'little') + r.to_bytes(4, 'little')


def unblock(l, r):
    l = (l - r) & 0xffffffff; r ^= rol(l, 30)
    l = (l - r) & 0xffffffff; r ^= rol(l, 3)
    l = (l - r) & 0xffffffff; r ^= ((l & 0xff00ff00) >> 8) | ((l & 0x00ff00ff) << 8)
    l = (l - r) & 0xffffffff; r ^= rol(l, 17)
    return l, r


def _xtime(a): return ((a << 1) ^ (0x11b if a & 0x80 else 0)) & 0xff


def S(w):
    def t(b):
        s = SBOX[b]
        return (_xtime(s) << 8) | (_xtime(s) ^ s)
    hi = t(w >> 8)
    return t(w & 0xff) ^ (((hi & 0xff) << 8) | (hi >> 8))


def phase1(tk, ta, iv32):
    def k(i): return tk[i] | (tk[i + 1] << 8)
    p = [iv32 & 0xffff, iv32 >> 16, ta[0] | ta[1] << 8, ta[2] | ta[3] << 8, ta[4] | ta[5] << 8]
    for i in range(8):
        j = 2 * (i & 1)
        p[0] = (p[0] + S(p[4] ^ k(j))) & 0xffff
        p[1] = (p[1] + S(p[0] ^ k(4 + j))) & 0xffff
        p[2] = (p[2] + S(p[1] ^ k(8 + j))) & 0xffff
        p[3] = (p[3] + S(p[2] ^ k(12 + j))) & 0xffff
        p[4] = (p[4] + S(p[3] ^ k(j)) + i) & 0xffff
    return p


def phase2(tk, p1k, iv16):
    def k(i): return tk[2 * i] | (tk[2 * i + 1] << 8)
    def ror(v): return (v >> 1) | ((v & 1) << 15)
    p = list(p1k) + [(p1k[4] + iv16) & 0xffff]
    for i in range(6): p[i] = (p[i] + S(p[(i - 1) % 6] ^ k(i))) & 0xffff
    p[0] = (p[0] + ror(p[5] ^ k(6))) & 0xffff
    p[1] = (p[1] + ror(p[0] ^ k(7))) & 0xffff
    for i in range(2, 6): p[i] = (p[i] + ror(p[i - 1])) & 0xffff
    hi, lo = iv16 >> 8, iv16 & 0xff
    out = [hi, (hi | 0x20) & 0x7f, lo, ((p[5] ^ k(0)) >> 1) & 0xff]
    for v in p: out += [v & 0xff, v >> 8]
    return bytes(out)


def tkip(tk, ta, pn):
    """pn: 6 octets TSC0..TSC5"""
    return phase2(tk, phase1(tk, ta, int.from_bytes(pn[2:], 'little')), int.from_bytes(pn[:2], 'little'))
