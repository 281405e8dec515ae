"""the SM4 S-box from its algebraic description"""


def sm4():
    """GB/T 32907: S(x) = A(I(A(x) + c)) + c over GF(2)[t]/(t^8+t^7+t^6+t^5+t^4+t^2+1)"""
    def mul(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            a <<= 1
            if a & 0x100: a ^= 0x1f5
            b >>= 1
        return r
    inv = [0] * 256
    for a in range(1, 256):
        if inv[a]: continue
        for b in range(1, 256):
            if mul(a, b) == 1: inv[a] = b; inv[b] = a; break

    def rol(v, n): return ((v << n) | (v >> (8 - n))) & 255
    A = [sum((bin(rol(0xa7, i) & x).count('1') & 1) << i for i in range(8)) for x in range(256)]
    return [A[inv[A[x] ^ 0xd3]] ^ 0xd3 for x in range(256)]
