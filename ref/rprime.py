"""Primes: Baillie-PSW (strong base 2 and strong Lucas), no composite known to pass and none below 2^64; plus a
strong test to 20 more bases."""
import functools
import hashlib
from math import gcd, isqrt

SMALL = [n for n in range(2, 1000) if all(n % d for d in range(2, isqrt(n) + 1))]


def sprp(n, a):
    s, d = 0, n - 1
    while d % 2 == 0: d //= 2; s += 1
    x = pow(a, d, n)
    if x in (1, n - 1): return True
    for _ in range(s - 1):
        x = x * x % n
        if x == n - 1: return True
    return False


def jacobi(a, n):
    a %= n; t = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5): t = -t
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3: t = -t
        a %= n
    return t if n == 1 else 0


def slprp(n):
    """strong Lucas test with Selfridge parameters"""
    if isqrt(n) ** 2 == n: return False
    D = 5
    while True:
        j = jacobi(D, n)
        if j == -1: break
        if j == 0 and abs(D) % n: return False
        D = -(D + 2) if D > 0 else -(D - 2)
    Q = (1 - D) // 4
    s, d = 0, n + 1
    while d % 2 == 0: d //= 2; s += 1
    U, V, q = 1, 1, Q % n
    for b in bin(d)[3:]:
        U, V = U * V % n, (V * V - 2 * q) % n
        q = q * q % n
        if b == '1':
            U, V = U + V, V + D * U
            if U & 1: U += n
            if V & 1: V += n
            U, V = U // 2 % n, V // 2 % n
            q = q * Q % n
    if U == 0 or V == 0: return True
    for _ in range(s - 1):
        V = (V * V - 2 * q) % n
        if V == 0: return True
        q = q * q % n
    return False


@functools.lru_cache(100000)
def is_prime(n):
    if n < 2: return False
    for p in SMALL:
        if n % p == 0: return n == p
    if n < 1000000: return True
    if not (sprp(n, 2) and slprp(n)): return False
    if n >= 1 << 64:
        return all(sprp(n, a) for a in SMALL[1:21])
    return True


def next_prime(n):
    n += 1
    while not is_prime(n): n += 1
    return n


def prev_prime(n):
    n -= 1
    while not is_prime(n): n -= 1
    return n


@functools.lru_cache(100000)
def prime(bits, seed, res=None, mod=4):
    """a prime of exactly this many bits, optionally congruent to res modulo mod"""
    i = 0
    while True:
        h = hashlib.shake_128(b'prime%d.%d.%d' % (bits, seed, i)).digest((bits + 7) // 8)
        n = int.from_bytes(h, 'big') & ((1 << bits) - 1) | (1 << (bits - 1)) | 1
        if res is not None: n += (res - n) % mod
        if n.bit_length() == bits and is_prime(n): return n
        i += 1


@functools.lru_cache(10000)
def two_adic_prime(bits, s, seed):
    """a prime p with 2^s exactly dividing p - 1"""
    i = 0
    while True:
        h = hashlib.shake_128(b'2adic%d.%d.%d.%d' % (bits, s, seed, i)).digest((bits + 7) // 8)
        m = (int.from_bytes(h, 'big') & ((1 << (bits - s)) - 1)) | (1 << (bits - s - 1)) | 1
        p = (m + 2 * (i // 64)) << s | 1
        if is_prime(p): return p
        i += 1


# strong pseudoprimes to base 2 (OEIS A001262), first ones
SPSP2 = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751]
# smallest strong pseudoprimes to the first k prime bases (OEIS A014233)
PSI = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
       318665857834031151167461, 3317044064679887385961981]
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101,
              825265, 321197185, 9746347772161, 1436697831295441, 60977817398996785, 7156857700403137441]
MERSENNE = [2 ** k - 1 for k in (3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521)] + [2 ** k - 1 for k in (11, 23, 29, 37, 41, 67)]
STANDARD = [2 ** 255 - 19, 2 ** 130 - 5, 2 ** 192 - 2 ** 64 - 1, 2 ** 224 - 2 ** 96 + 1, 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1,
            2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, 2 ** 256 - 2 ** 32 - 977, 2 ** 64 - 2 ** 32 + 1, 65537, 2 ** 32 + 1, 2 ** 64 + 1,
            2 ** 521 - 1, 2 ** 127 - 1, 2 ** 61 - 1, 2 ** 383 - 187, 2 ** 414 - 17, 2 ** 448 - 2 ** 224 - 1, 2 ** 607 - 1]


def digest_int(bits, *tag):
    return int.from_bytes(hashlib.shake_128(repr(tag).encode()).digest((bits + 7) // 8), 'big') & ((1 << bits) - 1)


@functools.lru_cache(1000)
def all_small_squares(q, seed, k=8):
    """a prime 1 modulo k times every prime up to q: all of them are squares modulo it, and so is b^2 - 4m^2 for b + 2m <= q"""
    m = k
    for x in SMALL:
        if x <= q: m *= x
    t = 1 + seed * 97
    while not is_prime(1 + t * m): t += 1
    return 1 + t * m
