import json
import os
from math import isqrt

from hypothesis import strategies as st

import gen
import hist
import rec
import rprime
from core import sub, need, same, show
from sut import Exc

MOD = 'ecc.numbertheory'
RULE = 'one integer (or block of consecutive integers) classified, or one next_prime; trivial: an even number or a multiple of 3'
ASSUMES = ['Baillie-PSW with 20 further bases is exact on the numbers generated (it is below 2^64; composites above are built from known factors)']

with open(os.path.join(os.path.dirname(__file__), '..', 'ref', 'spsp.json')) as f: SPSP = [(int(n), w) for n, w in json.load(f)]
T = [(0, 40), (100, 27), (150, 18), (200, 15), (250, 12), (300, 9), (350, 8), (400, 7), (450, 6), (550, 5), (650, 4), (850, 3), (1300, 2)]


def rounds(n):
    """number of first prime bases that the documented table asks for (the smaller one next to a limit)"""
    return [t for k, t in T if n.bit_length() + 1 >= k][-1]


def check(s, ns, want):
    r = s.call('map1', MOD, 'is_prime', ns)
    need(not isinstance(r, Exc), lambda: 'is_prime: %s' % r)
    for n, x, w in zip(ns, r, want): same(x, w, 'is_prime(%d)' % n)


@sub(cases=lambda tier: [[a, min(a + 2000, b)] for lo, b in ([(-2000, 40000)] if tier == 'quick' else [(-2000, 2000000)]) for a in range(lo, b, 2000)] +
     [[c - 300, c + 300] for c in (1 << 16, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1 << 53, 1 << 62, 1 << 63, 10 ** 6, 10 ** 9, 10 ** 12, 10 ** 15, 10 ** 18)], qs=2)
def every_number_in_ranges(s, c):
    ns = list(range(*c))
    check(s, ns, [rprime.is_prime(n) for n in ns])


@sub(cases=lambda tier: [0])
def table(s, _):
    x = s.call('attr', MOD, 'smallprimes')
    need(isinstance(x, list), lambda: 'smallprimes: %r' % (x,))
    want = [n for n in range(2, 1230) if all(n % d for d in range(2, isqrt(n) + 1))]
    for i, (a, b) in enumerate(zip(x, want)): need(a == b, lambda: 'entry %d is %s, expected %d' % (i, a, b))
    same(len(x), len(want), 'number of entries')


def hard(tier):
    for n in rprime.SPSP2 + rprime.PSI + rprime.CARMICHAEL + rprime.MERSENNE + rprime.STANDARD:
        if n < 1 << 64 or rprime.is_prime(n) or not all(rprime.sprp(n, a) for a in rprime.SMALL[:rounds(n)]): yield n
    for n, w in SPSP:
        if w < rounds(n): yield n
    # Chernick's Carmichael numbers (6m+1)(12m+1)(18m+1), and (k+1)(2k+1), (k+1)(4k+1) whose strong liars are many
    done = 0
    m = 1
    while done < (60 if tier == 'quick' else 600):
        m += 1 + (m >> 3 if m % 5 == 0 else 0)
        f = (6 * m + 1, 12 * m + 1, 18 * m + 1)
        if all(rprime.is_prime(x) for x in f) and f[0] * f[1] * f[2] < 1 << 64: yield f[0] * f[1] * f[2]; done += 1
        for c in (2, 3, 4, 5, 7, 8):
            p, q = 4 * m + 3, c * (4 * m + 2) + 1
            if p * q < 1 << 64 and rprime.is_prime(p) and rprime.is_prime(q): yield p * q; done += 1
        if m > 1 << 29: break


@sub(cases=hard, qs=3)
def known_pseudoprimes(s, n):
    check(s, [n], [rprime.is_prime(n)])
    return ['prime' if rprime.is_prime(n) else '%d strong bases' % next((i for i, a in enumerate(rprime.SMALL) if n % a == 0 or not rprime.sprp(n, a)), 99)]


@st.composite
def numbers(draw):
    k = draw(st.sampled_from(['prime', 'prime', 'twoadic', 'semi', 'square', 'near', 'small factor', 'k', 'word']))
    b = draw(st.sampled_from([12, 16, 20, 24, 28, 31, 32, 33, 40, 48, 56, 62, 63, 64, 65, 80, 99, 100, 101, 128, 149, 150, 151, 192, 199, 200, 201, 249, 250, 251, 256, 299, 300, 301, 350,
                              384, 400, 450, 512, 549, 550, 551, 650, 850]))
    sd = draw(st.integers(0, 1 << 16))
    def pr(bits, i=0): return rprime.prime(max(bits, 4), sd + i)
    if k == 'prime': return pr(b)
    if k == 'twoadic': return rprime.two_adic_prime(max(b, 12), 1 + sd % max(1, min(max(b, 12) - 5, 60)), sd >> 6)
    if k == 'semi': return pr(b // 2) * pr(b - b // 2, 1)
    if k == 'square': return pr(b // 2) ** draw(st.integers(2, 3))
    if k == 'near': return pr(b) + draw(st.sampled_from([-2, 2, 4, -4, 6]))
    if k == 'small factor': return pr(b) * draw(st.sampled_from([13, 17, 19, 23, 101, 211, 1201, 1213, 1217, 1223, 1229, 1231, 1237, 1249, 4096, 9]))
    if k == 'k':                      # p * (c(p-1)+1): many strong liars
        p = pr(b // 2)
        c = 2 + sd % 7
        while True:
            q = c * (p - 1) + 1
            if rprime.is_prime(q): return p * q
            p = rprime.next_prime(p)
    return draw(gen.bits(64)) | 1


def judge(n):
    """prime?, or None when the documented test need not find the composite"""
    if rprime.is_prime(n): return True
    if n >= 1 << 64 and all(rprime.sprp(n, a) for a in rprime.SMALL[:rounds(n)]): return None
    return False


@sub(strategy=numbers, q=3000, t=120000, qs=3)
def large_numbers(s, n):
    w = judge(n)
    if w is None: return ['trivial']
    check(s, [n], [w])
    return ['trivial'] if n % 2 == 0 or n % 3 == 0 else ['%s, %s bits' % ('prime' if w else 'composite', '<=64' if n < 1 << 64 else '65-256' if n < 1 << 256 else '>256')]


@sub(cases=lambda tier: [[b, i] for b in (1000, 1023, 1024, 1025, 1200, 1299, 1300, 1301, 1536, 2048) for i in range(2 if tier == 'quick' else 8)], qs=4)
def very_large_numbers(s, c):
    b, i = c
    if i % 2 == 0: n = MERS[(i // 2) % 3] if b == 1000 else rprime.prime(b, 3 + i) if b <= 1300 else BIG[b]
    else: n = rprime.prime(b // 2, i) * rprime.prime(b - b // 2, i + 1)
    check(s, [n], [i % 2 == 0])


def base_two(tier):
    """Mersenne, Wagstaff and Fermat numbers, and (4^q - 1)/3: all strong pseudoprimes (or primes) to base 2"""
    qs = [q for q in range(29, 700) if rprime.is_prime(q)][::1 if tier == 'thorough' else 2]
    qs += [719, 821, 859, 911, 997, 1009, 1103, 1213, 1289, 1291, 1301, 1303, 1361, 1613, 1951, 2003, 2309, 2609, 2741, 3001, 3301, 3571] + ([4001, 5003, 6007, 8009] if tier == 'thorough' else [])
    for q in qs:
        yield (1 << q) - 1
        yield ((1 << q) + 1) // 3
        if q < 1200: yield ((1 << 2 * q) - 1) // 3
    for k in range(5, 12 if tier == 'quick' else 14): yield (1 << (1 << k)) + 1
    for p in (3, 5, 7):                             # and to base p: (p^q - 1)/(p - 1)
        for q in qs[::5]:
            if q < 900: yield (p ** q - 1) // (p - 1)


@sub(cases=base_two, qs=3)
def pseudoprimes_to_one_base(s, n):
    w = judge(n)
    if w is None: return ['trivial']
    check(s, [n], [w])
    return ['%s, %d00 bits' % ('prime' if w else 'composite', n.bit_length() // 500 * 5)]


MERS = [(1 << 607) - 1, (1 << 1279) - 1, (1 << 2203) - 1]
# 2^b - c, the largest primes below powers of two
BIG = {1301: (1 << 1301) - 1323, 1536: (1 << 1536) - 3453, 2048: (1 << 2048) - 1557}

GAPS = [(1327, 34), (31397, 72), (370261, 112), (2010733, 148), (20831323, 210), (1693182318746371, 1132), (18361375334787046697, 1550)]


@sub(cases=lambda tier: [[p - 2, p - 1, p, p + 1, p + 2, p + g // 2, p + g - 2, p + g - 1, p + g] for p, g in GAPS] +
     [list(range(a, a + 120)) for a in range(-120, 3000 if tier == 'quick' else 200000, 120)] + [[-10 ** 30, -5, (1 << 61) - 3, (1 << 61) - 2, (1 << 61) - 1]], qs=2)
def next_primes(s, ns):
    r = s.call('map1', MOD, 'next_prime', ns)
    need(not isinstance(r, Exc), lambda: 'next_prime: %s' % r)
    for n, x in zip(ns, r): same(x, 2 if n < 2 else rprime.next_prime(n), 'next_prime(%d)' % n)


@sub(strategy=lambda: st.one_of(st.sampled_from([24, 31, 32, 33, 48, 63, 64, 65, 96, 128, 192]).flatmap(gen.bits), gen.bits(60),
                                st.builds(lambda b, s, d: rprime.prime(b, s) + d, st.sampled_from([16, 24, 32, 48, 64, 96]), st.integers(0, 999), st.integers(-3, 3))), q=500, t=20000, qs=3)
def next_prime_of_any_number(s, n):
    x = s.f(MOD, 'next_prime', n)
    want = rprime.next_prime(n)
    if type(x) is int and n < x < want and judge(x) is None: return ['trivial']
    same(x, want, 'next_prime(%d)' % n)
    return ['even' if n % 2 == 0 else 'odd']


@st.composite
def recurring(draw):
    b = draw(st.sampled_from([8, 11, 12, 16, 31, 32, 33, 63]))
    v = draw(hist.pool(st.one_of(gen.bits(b), st.builds(lambda s, d: rprime.prime(b, s) + d, st.integers(0, 500), st.sampled_from([0, 0, 1, -1])), st.integers(1190, 1300),
                                 st.sampled_from(rprime.CARMICHAEL + rprime.SPSP2))))
    return [[draw(st.sampled_from(['is_prime', 'next_prime'])), draw(st.sampled_from(v))] for _ in range(draw(st.integers(3, 14)))]


@sub(strategy=recurring, q=500, t=20000, qs=2)
def recurring_arguments(s, calls):
    """the answers do not depend on earlier questions, and the table of small primes stays what it is"""
    def want(f, n):
        if f == 'is_prime': return bool(rprime.is_prime(n)) if judge(n) is not None else (lambda x: True)
        w = 2 if n < 2 else rprime.next_prime(n)
        # a composite that the documented test need not find may be returned
        return lambda x: x == w or (type(x) is int and n < x < w and judge(x) is None)
    hist.run(s, [[MOD, f, [n], want(f, n)] for f, n in calls])
    x = s.call('attr', MOD, 'smallprimes')
    need(isinstance(x, list) and x == SMALLPRIMES, lambda: 'smallprimes after %s: %s' % (calls, show(x)))


SMALLPRIMES = [n for n in range(2, 1230) if all(n % d for d in range(2, isqrt(n) + 1))]


PRIMES = [n for n in range(2, 6000) if all(n % d for d in range(2, isqrt(n) + 1))]


def products(tier):
    top = [q for q in PRIMES if 1150 < q < (1450 if tier == 'quick' else 2200)]
    for q in top: yield [q * r for r in top if r >= q]
    for i in range(0, len(PRIMES), 40):
        block = PRIMES[i:i + 40]
        yield [q ** 2 for q in block] + [q ** 3 for q in block] + [q * PRIMES[i + j + 1] for j, q in enumerate(block) if i + j + 1 < len(PRIMES)]


@sub(cases=products)
def products_of_two_small_primes(s, ns):
    """composites without a factor in the table, or whose smallest factor is near its end; squares and cubes; and the odd numbers around"""
    ns = sorted({n + d for n in ns for d in (-2, 0, 2)})
    check(s, ns, [rprime.is_prime(n) for n in ns])
