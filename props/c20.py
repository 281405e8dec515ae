from functools import reduce
from math import gcd, lcm

from hypothesis import strategies as st

import gen
import hist
import rprime
from core import sub, need, same, rejected, show
from sut import Exc

MOD = 'ecc.numbertheory'
RULE = 'one integer with known factors (or a block of consecutive ones), or one (x, m); trivial: a prime or n < 2, or x = 1'


def factor(n):
    r = []
    d = 2
    while d * d <= n:
        if n % d == 0:
            e = 0
            while n % d == 0: n //= d; e += 1
            r.append((d, e))
        d += 1
    return r + [(n, 1)] if n > 1 else r


def phi(f): return reduce(lambda a, x: a * (x[0] - 1) * x[0] ** (x[1] - 1), f, 1)


def lam(f): return reduce(lcm, [(p - 1) * p ** (e - 1) // (2 if p == 2 and e > 2 else 1) for p, e in f], 1)


def product(f): return reduce(lambda a, x: a * x[0] ** x[1], f, 1)


def check(s, ns, fs):
    r = s.call('map1', MOD, 'factorization', ns)
    ph = s.call('map1', MOD, 'phi', ns)
    ca = s.call('map1', MOD, 'carmichael', ns)
    for z in (r, ph, ca): need(not isinstance(z, Exc), lambda: str(z))
    for n, f, x, y, z in zip(ns, fs, r, ph, ca):
        need(isinstance(x, list) and [tuple(q) for q in x] == f, lambda: 'factorization(%d): got %s, expected %s' % (n, show(x), f))
        if n >= 1:
            same(y, phi(f), 'phi(%d)' % n)
            same(z, lam(f), 'carmichael(%d)' % n)


@sub(cases=lambda tier: [[a, a + 500] for a in list(range(-1000, 8000 if tier == 'quick' else 400000, 500)) + [10 ** 6, 1510000, 1229 ** 2 - 250, 1231 ** 2 - 250, 2 ** 31 - 250, 2 ** 32 - 250, 10 ** 9]], qs=3)
def every_number_in_ranges(s, c):
    ns = list(range(*c))
    check(s, ns, [factor(n) if n > 1 else [] for n in ns])


EDGES = [1217, 1223, 1229, 1231, 1237, 1249, 1259]
MID = [p for p in range(1231, 30000) if rprime.is_prime(p)]


@st.composite
def structured(draw):
    """factors that trial division reaches in time: all but the largest prime below 30000, and a largest prime of any size
    only when the others are in the small table"""
    small = draw(st.lists(st.tuples(st.sampled_from(rprime.SMALL[:10] + rprime.SMALL[-5:] + EDGES[:3] + [2, 3, 2]), st.integers(1, 4)), max_size=4))
    if draw(st.booleans()): small.append((2, draw(st.integers(1, 70))))
    f = {}
    for p, e in small: f[p] = f.get(p, 0) + e
    k = draw(st.sampled_from(['none', 'big', 'mid', 'mid', 'mid', 'edge']))
    if k == 'big':
        p = rprime.prime(draw(st.sampled_from([11, 12, 16, 24, 31, 32, 33, 40, 63, 64, 65, 100, 128, 192, 256, 521])), draw(st.integers(0, 200)))
        f[p] = f.get(p, 0) + 1
    elif k != 'none':
        mids = draw(st.lists(st.tuples(st.sampled_from(EDGES[3:]) if k == 'edge' else st.one_of(st.sampled_from(EDGES[3:]), st.sampled_from(MID[:100]), st.sampled_from(MID)), st.integers(1, 4)),
                             min_size=1, max_size=3))
        for p, e in mids: f[p] = f.get(p, 0) + e
        if draw(st.booleans()):
            p = rprime.prime(draw(st.sampled_from([11, 15, 16, 17, 20, 24, 28, 30])), draw(st.integers(0, 200)))
            f[p] = f.get(p, 0) + 1
    return sorted(f.items())


@sub(strategy=structured, q=900, t=30000, qs=4)
def numbers_with_known_factors(s, f):
    f = [tuple(x) for x in f]
    check(s, [product(f)], [f])
    x = s.f(MOD, 'carmichael_of_factorized', [list(q) for q in f])
    same(x, lam(f), 'carmichael_of_factorized(%s)' % f)
    return ['trivial'] if sum(e for p, e in f) < 2 else ['factors=%d' % min(4, len(f)), 'square' if any(e > 1 for p, e in f) else 'square-free',
                                                         'factor beyond the table' if any(p > 1229 for p, e in f) else 'table only']


@sub(strategy=lambda: st.lists(st.tuples(st.one_of(st.sampled_from([2, 2, 3, 5, 7, 11]), st.builds(rprime.prime, st.sampled_from([16, 31, 32, 64, 128, 256]), st.integers(0, 200))),
                                         st.one_of(st.integers(1, 4), st.integers(1, 40))), max_size=6, unique_by=lambda x: x[0]), q=500, t=20000)
def carmichael_from_any_factors(s, f):
    f = [tuple(x) for x in f]
    same(s.f(MOD, 'carmichael_of_factorized', [list(q) for q in f]), lam(f), 'carmichael_of_factorized(%s)' % f)
    r = s.many([[MOD, 'carmichael_of_ppower', [list(q)]] for q in f])
    for q, x in zip(f, r): same(x, lam([q]), 'carmichael_of_ppower(%s)' % (q,))
    return ['trivial'] if len(f) < 2 and all(e < 2 for p, e in f) else ['2^%d' % min(3, dict(f).get(2, 0))]


def order(x, m):
    k, z = 1, x % m
    while z != 1 % m: z = z * x % m; k += 1
    return k


@sub(cases=lambda tier: range(2, 130 if tier == 'quick' else 420), qs=2)
def every_order_of_small_moduli(s, m):
    xs = [x for x in range(1, 3 * m) if gcd(x, m) == 1]
    r = s.call('map2', MOD, 'order_mod', xs, [m])
    need(not isinstance(r, Exc), lambda: str(r))
    for x, y in zip(xs, r): same(y, order(x, m), 'order_mod(%d, %d)' % (x, m))


@sub(cases=lambda tier: range(1, 90 if tier == 'quick' else 300), qs=2)
def relatively_prime_parts(s, a):
    top = 130 if a < 90 else 320
    bs = list(range(1, top))
    r = s.call('map2', MOD, 'largest_factor_relatively_prime', [a], bs)
    need(not isinstance(r, Exc), lambda: str(r))
    part = {b: max(d for d in range(1, a + 1) if a % d == 0 and gcd(d, b) == 1) for b in bs}
    for b, y in zip(bs, r): same(y, part[b], 'largest_factor_relatively_prime(%d, %d)' % (a, b))
    bs = [b for b in bs if part[b] > 1]
    r = s.call('map2', MOD, 'kinda_order_mod', bs, [a])
    need(not isinstance(r, Exc), lambda: str(r))
    for b, y in zip(bs, r): same(y, order(b, part[b]), 'kinda_order_mod(%d, %d)' % (b, a))


@st.composite
def ab(draw):
    ps = [2, 2, 3, 5, 7, 11, 13, 101, 1229, 65537, (1 << 61) - 1]
    l = [draw(st.lists(st.tuples(st.sampled_from(ps), st.integers(1, draw(st.sampled_from([1, 3, 20])))).map(list), min_size=n, max_size=5)) for n in (draw(st.sampled_from([0, 2, 2, 3])), 0)]
    if l[0] and draw(st.booleans()):
        # part of the first number's primes are in the second, with other exponents
        l[1] += [[x[0], draw(st.integers(1, 4))] for x in l[0] if draw(st.booleans())]
    return l


@sub(strategy=ab, q=600, t=20000)
def relatively_prime_parts_of_any_size(s, c):
    (fa, fb) = c
    a, b = product(fa), product(fb)
    want = product([x for x in fa if b % x[0]])
    same(s.f(MOD, 'largest_factor_relatively_prime', a, b), want, 'largest_factor_relatively_prime(%d, %d)' % (a, b))
    return ['trivial'] if want in (1, a) else ['proper part']


@sub(strategy=lambda: st.tuples(st.one_of(st.integers(2, 200000), st.sampled_from([2, 4, 8, 3, 9, 7, 49, 65536, 65537, 99991, 131072])), gen.bits(64), st.integers(0, 3)), q=150, t=4000, qs=2)
def orders(s, c):
    m, x, k = c
    if k == 0: x = m - 1 + m * (x % 3)
    if k == 1: x = pow(x % m, max(1, m // 7), m) + m * (x & 1)
    x = max(1, x)
    if gcd(x, m) != 1: x = x * m + 1 if k else x // max(1, gcd(x, m ** 20)) or 1
    if gcd(x, m) != 1: return ['trivial']
    same(s.f(MOD, 'order_mod', x, m), order(x, m), 'order_mod(%d, %d)' % (x, m))
    return ['trivial'] if x % m == 1 else ['x>m' if x > m else 'x<m']


@st.composite
def recurring(draw):
    small = st.lists(st.sampled_from([2, 2, 2, 3, 3, 5, 7, 11, 13, 101, 1217, 1223, 1229, 1231, 1237]), min_size=1, max_size=7).map(lambda l: reduce(lambda a, b: a * b, l))
    v = [x for x in draw(hist.pool(st.one_of(small, small, st.integers(2, 3000)), lo=1)) if x < 1 << 32 or max(p for p, e in factor_any(x)) < 1300]
    if not v: v = [360, 36]
    calls = []
    for _ in range(draw(st.integers(3, 14))):
        f = draw(st.sampled_from(['factorization', 'factorization', 'phi', 'carmichael', 'carmichael_of_factorized', 'largest_factor_relatively_prime', 'order_mod']))
        a = draw(st.sampled_from(v))
        calls.append([f, a, draw(st.sampled_from(v))])
    return calls


def factor_any(n):
    """smooth part by trial division, the rest as one factor"""
    r = []
    for d in rprime.SMALL + EDGES:
        e = 0
        while n % d == 0 and n: n //= d; e += 1
        if e: r.append((d, e))
    return r + [(n, 1)] if n > 1 or not r else r


@sub(strategy=recurring, q=500, t=20000, qs=2)
def recurring_arguments(s, calls):
    def go(f, a, b):
        fa = factor(a) if a < 1 << 32 else factor_any(a)
        if f == 'factorization': return [MOD, f, [a], lambda x: isinstance(x, list) and [tuple(q) for q in x] == fa]
        if f == 'carmichael_of_factorized': return [MOD, f, [[list(q) for q in fa]], lam(fa)]
        if f == 'phi': return [MOD, f, [a], phi(fa)]
        if f == 'carmichael': return [MOD, f, [a], lam(fa)]
        if f == 'order_mod':
            m = 2 + a % 3000
            x = 1 + b % 5000
            if gcd(x, m) != 1: x = m + 1
            return [MOD, f, [x, m], order(x, m)]
        return [MOD, f, [a, b], product([q for q in fa if b % q[0]])]
    hist.run(s, [go(*c) for c in calls])


def products(tier):
    top = [q for q in range(1150, 1400 if tier == 'quick' else 2000) if rprime.is_prime(q)]
    for q in top: yield [q * r for r in top if r >= q]
    sq = [q for q in range(2, 3000 if tier == 'quick' else 20000) if rprime.is_prime(q)]
    for i in range(0, len(sq), 40): yield [q ** k for q in sq[i:i + 40] for k in (2, 3)]


@sub(cases=products)
def products_of_two_small_primes(s, ns):
    """around the end of the table of small primes; squares and cubes"""
    check(s, ns, [factor(n) for n in ns])


@sub(strategy=lambda: st.one_of(st.tuples(st.one_of(gen.bits(70), st.integers(-20, 20)), st.one_of(st.integers(-3, 1), gen.bits(70).map(lambda v: -v))),
                                st.tuples(st.integers(-60, 600), st.integers(2, 1200)),
                                st.tuples(st.integers(2, 60), st.integers(0, 60), st.integers(1, 60)).map(lambda t: (t[0] * t[1], t[0] * t[2]))), q=500, t=15000)
def orders_that_do_not_exist(s, c):
    """modulo 1 there is no order (0 by convention); a number that shares a factor with the modulus has none"""
    x, m = c
    if m <= 1:
        same(s.f(MOD, 'order_mod', x, m), 0, 'order_mod(%d, %d)' % (x, m))
        return ['no modulus']
    if x < 0 or gcd(x, m) == 1: return ['trivial']
    rejected(s.f(MOD, 'order_mod', x, m), 'order_mod(%d, %d)' % (x, m))
    return ['common factor']
