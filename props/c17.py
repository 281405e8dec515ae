from functools import reduce
from math import gcd, lcm

from hypothesis import strategies as st

import ecx
import gen
import hist
import rprime
from core import sub, need, same, rejected, show
from sut import Exc

MOD = 'ecc.numbertheory'
F = 'ecc/numbertheory.py'
RULE = 'one call (or a table of calls for all a and m in a range) compared with the definition; trivial: a in {0, 1}, a single number, exponent 0 or 1'


def check_inverse(s, pairs, via=None):
    r = s.many([[MOD, 'inverse_mod', [a, m]] for a, m in pairs])
    lab = set()
    for (a, m), x in zip(pairs, r):
        if gcd(a, m) == 1:
            w = pow(a, -1, m)
            need(type(x) is int and x == w, lambda: 'inverse_mod(%d, %d): got %s, expected %d' % (a, m, show(x), w))
            lab.add('trivial' if a in (0, 1) else 'a<0' if a < 0 else 'a>m' if a > m else 'reduced')
        else:
            rejected(x, 'inverse_mod(%d, %d)' % (a, m))
            lab.add('not coprime')
    return sorted(lab) if lab == {'trivial'} else sorted(lab - {'trivial'})


@sub(cases=lambda tier: range(2, 160 if tier == 'quick' else 900), qs=2)
def every_small_modulus(s, m):
    return check_inverse(s, [(a, m) for a in list(range(-m - 2, 2 * m + 3))])


def integers(maxbits=530):
    return st.one_of(gen.bits(maxbits), gen.bits(64), gen.bits(33), st.integers(0, 300), gen.bits(maxbits).map(lambda v: -v), st.integers(-300, 0))


@st.composite
def pair(draw):
    k = draw(st.sampled_from(['any', 'any', 'prime', 'pow2', 'shared', 'near', 'fib', 'std', 'sparse', 'sparse']))
    if k == 'prime': m = rprime.prime(draw(st.sampled_from([16, 31, 32, 33, 63, 64, 65, 128, 256, 521])), draw(st.integers(0, 30)))
    elif k == 'pow2': m = 1 << draw(st.integers(1, 600))
    elif k == 'std': m = draw(st.sampled_from(rprime.STANDARD))
    else: m = draw(gen.bits(draw(st.sampled_from([8, 16, 31, 32, 33, 63, 64, 65, 128, 256, 521, 1024])))) + 2
    if k == 'sparse':           # few bits set, or few clear, in one or both numbers
        def few(n):
            x = 1 << n
            for b in draw(st.lists(st.integers(0, n - 1), max_size=2)): x ^= 1 << b
            return draw(st.sampled_from([x, x, 2 * x - 1, x - 1, 3 * x]))
        if draw(st.booleans()): m = draw(gen.bits(draw(st.sampled_from([128, 256, 521, 1024, 2048])))) | 1 << draw(st.integers(1, 2100)) | 1
        else: m = few(draw(st.sampled_from([64, 127, 256, 521, 1024, 2048]))) | draw(st.integers(0, 1))
        a = few(draw(st.one_of(st.integers(1, m.bit_length() + 5), st.integers(1, 70))))
        return draw(st.sampled_from([a, a, a % m, -a, m - a % m, m // a or 1])), m
    if k == 'shared':
        f = draw(st.integers(2, 1000)); return draw(integers(200)) * f, m * f
    if k == 'near':
        d = draw(st.integers(-5, 5)); q = draw(st.integers(1, 5)); return m // q + d, m
    if k == 'fib':
        a, b = 1, draw(st.integers(1, 9))
        for _ in range(draw(st.integers(2, 300))): a, b = b, a + b
        return a, b
    return draw(st.one_of(gen.below(m), gen.below(m), integers())), m


@sub(strategy=lambda: st.lists(pair(), min_size=1, max_size=6), q=800, t=30000, qs=2)
def inverse_of_any_integer(s, pairs):
    return check_inverse(s, pairs)


@sub(strategy=lambda: st.tuples(st.one_of(st.tuples(st.just('p'), st.sampled_from(ecx.NAMES['WKETM'])), ecx.curves('WMET', [5, 7, 11, 13, 31])),
                                st.lists(integers(), min_size=1, max_size=8)), q=300, t=10000)
def curve_field_inversion(s, c):
    cv = ecx.resolve(s, c[0])
    if cv is None: return ['trivial']
    p = cv.g.p
    r = s.call('ec', cv.spec, [['inv', a] for a in c[1]])
    need(not isinstance(r, Exc), lambda: '%s: %s' % (show(cv.spec), r))
    for a, x in zip(c[1], r):
        if a % p == 0: rejected(x, 'inverse(%d) modulo %d' % (a, p))
        else: need(type(x) is int and x == pow(a, -1, p), lambda: 'curve inverse(%d) modulo %d: got %s' % (a, p, show(x)))
    return ['trivial'] if all(a in (0, 1) for a in c[1]) else [cv.label]


def positives():
    one = st.one_of(gen.bits(256).map(lambda v: v + 1), st.integers(1, 60), gen.bits(64).map(lambda v: v + 1), gen.bits(32).map(lambda v: v + 1))
    free = st.lists(one, min_size=1, max_size=7)
    common = st.builds(lambda g, l: [g * x for x in l], one, st.lists(st.one_of(st.integers(1, 1000), one), min_size=1, max_size=6))
    primes = st.lists(st.lists(st.sampled_from([2, 2, 3, 5, 7, 11, 13, 101, 65537, 4294967291]), max_size=5).map(lambda l: reduce(lambda x, y: x * y, l, 1)), min_size=1, max_size=7)
    return st.one_of(free, common, primes)


@sub(strategy=positives, q=1500, t=50000, qs=2)
def gcd_and_lcm(s, l):
    r = s.many([[MOD, 'gcd', l], [MOD, 'gcd', [l]], [MOD, 'lcm', l], [MOD, 'lcm', [l]]])
    g, m = gcd(*l), lcm(*l)
    same(r[0], g, 'gcd(*%s)' % show(l)); same(r[1], g, 'gcd(%s)' % show(l))
    same(r[2], m, 'lcm(*%s)' % show(l)); same(r[3], m, 'lcm(%s)' % show(l))
    return ['trivial'] if len(l) == 1 else ['numbers=%d' % len(l), 'coprime' if g == 1 else 'common factor']


@sub(cases=lambda tier: range(1, 80 if tier == 'quick' else 400))
def gcd_and_lcm_of_small_pairs(s, a):
    top = 90 if a < 80 else 420
    r = s.many([[MOD, f, [a, b]] for b in range(1, top) for f in ('gcd', 'lcm')])
    for b in range(1, top):
        same(r[2 * b - 2], gcd(a, b), 'gcd(%d, %d)' % (a, b))
        same(r[2 * b - 1], lcm(a, b), 'lcm(%d, %d)' % (a, b))


@sub(strategy=lambda: st.tuples(integers(), st.one_of(gen.bits(256), st.integers(0, 20), gen.bits(64)), st.one_of(gen.bits(256).map(lambda v: v + 2), st.integers(2, 50), gen.bits(64).map(lambda v: v + 2))),
     q=1000, t=40000)
def exponentiation(s, c):
    b, e, m = c
    same(s.f(MOD, 'modular_exp', b, e, m), pow(b, e, m), 'modular_exp(%d, %d, %d)' % (b, e, m))
    return ['trivial'] if e < 2 else ['base<0' if b < 0 else 'base>=m' if b >= m else 'reduced base']


@sub(strategy=lambda: st.tuples(integers(), st.one_of(gen.bits(256).map(lambda v: -v - 1), st.integers(-9, -1)), gen.bits(256).map(lambda v: v + 2)), q=200, t=4000)
def negative_exponents(s, c):
    x = s.f(MOD, 'modular_exp', *c)
    need(isinstance(x, Exc) and x.startswith('NegativeExponentError'), lambda: 'modular_exp%s: got %s, expected NegativeExponentError' % (tuple(c), show(x)))


@st.composite
def recurring(draw):
    v = draw(hist.pool(st.one_of(gen.bits(64), gen.bits(256), st.integers(2, 400))))
    e = [abs(x) % (1 << draw(st.sampled_from([3, 9, 70]))) for x in v]
    calls = []
    for _ in range(draw(st.integers(3, 14))):
        a, b, c = (draw(st.sampled_from(v)) for _ in range(3))
        k = draw(st.sampled_from(['inverse_mod', 'inverse_mod', 'modular_exp', 'gcd', 'lcm', 'gcd list']))
        if k == 'inverse_mod': calls.append([k, [a, max(2, abs(b))]])
        elif k == 'modular_exp': calls.append([k, [a, draw(st.sampled_from(e)), max(2, abs(c))]])
        elif k == 'gcd list': calls.append([draw(st.sampled_from(['gcd', 'lcm'])), [[abs(x) or 1 for x in (a, b, c)]]])
        else: calls.append([k, [abs(a) or 1, abs(b) or 1]])
    return calls


@sub(strategy=recurring, q=500, t=20000, qs=2)
def recurring_arguments(s, calls):
    def want(f, a):
        if f == 'inverse_mod': return pow(a[0], -1, a[1]) if gcd(*a) == 1 else 'error'
        if f == 'modular_exp': return pow(*a)
        l = a[0] if isinstance(a[0], list) else a
        return gcd(*l) if f == 'gcd' else lcm(*l)
    hist.run(s, [[MOD, f, a, want(f, a)] for f, a in calls])


@st.composite
def with_result(draw):
    """arguments solved for from a result that a reduction has to treat with care"""
    m = draw(st.one_of(st.sampled_from(rprime.STANDARD), st.sampled_from(rprime.STANDARD), st.integers(1, 530).map(lambda b: (1 << b) + 1),
                       st.integers(2, 530).map(lambda b: (1 << b) - 1), gen.bits(300).map(lambda v: v + 2)))
    v = draw(st.one_of(st.integers(0, 40), st.integers(-40, -1), st.tuples(st.integers(0, 600), st.integers(-40, 40)).map(lambda t: (1 << t[0]) % m + t[1]))) % m
    return [v, m, draw(st.one_of(st.integers(1, 20), gen.bits(256))), draw(st.integers(-3, 3)), draw(gen.bits(530))]


@sub(strategy=with_result, q=700, t=25000)
def particular_results(s, c):
    v, m, e, k, x = c
    lab = ['prime' if rprime.is_prime(m) else 'composite']
    calls, want = [], []
    if gcd(v, m) == 1:
        calls.append([MOD, 'inverse_mod', [pow(v, -1, m) + k * m, m]]); want.append(v)
        lab.append('inverse')
    if rprime.is_prime(m) and m > 3:
        while gcd(e, m - 1) != 1: e += 1
        calls.append([MOD, 'modular_exp', [pow(v, pow(e, -1, m - 1), m) + k * m, e, m]]); want.append(v)
    calls.append([MOD, 'modular_exp', [v + k * m, 1, m]]); want.append(v)
    # a square whose last product or reduction is of a particular size
    calls.append([MOD, 'modular_exp', [x, 2, max(2, x * x - v)]]); want.append(x * x % max(2, x * x - v))
    r = s.many(calls)
    for a, y, w in zip(calls, r, want):
        need(type(y) is int and y == w, lambda: '%s%s: got %s, expected %d' % (a[1], tuple(a[2]), show(y), w))
    return lab
