from math import gcd

from hypothesis import strategies as st

import gen
import hist
import rprime
from core import sub, same, need, rejected
from sut import Exc

MOD = 'fmath.prime'
RULE = 'one or more (n, a) pairs compared with the definition of a strong / Fermat liar; trivial: a = 1 or a = n-1 only'


def ref_rm(n, a):
    """1 iff odd n passes the strong test to base a"""
    if n == 2: return 1
    s, d = 0, n - 1
    while d % 2 == 0: d //= 2; s += 1
    x = pow(a, d, n)
    if x in (1, n - 1): return 1
    for _ in range(s - 1):
        x = x * x % n
        if x == n - 1: return 1
    return 0


def check(s, pairs):
    lab = set()
    r = s.many([[MOD, 'rabin_miller', [n, a]] for n, a in pairs])
    f = s.many([[MOD, 'fermat_little_test', [n, a]] for n, a in pairs])
    for (n, a), x, y in zip(pairs, r, f):
        want = ref_rm(n, a)
        need(not isinstance(x, Exc) and x == want, lambda: 'rabin_miller(%d, %d): got %s, expected %d' % (n, a, x, want))
        fw = 1 if pow(a, n - 1, n) == 1 else 0
        need(not isinstance(y, Exc) and y == fw, lambda: 'fermat_little_test(%d, %d): got %s, expected %d' % (n, a, y, fw))
        lab.add(('prime' if rprime.is_prime(n) else 'strong liar' if want else 'Fermat liar' if fw else 'witness') if 1 < a < n - 1 else 'trivial')
    return sorted(lab) if lab == {'trivial'} else sorted(lab - {'trivial'})


def exhaustive(tier):
    top = 400 if tier == 'quick' else 2500
    for n in range(3, top, 2):
        for lo in range(1, n, 400): yield [[n, a] for a in range(lo, min(n, lo + 400))]


@sub(cases=exhaustive, qs=2)
def all_small(s, pairs):
    return check(s, pairs)


def liar(bits, seed, d):
    """n = p*q and a whose 2-parts of the orders modulo p and q agree (d = 0: a strong liar) or nearly do"""
    h = max(10, bits // 2)
    s = 1 + seed % min(9, h - 6)
    p = rprime.two_adic_prime(h, s, seed % 50)
    k = 1 + seed // 50 % 3
    q = p
    while True:                     # q = 1 modulo a large part of p - 1
        q += (p - 1) * k
        if q > p and rprime.is_prime(q): break
    n = p * q
    m = (n - 1) // ((n - 1) & -(n - 1))
    i = seed // 150 % (s + 1)

    def elem(r, i):
        t = (r - 1) & -(r - 1)
        o = (r - 1) // t
        x = 2
        while pow(x, (r - 1) // 2, r) != r - 1: x += 1
        y = pow(x, o, r)                                # order t
        y = pow(y, t >> min(i, t.bit_length() - 1), r)  # order 2^i
        g = gcd(o, m)
        return y * pow(x + seed % 97, (r - 1) // g, r) % r
    a, b = elem(p, i), elem(q, i + d)
    return n, a + p * ((b - a) * pow(p, -1, q) % q)


@st.composite
def big(draw):
    bits = draw(st.sampled_from([16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 128, 160, 256, 384, 521]))
    kind = draw(st.sampled_from(['prime', 'prime', 'odd', 'product', 'square', 'twoadic', 'liar', 'liar']))
    seed = draw(st.integers(0, 1 << 24))
    def odd(b, t): return gen.detint(b, seed, t) | 1 | 1 << (b - 1)
    if kind == 'prime': n = rprime.next_prime(odd(bits, 0))
    elif kind == 'odd': n = odd(bits, 1)
    elif kind == 'square': n = rprime.next_prime(odd(max(8, bits // 2), 2)) ** 2
    elif kind == 'twoadic': n = rprime.two_adic_prime(max(bits, 24), draw(st.integers(2, 20)), seed)
    else: n = rprime.next_prime(odd(max(8, bits // 2), 3)) * rprime.next_prime(odd(max(8, bits - bits // 2), 4))
    a = draw(gen.below(n - 1)) + 1
    if kind == 'liar':
        n, a = liar(min(bits, 256), seed, draw(st.sampled_from([0, 0, 0, 1, 2])))
    return [[n, a], [n, n - a], [n, 1], [n, n - 1], [n, a * a % n or 1]]


@sub(strategy=big, q=600, t=20000, qs=3)
def large_numbers(s, pairs):
    return check(s, pairs)


def pseudos(tier):
    for n in rprime.SPSP2 + rprime.PSI + rprime.CARMICHAEL + rprime.MERSENNE + rprime.STANDARD:
        yield [[n, a] for a in (1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, n - 1, n - 2, n // 2, n // 3) if 1 <= a < n]
    for p in (3, 5, 7, 11, 13, 101, 65537, 4294967291): yield [[p * p, a] for a in (1, p, p - 1, p + 1, p * p - 1, 2, pow(2, p, p * p), pow(3, p, p * p)) if 0 < a < p * p]


@sub(cases=pseudos)
def known_pseudoprimes(s, pairs):
    return check(s, [list(p) for p in pairs])


@sub(cases=lambda tier: [[n, a] for n in (3, 4, 5, 9, 15, 17, 91, 561, 65537, (1 << 61) - 1, (1 << 127) - 1) for a in (0, -1, -2, n, n + 1, 2 * n, -n, n + 2, 3 * n - 1)])
def test_integers_out_of_range(s, c):
    rejected(s.f(MOD, 'rabin_miller', c[0], c[1]), 'rabin_miller(%d, %d)' % tuple(c))


@sub(strategy=lambda: st.tuples(gen.bits(128).map(lambda v: v | 1).filter(lambda v: v > 2), st.one_of(st.integers(-5, 0), st.integers(0, 1 << 130))), q=200, t=3000)
def random_out_of_range(s, c):
    n, d = c
    a = d if d <= 0 else n + d
    rejected(s.f(MOD, 'rabin_miller', n, a), 'rabin_miller(%d, %d)' % (n, a))


@sub(strategy=lambda: st.tuples(st.one_of(st.integers(2, 2000), gen.bits(128).map(lambda v: v + 2)), gen.bits(160)), q=300, t=8000)
def fermat_any_integer(s, c):
    p, a = c
    want = 1 if pow(a, p - 1, p) == 1 else 0
    x = s.f(MOD, 'fermat_little_test', p, a)
    need(not isinstance(x, Exc) and x == want, lambda: 'fermat_little_test(%d, %d): got %s, expected %d' % (p, a, x, want))
    return ['trivial'] if a < 2 else ['pass' if want else 'fail']


@sub(cases=lambda tier: [0])
def prime_table(s, _):
    x = s.call('attr', 'fmath.primes_to_5k', 'primes_to_5k')
    need(isinstance(x, list), lambda: 'primes_to_5k: %r' % (x,))
    want = [n for n in range(2, 5000) if all(n % d for d in range(2, int(n ** .5) + 1))]
    for i, (a, b) in enumerate(zip(x, want)): need(a == b, lambda: 'entry %d is %s, expected %d' % (i, a, b))
    same(len(x), len(want), 'number of entries')


@st.composite
def recurring(draw):
    ns = [abs(x) | 1 for x in draw(hist.pool(st.one_of(gen.bits(64), st.sampled_from(rprime.SPSP2 + rprime.CARMICHAEL), st.integers(3, 900), st.builds(rprime.prime, st.sampled_from([16, 32, 64]), st.integers(0, 99)))))]
    ns = [n for n in ns if n > 4] or [9]
    as_ = [abs(x) for x in draw(hist.pool(st.one_of(gen.bits(64), st.integers(1, 20))))]
    return [[draw(st.sampled_from(['rabin_miller', 'rabin_miller', 'fermat_little_test'])), draw(st.sampled_from(ns)), draw(st.sampled_from(as_))] for _ in range(draw(st.integers(3, 14)))]


@sub(strategy=recurring, q=400, t=15000, qs=2)
def recurring_arguments(s, calls):
    def go(f, n, a):
        a = 1 + a % (n - 1)
        if f == 'rabin_miller': return [MOD, f, [n, a], ref_rm(n, a)]
        return [MOD, f, [n, a], 1 if pow(a, n - 1, n) == 1 else 0]
    hist.run(s, [go(*c) for c in calls])
