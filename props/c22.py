from hypothesis import strategies as st

import gen
import hist
import rprime
from core import sub, need, rejected, show
from sut import Exc

RULE = 'one reduction, product or power compared modulo (polymod, p); trivial: a result that needs no reduction, or exponent below 2'


def red(a, f, p):
    a = [x % p for x in a]
    while len(a) >= len(f):
        c = a.pop()
        for i in range(len(f) - 1): a[len(a) - len(f) + 1 + i] = (a[len(a) - len(f) + 1 + i] - c * f[i]) % p
    return trim(a)


def trim(a):
    a = list(a)
    while a and a[-1] == 0: a.pop()
    return a


def mul(a, b, f, p):
    r = [0] * (len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] += x * y
    return red(r, f, p)


def power(b, e, f, p):
    r = red([1], f, p)
    for c in bin(e)[2:]:
        r = mul(r, r, f, p)
        if c == '1': r = mul(r, b, f, p)
    return r


def check(s, name, args, want, f, p, short=None):
    x = s.call('poly_call', name, args)
    desc = lambda: '%s%s: got %s, expected %s' % (name, show(tuple(args), 900), show(x), want)
    need(isinstance(x, list) and all(type(v) is int for v in x), desc)
    need(trim([v % p for v in x]) == want, desc)
    need(len(x) < len(f) or (short is not None and x == short), desc)


def primes():
    return st.one_of(st.sampled_from([2, 3, 5, 7, 11, 13, 31, 101]), st.builds(rprime.prime, st.sampled_from([16, 31, 32, 33, 64, 128, 256]), st.integers(0, 50)))


@st.composite
def polymod(draw, p, maxdeg=7):
    d = draw(st.sampled_from([1, 2, 2, 2, 3, 4, 5, maxdeg]))
    return [draw(coef(p)) for _ in range(d)] + [1]


def coef(p): return st.one_of(gen.below(p), st.just(0), st.just(0), st.integers(-5, 5), gen.bits(p.bit_length() + 40), gen.bits(p.bit_length() + 9).map(lambda v: -v), st.just(p), st.just(1))


def poly(p, n): return st.lists(coef(p), min_size=1, max_size=n)


@st.composite
def reduce_case(draw):
    p = draw(primes())
    f = draw(polymod(p))
    n = draw(st.sampled_from([0, len(f), len(f), len(f) + 1, len(f) + 4, 2 * len(f)]))
    return [p, f, draw(st.lists(coef(p), min_size=max(1, n), max_size=max(n, draw(st.sampled_from([3, 6, 12, 20])))))]


@sub(strategy=reduce_case, q=900, t=30000, qs=2)
def reduction(s, c):
    p, f, a = c
    check(s, 'polynomial_reduce_mod', [a, f, p], red(a, f, p), f, p, a)
    return ['trivial'] if len(a) < len(f) else ['degree %d' % (len(f) - 1)]


@st.composite
def mul_case(draw):
    p = draw(primes())
    return [p, draw(polymod(p)), draw(poly(p, 8)), draw(poly(p, 8))]


@sub(strategy=mul_case, q=900, t=30000, qs=2)
def multiplication(s, c):
    p, f, a, b = c
    check(s, 'polynomial_multiply_mod', [a, b, f, p], mul([x % p for x in a], [x % p for x in b], f, p), f, p)
    return ['trivial'] if len(a) + len(b) - 1 < len(f) else ['degree %d' % (len(f) - 1)]


@st.composite
def exp_case(draw):
    p = draw(primes())
    f = draw(polymod(p))
    b = draw(st.lists(coef(p), min_size=1, max_size=draw(st.sampled_from([len(f) - 1] * 3 + [len(f) + 4]))))
    e = draw(st.one_of(gen.below(p), st.integers(1, 3).map(lambda d: max(0, p - d)), st.just((p + 1) // 2 % p), st.integers(0, p - 1)))
    return [p, f, b if e > 1 else b[:len(f) - 1], e]


@sub(strategy=exp_case, q=900, t=30000, qs=3)
def exponentiation(s, c):
    p, f, b, e = c
    check(s, 'polynomial_exp_mod', [b, e, f, p], power([x % p for x in b], e, f, p), f, p, b)
    return ['trivial'] if e < 2 else ['degree %d' % (len(f) - 1), 'even' if e % 2 == 0 else 'odd']


@sub(strategy=lambda: st.tuples(exp_case(), st.integers(0, 5)), q=150, t=3000)
def exponents_not_below_p(s, c):
    (p, f, b, e), d = c
    rejected(s.call('poly_call', 'polynomial_exp_mod', [b, p + d * e, f, p]), 'polynomial_exp_mod with exponent %d >= p = %d' % (p + d * e, p))


def small(tier):
    for p in (2, 3, 5) if tier == 'quick' else (2, 3, 5, 7, 11):
        for d in (1, 2, 3) if tier != 'quick' and p < 7 else (1, 2):
            for i in range(p ** d):
                yield [p, [i // p ** k % p for k in range(d)] + [1]]


@sub(cases=small, qs=2)
def everything_over_small_fields(s, c):
    p, f = c
    d = len(f) - 1
    polys = [[i // p ** k % p for k in range(d)] for i in range(p ** d)]
    if p ** (2 * d) > 5000: polys = polys[::1 + p ** d // 40]
    for a in polys:
        for b in polys: check(s, 'polynomial_multiply_mod', [a, b, f, p], mul(a, b, f, p), f, p)
        for e in range(p): check(s, 'polynomial_exp_mod', [a, e, f, p], power(a, e, f, p), f, p, a)


@st.composite
def recurring(draw):
    """products, powers and reductions that share moduli, fields and operands"""
    ps = [draw(primes()) for _ in range(2)]
    fs = [draw(polymod(ps[0])) for _ in range(2)]
    if draw(st.booleans()): fs.append(fs[0][:-1] + [draw(st.integers(0, 3)), 1])
    ms = [draw(poly(ps[0], 5)) for _ in range(3)]
    es = [draw(st.integers(0, 300)), draw(st.integers(0, 12))]
    return [[draw(st.sampled_from(['polynomial_reduce_mod', 'polynomial_multiply_mod', 'polynomial_multiply_mod', 'polynomial_exp_mod'])), draw(st.sampled_from(ms)),
             draw(st.sampled_from(ms)), draw(st.sampled_from(es)), draw(st.sampled_from(fs)), draw(st.sampled_from(ps))] for _ in range(draw(st.integers(3, 10)))]


@sub(strategy=recurring, q=400, t=15000, qs=2)
def recurring_arguments(s, calls):
    def go(name, a, b, e, f, p):
        if name == 'polynomial_reduce_mod': args, w, short = [a, f, p], red(a, f, p), a
        elif name == 'polynomial_multiply_mod': args, w, short = [a, b, f, p], mul([x % p for x in a], [x % p for x in b], f, p), None
        else:
            a, e = a[:len(f) - 1], e % p
            args, w, short = [a, e, f, p], power([x % p for x in a], e, f, p), a
        return ['ecc.numbertheory', name, args, lambda x: isinstance(x, list) and all(type(v) is int for v in x) and trim([v % p for v in x]) == w and
                (len(x) < len(f) or (short is not None and x == short))]
    hist.run(s, [go(*c) for c in calls])


def long_cases(tier):
    ps = [7, rprime.prime(32, 3), rprime.prime(64, 1)]
    ns = [8, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 66, 96, 97, 99, 127, 128, 129] + ([200, 255, 256, 257, 300] if tier == 'thorough' else [])
    for i, n in enumerate(ns):
        for j, m in enumerate((n, n + 1, n, n // 2, 3)):
            # the modulus longer than the product, about half of it, short
            d = (n + m + 2, n + m - 2, max(n, m) + 1, max(n, m) // 2 + 1, 2)[(i + j) % 5]
            yield dict(p=ps[(i + j) % 3], n=n, m=m, d=d, seed=[i, j], square=j == 2)


@sub(cases=long_cases, qs=2)
def long_polynomials(s, c):
    p = c['p']
    def some(n, k): return [int.from_bytes(gen.det(12, c['seed'], k, i), 'big') % p for i in range(n)]
    a, b, f = some(c['n'], 1), some(c['m'], 2), some(c['d'], 3) + [1]
    if c['square']: b = list(a)
    check(s, 'polynomial_multiply_mod', [a, b, f, p], mul(a, b, f, p), f, p)
    check(s, 'polynomial_reduce_mod', [a + b, f, p], red(a + b, f, p), f, p, a + b if len(a + b) < len(f) else None)
    if c['d'] <= 40 and p > 7:
        e = 5 + len(a) * 7
        base = a[:c['d']]
        check(s, 'polynomial_exp_mod', [base, e, f, p], power(base, e, f, p), f, p)
    return ['square' if c['square'] else 'equal lengths' if c['n'] == c['m'] else 'other lengths']


@st.composite
def with_result(draw):
    """operands built from a remainder with few or no terms, and zero divisors"""
    p = draw(primes())
    one = st.lists(coef(p), min_size=1, max_size=5)
    g, h = (draw(st.lists(coef(p), max_size=3)) + [1] for _ in range(2))
    r = draw(st.sampled_from([[], [], [0], [1], [-1], [0, 1], [0, 0, 1], [p - 1], [0, p - 1], [5, 0, 0, 1]]))
    return [p, g, h, r, draw(one), draw(one), draw(st.integers(2, max(2, min(p - 1, 40))))]


def raw(a, b):
    r = [0] * (len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] += x * y
    return r


@sub(strategy=with_result, q=500, t=20000, qs=2)
def particular_remainders(s, c):
    p, g, h, r, u, v, e = c
    # f = g h; u f + r leaves r; (u g)(v h) leaves nothing
    f = [x % p for x in raw(g, h)]
    if len(f) < 2: return ['trivial']
    a = raw(u, f)
    a = [(a[i] if i < len(a) else 0) + (r[i] if i < len(r) else 0) for i in range(max(len(a), len(r)))]
    check(s, 'polynomial_reduce_mod', [a, f, p], red(r, f, p), f, p, a)
    m1, m2 = raw(u, g), raw(v, h)
    check(s, 'polynomial_multiply_mod', [m1, m2, f, p], [], f, p)
    lab = ['degree %d' % (len(f) - 1), 'no remainder' if not red(r, f, p) else 'remainder of %d' % len(red(r, f, p))]
    if len(g) > 1 and e < p:
        f = [1]
        for _ in range(2 + e % 3): f = raw(f, g)
        f = [x % p for x in f]
        check(s, 'polynomial_exp_mod', [m1[:len(f) - 1] if len(m1) >= len(f) else m1, e, f, p],
              power([x % p for x in (m1[:len(f) - 1] if len(m1) >= len(f) else m1)], e, f, p), f, p)
        lab.append('nilpotent')
    return lab


@st.composite
def not_monic(draw):
    p = draw(primes())
    f = draw(polymod(p))
    if draw(st.integers(0, 3)): f = f[:-1] + [draw(st.one_of(st.sampled_from([0, 2, p - 1, p + 1, 1 - p, -1]), coef(p)))]
    else: f = [draw(st.sampled_from([1, 1, 0, 2]))]
    return [p, f, draw(poly(p, 8)), draw(poly(p, 8)), draw(st.integers(0, 5))]


@sub(strategy=not_monic, q=400, t=10000)
def unusable_moduli(s, c):
    """a polymod whose leading coefficient is not 1, or that is constant, is refused"""
    p, f, a, b, e = c
    if len(f) > 1 and f[-1] == 1: return ['trivial']
    w = 'with polymod %s over GF(%d)' % (f, p)
    rejected(s.call('poly_call', 'polynomial_reduce_mod', [list(a), list(f), p]), 'polynomial_reduce_mod ' + w)
    if a and b: rejected(s.call('poly_call', 'polynomial_multiply_mod', [a, b, f, p]), 'polynomial_multiply_mod ' + w)
    return ['constant' if len(f) == 1 else 'not monic']


@st.composite
def sparse(draw):
    """long polynomials with few terms"""
    p = draw(primes())
    def some(n):
        a = [0] * n
        for k in draw(st.lists(st.one_of(st.integers(0, n - 1), st.sampled_from([n - 1, n // 2, 0])), min_size=1, max_size=3)): a[k] = draw(coef(p))
        a[-1] = draw(st.sampled_from([1, 1, p - 1, 0, 2]))
        return a
    n = draw(st.sampled_from([20, 40, 70, 100, 150]))
    a, b = some(draw(st.integers(1, n))), some(draw(st.integers(1, n)))
    f = some(draw(st.one_of(st.integers(1, 2 * n), st.integers(1, 8), st.just(len(a) + len(b)), st.integers(-2, 2).map(lambda d: max(1, (len(a) + len(b)) // 2 + d))))) + [1]
    return [p, f, a, b]


@sub(strategy=sparse, q=400, t=15000, qs=2)
def sparse_polynomials(s, c):
    p, f, a, b = c
    check(s, 'polynomial_multiply_mod', [a, b, f, p], mul([x % p for x in a], [x % p for x in b], f, p), f, p)
    ab = raw(a, b)
    check(s, 'polynomial_reduce_mod', [ab, f, p], red(ab, f, p), f, p, ab)
    return ['trivial'] if len(a) + len(b) - 1 < len(f) else ['modulus of %s terms' % ('few' if len(f) < 10 else 'many')]
