from hypothesis import strategies as st

import ecx
import gen
import hist
import rec
import rprime
from core import sub, need, same, rejected, show
from sut import Exc

MOD = 'ecc.numbertheory'
RULE = ('one (a, n) or (a, p) compared with the symbol, or a square root squared; tables cover all a for one modulus; '
        'trivial: a in {0, 1}')


def symbol(a, n):
    """Jacobi symbol from its definition for small n: the product of Legendre symbols by Euler's criterion"""
    r = 1
    for p in rprime.SMALL:
        while n % p == 0:
            n //= p
            r *= legendre(a, p)
    return r if n == 1 else r * legendre(a, n)


def legendre(a, p):
    x = pow(a % p, (p - 1) // 2, p)
    return -1 if x == p - 1 else x


def check_root(s, p, values):
    lab = set()
    r = s.call('sqrts', 'square_root_mod_prime', p, values)
    need(not isinstance(r, Exc), lambda: 'square_root_mod_prime modulo %d: %s' % (p, r))
    for a, x in zip(values, r):
        if p == 2 or legendre(a, p) >= 0:
            need(type(x) is int and (x * x - a) % p == 0, lambda: 'square_root_mod_prime(%d, %d): got %s' % (a, p, show(x)))
            lab.add('square' if a > 1 else 'trivial')
        else:
            need(isinstance(x, Exc) and x.startswith('SquareRootError'), lambda: 'square_root_mod_prime(%d, %d): got %s, expected SquareRootError' % (a, p, show(x)))
            lab.add('non-square')
    if p == 2: return sorted(lab)
    r = s.call('sqrts', 'modular_sqrt', p, values)
    need(not isinstance(r, Exc), lambda: 'modular_sqrt modulo %d: %s' % (p, r))
    for a, x in zip(values, r):
        if legendre(a, p) == 1: need(type(x) is int and (x * x - a) % p == 0, lambda: 'modular_sqrt(%d, %d): got %s' % (a, p, show(x)))
        else: need(type(x) is int and x == 0, lambda: 'modular_sqrt(%d, %d): got %s, expected 0' % (a, p, show(x)))
    r = s.call('sqrts', 'legendre_symbol', p, values)
    need(not isinstance(r, Exc), lambda: 'legendre_symbol modulo %d: %s' % (p, r))
    for a, x in zip(values, r):
        need(type(x) is int and x == legendre(a, p), lambda: 'legendre_symbol(%d, %d): got %s, expected %d' % (a, p, show(x), legendre(a, p)))
    return sorted(lab) if lab == {'trivial'} else sorted(lab - {'trivial'})


@sub(cases=lambda tier: [p for p in range(2, 400 if tier == 'quick' else 2600) if rprime.is_prime(p)] + [641, 769, 1153, 7681, 12289] * (tier == 'quick') + [40961, 65537][:2 if tier != 'quick' else 0], qs=3)
def every_residue_of_small_primes(s, p):
    return check_root(s, p, list(range(p)))


@sub(cases=lambda tier: range(3, 150 if tier == 'quick' else 700, 2), qs=2)
def every_jacobi_symbol_of_small_moduli(s, n):
    xs = list(range(-n - 1, 2 * n + 2))
    r = s.call('map2', MOD, 'jacobi', xs, [n])
    need(not isinstance(r, Exc), lambda: 'jacobi: %s' % r)
    for a, x in zip(xs, r):
        need(type(x) is int and x == symbol(a, n), lambda: 'jacobi(%d, %d): got %s, expected %d' % (a, n, show(x), symbol(a, n)))
    if rprime.is_prime(n):
        r = s.call('map2', MOD, 'legendre_symbol', xs, [n])
        for a, x in zip(xs, r):
            need(type(x) is int and x == symbol(a, n), lambda: 'legendre_symbol(%d, %d): got %s, expected %d' % (a, n, show(x), symbol(a, n)))


def big_prime():
    bits = st.sampled_from([12, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 128, 160, 192, 224, 256])
    return st.one_of(
        st.builds(lambda b, s, r: rprime.prime(b, s, r, 8), bits, st.integers(0, 60), st.sampled_from([1, 1, 3, 5, 7])),
        st.builds(lambda b, k, s: rprime.two_adic_prime(b, 1 + k % (b - 4), s), bits, st.integers(0, 250), st.integers(0, 30)),
        st.builds(rprime.all_small_squares, st.integers(2, 150), st.integers(0, 5), st.sampled_from([4, 8, 8, 16, 64])),
        st.sampled_from([p for p in rprime.STANDARD + rprime.MERSENNE if rprime.is_prime(p) and p > 3 and p.bit_length() < 400]))


def value(p):
    """squares of everything, small numbers, arbitrary residues, elements of 2-power order and their squares"""
    def root_of_unity(i, j):
        t = (p - 1) & -(p - 1)
        g = 2
        while legendre(g, p) != -1: g += 1
        z = pow(g, (p - 1) // t, p)
        return pow(z, j, p) if i else pow(z, (1 << (j % t.bit_length())), p)
    return st.one_of(gen.below(p), gen.below(p).map(lambda v: v * v % p), st.integers(0, min(p - 1, 40)), st.integers(1, min(p - 1, 9)).map(lambda d: p - d),
                     st.builds(root_of_unity, st.booleans(), st.integers(0, 1 << 12)),
                     st.builds(lambda v, i, j: v * v % p * root_of_unity(i, j) % p, gen.below(p), st.booleans(), st.integers(0, 1 << 12)))


@st.composite
def roots(draw):
    p = draw(big_prime())
    return [p, draw(st.lists(value(p), min_size=1, max_size=2 if p.bit_length() > 130 else 4))]


@sub(strategy=roots, q=700, t=25000, qs=4)
def square_roots_modulo_large_primes(s, c):
    return [x if x == 'trivial' else x + ', p%%8=%d' % (c[0] % 8) for x in check_root(s, *c)]


@sub(cases=lambda tier: [[q, k] for q in [5, 7, 11, 13, 17, 23, 29, 37, 53, 71, 101, 137, 200, 257, 400] + [601, 997] * (tier == 'thorough') for k in (4, 8, 32)], qs=3)
def no_small_non_residue(s, c):
    p = rprime.all_small_squares(c[0], 1, c[1])
    return check_root(s, p, [1, 4, 9, 16, 2, 3, p - 1, rec.h('ns', c) ** 2 % p, rec.h('nt', c) % p])


@sub(cases=lambda tier: [[p, i] for p in rprime.STANDARD if rprime.is_prime(p) for i in range(2 if tier == 'quick' else 20)] +
     [[(1 << 521) - 1, 0], [rprime.prime(384, 1, 5, 8), 0], [rprime.prime(300, 1, 1, 8), 0], [rprime.prime(512, 2, 3, 8), 1]], qs=3)
def square_roots_modulo_curve_primes(s, c):
    p, i = c
    v = rec.h('sq', c)
    return check_root(s, p, [v % p, v * v % p, i + 2] if i else [p - 1, v * v % p])


@st.composite
def symbols(draw):
    k = draw(st.sampled_from(['any', 'square', 'product', 'prime', 'shared', 'liar']))
    b = draw(st.sampled_from([8, 16, 31, 32, 33, 63, 64, 65, 128, 256, 521, 1000]))
    n = draw(gen.bits(b)) | 1
    if n < 3: n = 3
    if k == 'square': n *= n
    if k == 'prime': n = rprime.prime(min(b, 256), draw(st.integers(0, 50)))
    if k == 'product': n *= draw(gen.bits(64)) | 1
    a = draw(st.one_of(gen.below(n), gen.below(n), gen.bits(1100), gen.bits(300).map(lambda v: -v), st.integers(-50, 50)))
    if k == 'shared': f = draw(st.integers(1, 200)) * 2 + 1; n *= f; a *= f
    a <<= draw(st.sampled_from([0, 0, 0, 1, 2, 3, 7, 64]))
    return [a, n]


@st.composite
def huge(draw):
    b = draw(st.sampled_from([1100, 2000, 2800, 3000, 3500, 4096, 5000, 6000]))
    n = rec.long_int(b, draw(st.integers(0, 9999))) | 1
    k = draw(st.integers(0, 4))
    a = rec.long_int(draw(st.sampled_from([b - 1, b, b + 700, 64, 1500])), draw(st.integers(0, 9999)))
    if k == 0: a *= draw(st.integers(1, 99)) * 2 + 1; n *= 3
    if k == 1: a = -a
    if k == 2:                      # many steps: neighbours in a Fibonacci-like sequence
        x, y = 1, draw(st.integers(1, 9)) * 2
        while y.bit_length() < b: x, y = y, x + 2 * y
        a, n = (x, y) if y & 1 else (y, x)
    return [a, n]


@sub(strategy=lambda: st.tuples(huge()).map(list), q=60, t=3000)
def symbols_of_huge_numbers(s, l):
    return check_symbols(s, l)


@sub(strategy=lambda: st.lists(symbols(), min_size=1, max_size=6), q=1200, t=50000, qs=2)
def jacobi_symbols(s, l):
    return check_symbols(s, l)


def check_symbols(s, l):
    r = s.many([[MOD, 'jacobi', c] for c in l])
    for (a, n), x in zip(l, r):
        need(type(x) is int and x == rprime.jacobi(a, n), lambda: 'jacobi(%d, %d): got %s, expected %d' % (a, n, show(x), rprime.jacobi(a, n)))
    ps = [c for c in l if rprime.is_prime(c[1])]
    r = s.many([[MOD, 'legendre_symbol', c] for c in ps])
    for (a, n), x in zip(ps, r):
        need(type(x) is int and x == rprime.jacobi(a, n), lambda: 'legendre_symbol(%d, %d): got %s, expected %d' % (a, n, show(x), rprime.jacobi(a, n)))
    return ['trivial'] if all(0 <= a < 2 for a, n in l) else ['symbol=%d' % rprime.jacobi(*l[0])]


@st.composite
def recurring(draw):
    b = draw(st.sampled_from([8, 16, 24, 32, 33, 64, 65, 128]))
    ps = draw(st.lists(st.one_of(st.builds(lambda s, r: rprime.prime(b, s, r, 8), st.integers(0, 60), st.sampled_from([1, 1, 3, 5, 7])), st.sampled_from([3, 5, 7, 11, 13, 17, 41, 97, 65537])),
                       min_size=1, max_size=3))
    v = draw(hist.pool(st.one_of(gen.bits(b), st.integers(0, 20), gen.below(ps[0]).map(lambda x: x * x % ps[0]))))
    return [[draw(st.sampled_from(['square_root_mod_prime', 'square_root_mod_prime', 'modular_sqrt', 'legendre_symbol', 'jacobi'])), draw(st.sampled_from(v)), draw(st.sampled_from(ps))]
            for _ in range(draw(st.integers(3, 14)))]


@sub(strategy=recurring, q=400, t=20000, qs=2)
def recurring_arguments(s, calls):
    def go(f, a, p):
        if f == 'jacobi': return [MOD, f, [a, p | 1], rprime.jacobi(a, p | 1)]
        if f == 'legendre_symbol': return [MOD, f, [a, p], legendre(a, p)]
        a %= p
        if f == 'modular_sqrt': w = (lambda x: type(x) is int and (x * x - a) % p == 0) if legendre(a, p) == 1 else 0
        else: w = (lambda x: type(x) is int and (x * x - a) % p == 0) if legendre(a, p) >= 0 else (lambda x: isinstance(x, Exc) and x.startswith('SquareRootError'))
        return [MOD, f, [a, p], w]
    hist.run(s, [go(*c) for c in calls])


@st.composite
def outside(draw):
    """calls outside the domain: an even or small modulus, a value that is no residue"""
    if draw(st.booleans()):
        n = draw(st.one_of(gen.bits(130).map(lambda v: 2 * v), st.integers(-9, 2), gen.bits(70).map(lambda v: -v)))
        return ['jacobi', draw(st.one_of(st.integers(-30, 30), gen.bits(100), st.just(n))), n]
    p = draw(st.one_of(st.sampled_from([2, 3, 5, 7, 11, 13, 17, 41, 97, 65537]), st.builds(rprime.prime, st.sampled_from([16, 33, 64, 128]), st.integers(0, 60))))
    a = draw(st.one_of(st.integers(0, 3).map(lambda d: p + d), gen.bits(100).map(lambda v: p + v), st.integers(-40, -1), gen.bits(100).map(lambda v: -1 - v),
                       gen.below(p).map(lambda v: v * v % p + p), gen.below(p).map(lambda v: v * v % p - p)))
    return ['square_root_mod_prime', a, p]


@sub(strategy=outside, q=500, t=15000)
def outside_the_domain(s, c):
    f, a, n = c
    rejected(s.f(MOD, f, a, n), '%s(%d, %d)' % (f, a, n))
    return [f]
