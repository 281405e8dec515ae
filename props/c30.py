from hypothesis import strategies as st

import gen
import hist
import raes
from rsm4 import sm4
from core import sub, same, need, rejected
from sut import Exc

MODS = ['analysis.walshtransform', 'analysis.sbox_nonlinearity']
RULE = ('one sequence (or S-box) through both modules compared with a fast Walsh-Hadamard transform, and for short sequences with the '
        'distance to every affine function; trivial: constant sequence')


def fwht(t):
    a = [1 - 2 * x for x in t]
    h = 1
    while h < len(a):
        for i in range(0, len(a), 2 * h):
            for j in range(i, i + h): a[j], a[j + h] = a[j] + a[j + h], a[j] - a[j + h]
        h *= 2
    return a


def ref_nl(t):
    """distance to the nearest affine function"""
    n = len(t)
    if n > 64: return (n - max(abs(v) for v in fwht(t))) // 2
    best = n
    for w in range(n):
        d = sum(t[x] ^ (bin(w & x).count('1') & 1) for x in range(n))
        best = min(best, d, n - d)
    return best


def num(x, want, what):
    """a number equal to want (the library uses floats for nonlinearity)"""
    need(not isinstance(x, Exc) and isinstance(x, (int, float)) and x == want, lambda: '%s: got %s, expected %s' % (what, x, want))


def check(s, t):
    w = fwht(t); n = ref_nl(t)
    for m in MODS:
        if not s.has(m, 'walshTransform'): continue
        same(s.f(m, 'walshTransform', t), w, '%s.walshTransform of %d values' % (m, len(t)))
        num(s.f(m, 'nonLinearity', t), n, '%s.nonLinearity of %s' % (m, t if len(t) < 40 else len(t)))
    return ['trivial'] if len(set(t)) == 1 else ['n=%d' % len(t)]


@st.composite
def seqs(draw):
    k = draw(st.sampled_from([0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7]))
    n = 1 << k
    kind = draw(st.sampled_from(['random', 'affine', 'near affine', 'bent', 'sparse', 'dense', 'quadratic']))
    v = draw(gen.rnd(n)) if n > 1 else draw(st.integers(0, 1))
    if kind == 'random': return [v >> i & 1 for i in range(n)]
    if kind in ('affine', 'near affine'):
        w, c = draw(st.integers(0, n - 1)), draw(st.integers(0, 1))
        t = [(bin(w & x).count('1') + c) & 1 for x in range(n)]
        if kind == 'near affine':
            for i in draw(st.lists(st.integers(0, n - 1), max_size=3)): t[i] ^= 1
        return t
    if kind == 'bent':
        h = k // 2
        return [bin((x & ((1 << h) - 1)) & (x >> h)).count('1') & 1 for x in range(n)]
    if kind == 'quadratic':
        return [sum((v >> (i * k + j) & 1) & (x >> i) & (x >> j) for i in range(k) for j in range(i)) & 1 for x in range(n)]
    t = [0] * n
    for i in draw(st.lists(st.integers(0, n - 1), max_size=3)): t[i] = 1
    return t if kind == 'sparse' else [1 - x for x in t]


@sub(strategy=lambda: st.lists(st.tuples(*[st.one_of(st.integers(0, 300), st.sampled_from([8, 16, 31, 32, 33, 63, 64, 65, 128, 200]).flatmap(gen.bits),
                                                      st.integers(0, 130).map(lambda k: 1 << k), st.integers(0, 130).map(lambda k: (1 << k) - 1)) for _ in '12']), min_size=1, max_size=12), q=300, t=8000)
def inner_products(s, l):
    for m in MODS:
        if not s.has(m, 'binaryInnerProduct'): continue
        r = s.many([[m, 'binaryInnerProduct', [a, b]] for a, b in l])
        for (a, b), x in zip(l, r): num(x, bin(a & b).count('1') & 1, '%s.binaryInnerProduct(%d, %d)' % (m, a, b))
    return ['trivial'] if all(a & b == 0 for a, b in l) else ['above 32 bits' if any(a & b > 1 << 32 for a, b in l) else 'below']


@sub(strategy=seqs, q=800, t=20000, qs=3)
def sequences(s, t):
    return check(s, t)


def small(tier):
    for k in range(0, 4):
        n = 1 << k
        for v in range(1 << n): yield [v >> i & 1 for i in range(n)]
    for v in range(0, 65536, 131 if tier == 'quick' else 3): yield [v >> i & 1 for i in range(16)]
    for j in range(2 if tier == 'quick' else 20):
        v = gen.detint(256, 'seq', j)
        yield [v >> i & 1 for i in range(256)]
        v = gen.detint(512, 'seq', j)
        if tier == 'thorough': yield [v >> i & 1 for i in range(512)]


@sub(cases=small, qs=2)
def all_short_sequences(s, t):
    return check(s, t)


@sub(cases=lambda tier: [n for n in range(0, 70) if n & (n - 1) or n == 0] + [100, 127, 129, 192, 255, 257])
def other_lengths(s, n):
    t = [(i * i >> 1) & 1 for i in range(n)]
    for m in MODS:
        if not s.has(m, 'walshTransform'): continue
        rejected(s.f(m, 'walshTransform', t), '%s.walshTransform of %d values' % (m, n))
        rejected(s.f(m, 'nonLinearity', t), '%s.nonLinearity of %d values' % (m, n))
    rejected(s.f('analysis.sbox_nonlinearity', 'sboxNonlinearity', list(range(n))), 'sboxNonlinearity of %d values' % n)


def ref_sbox(sb):
    v = [ref_nl([bin(c & x).count('1') & 1 for x in sb]) for c in range(1, len(sb))]
    return [min(v), max(v)]


def check_sbox(s, sb):
    x = s.f('analysis.sbox_nonlinearity', 'sboxNonlinearity', sb)
    need(isinstance(x, list) and len(x) == 2, lambda: 'sboxNonlinearity: %r' % (x,))
    a, b = ref_sbox(sb)
    num(x[0], a, 'minimum nonlinearity of %s' % (sb if len(sb) < 33 else len(sb)))
    num(x[1], b, 'maximum nonlinearity of %s' % (sb if len(sb) < 33 else len(sb)))


@st.composite
def sboxes(draw):
    k = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5]))
    n = 1 << k
    kind = draw(st.sampled_from(['perm', 'perm', 'any', 'linear', 'near linear', 'power']))
    seed = draw(st.integers(0, 1 << 24))
    if kind == 'perm': return sorted(range(n), key=lambda i: gen.det(8, seed, i))
    if kind == 'any': return [gen.detint(k, seed, i) for i in range(n)]
    if kind == 'power': e = seed % 9; return [pow(i, e) % n for i in range(n)]
    rows = [gen.detint(k, seed, 'r', i) for i in range(k)]
    sb = [0] * n
    for x in range(n):
        for i in range(k):
            if x >> i & 1: sb[x] ^= rows[i]
    if kind == 'near linear': sb[seed % n] ^= 1 + seed % (n - 1) if n > 1 else 0
    return sb


@sub(strategy=sboxes, q=250, t=5000, qs=2)
def sbox_nonlinearity(s, sb):
    check_sbox(s, sb)
    return ['n=%d' % len(sb)] + (['constant'] if len(set(sb)) == 1 else [])


def named(tier):
    present = [12, 5, 6, 11, 9, 0, 10, 13, 3, 14, 15, 8, 4, 7, 1, 2]
    yield present
    for i in range(20): yield sorted(range(64 if i < 2 else 16), key=lambda x: gen.det(8, 'nb', i, x))
    if tier == 'thorough':
        yield list(raes.SBOX)
        yield sm4()


@sub(cases=named)
def larger_sboxes(s, sb):
    check_sbox(s, sb)


@st.composite
def recurring(draw):
    """short sequences and S-boxes asked for again and again, in turns"""
    v = [[draw(st.integers(0, 1)) for _ in range(1 << draw(st.integers(0, 4)))] for _ in range(draw(st.integers(1, 3)))]
    v.append([1 - x for x in v[0]])
    v.append(v[0] + v[0])
    k = draw(st.integers(1, 3))
    boxes = [[draw(st.integers(0, (1 << k) - 1)) for _ in range(1 << k)] for _ in range(2)]
    return [[draw(st.integers(0, 1)), f, draw(st.sampled_from(boxes if f == 'sboxNonlinearity' else v))]
            for f in draw(st.lists(st.sampled_from(['walshTransform', 'nonLinearity', 'sboxNonlinearity', 'walshTransform']), min_size=3, max_size=12))]


@sub(strategy=recurring, q=300, t=8000)
def recurring_arguments(s, calls):
    has = [s.has(m, 'walshTransform') for m in MODS]
    l = []
    for m, f, t in calls:
        m = MODS[1] if f == 'sboxNonlinearity' or not has[m] else MODS[m]
        if not has[1] and f != 'sboxNonlinearity': continue
        w = fwht(t) if f == 'walshTransform' else ref_nl(t) if f == 'nonLinearity' else None
        if f == 'sboxNonlinearity': a, b = ref_sbox(t); w = (lambda a, b: lambda x: isinstance(x, list) and not [y for y in x if isinstance(y, Exc)] and x == [a, b])(a, b)
        l.append([m, f, [t], w])
    hist.run(s, l)


@sub(cases=lambda tier: [[n, j] for n in ((512, 512, 1024) if tier == 'quick' else (512, 1024, 2048)) for j in range(2)], qs=4)
def long_sequences(s, c):
    n, j = c
    v = gen.detint(n, 'long', j)
    w = gen.detint(10, 'w', j) % n
    return check(s, [v >> i & 1 for i in range(n)] if j == 0 else [(bin(w & x).count('1') & 1) ^ (x in (n - 1, n // 2)) for x in range(n)])
