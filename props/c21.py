from math import gcd

from hypothesis import strategies as st

import gen
import rprime
from core import sub, need, rejected, show
from sut import Exc

RULE = ('one expression program over one field, every step compared; or a table of one operator over all pairs of a small field; '
        'trivial: a field of two elements')
BITS = [3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, 128, 255, 256, 384, 521]


@sub(cases=lambda tier: [[p, op, form] for p in ([2, 3, 5, 7, 11, 13] if tier == 'quick' else [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31])
                         for op in ('add', 'sub', 'mul', 'div', 'xor', 'pow', 'eq') for form in ('ee', 'ei', 'ie')], qs=2)
def every_pair_of_small_fields(s, c):
    p, op, form = c
    xs = list(range(p)) if form[0] == 'e' else list(range(-p - 1, 2 * p + 2))
    ys = list(range(p)) if form[1] == 'e' else list(range(-p - 1, 2 * p + 2))
    steps, want = [], []
    for x in xs:
        for y in ys:
            i = len(steps)
            steps += [['el' if form[0] == 'e' else 'int', x], ['el' if form[1] == 'e' else 'int', y], [op, [i], [i + 1]]]
            want.append((x, y, value(p, op, form, x, y)))
    r = s.call('gf', p, steps)
    need(not isinstance(r, Exc), lambda: 'GF(%d): %s' % (p, r))
    for k, (x, y, w) in enumerate(want):
        judge(p, op, form, x, y, r[3 * k + 2], w)
    return ['trivial'] if p == 2 else [op + ' ' + form]


SKIP = object()


def value(p, op, form, x, y):
    """int: a field element | 'error' | ['eq', b] | SKIP"""
    if op == 'eq':
        # comparisons with integers outside 0..p-1 are not specified
        if (form[0] == 'i' and not 0 <= x < p) or (form[1] == 'i' and not 0 <= y < p): return SKIP
        return ['eq', x % p == y % p]
    if op in ('xor', 'pow'):
        # exponents are integers: an element stands for its value
        if y < 0: return pow(x, y, p) if x % p else 'error'
        return pow(x, y % p if form[1] == 'e' else y, p)
    if op == 'add': return (x + y) % p
    if op == 'sub': return (x - y) % p
    if op == 'mul': return x * y % p
    if y % p == 0: return 'error'
    return x * pow(y, -1, p) % p


def judge(p, op, form, x, y, got, w):
    desc = lambda: 'GF(%d): %s %s %s (%s): got %s, expected %s' % (p, x, op, y, form, show(got), show(w))
    if w is SKIP: return
    if w == 'error': need(isinstance(got, Exc), desc)
    elif isinstance(w, list): need(not isinstance(got, Exc) and got == [w[1], not w[1]], desc)
    else: need(isinstance(got, list) and got == [True, w, w], desc)


@st.composite
def programs(draw):
    p = draw(st.one_of(st.sampled_from([2, 3, 5, 7, 11, 13, 251, 257]), st.builds(rprime.prime, st.sampled_from(BITS), st.integers(0, 60)),
                       st.sampled_from([q for q in rprime.STANDARD if rprime.is_prime(q)])))
    ints = st.one_of(gen.below(p), st.integers(-20, 20), gen.bits(600), gen.bits(300).map(lambda v: -v), st.integers(-3, 3).map(lambda d: p + d), st.just(0), st.just(p), st.just(-p))
    steps = []
    els = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append(['el', draw(ints)]); els.append(len(steps) - 1)
    for _ in range(draw(st.integers(1, 9))):
        op = draw(st.sampled_from(['add', 'sub', 'mul', 'div', 'xor', 'pow', 'neg', 'inv', 'eq', 'toint', 'str', 'isel', 'add', 'sub', 'mul', 'div']))
        a = draw(st.sampled_from(els))
        if op in ('neg', 'toint', 'str'): steps.append([op, [a]])
        elif op == 'inv': steps.append(['inv', draw(ints)])
        elif op == 'isel': steps.append(['isel', draw(ints)])
        else:
            form = draw(st.sampled_from(['ee', 'ei', 'ie']))
            x = [draw(st.sampled_from(els))] if form[0] == 'e' else draw(ints)
            if op in ('xor', 'pow'):
                # the exponent is kept within what a program can ask for
                y = [draw(st.sampled_from(els))] if form[1] == 'e' else draw(st.one_of(st.integers(-5, 20), gen.bits(260), gen.bits(260).map(lambda v: -v)))
            else: y = [draw(st.sampled_from(els))] if form[1] == 'e' else draw(ints)
            steps.append([op, x, y])
        if op in ('add', 'sub', 'mul', 'div', 'xor', 'pow', 'neg'): els.append(len(steps) - 1)
    return [p, steps]


@sub(strategy=programs, q=1500, t=60000, qs=3)
def programs_over_any_field(s, c):
    p, steps = c
    val, lab = [], set()
    send = []
    for st_ in steps:
        op = st_[0]
        a = [val[x[0]] if isinstance(x, list) else x for x in st_[1:]]
        form = ''.join('e' if isinstance(x, list) else 'i' for x in st_[1:])
        if 'error' in a: v = 'error'
        elif op == 'el': v = a[0] % p
        elif op == 'neg': v = -a[0] % p
        elif op == 'inv': v = ['int', pow(a[0], -1, p)] if a[0] % p else 'error'
        elif op == 'toint': v = ['int', a[0]]
        elif op == 'str': v = ['str', str(a[0])]
        elif op == 'isel': v = ['bool', 0 <= a[0] < p]
        else: v = value(p, op, form, *a)
        val.append(v)
    r = s.call('gf', p, steps)
    need(not isinstance(r, Exc), lambda: 'GF(%d): %s' % (p, r))
    for i, (st_, w, got) in enumerate(zip(steps, val, r)):
        desc = lambda: 'GF(%d): step %d of %s: got %s, expected %s' % (p, i, show(steps, 900), show(got), show(w))
        if w is SKIP: continue
        if w == 'error': need(isinstance(got, Exc), desc); lab.add('error')
        elif isinstance(w, int): need(got == [True, w, w], desc); lab.add(st_[0])
        elif w[0] == 'eq': need(got == [w[1], not w[1]], desc); lab.add('eq')
        elif w[0] == 'str': need(got == [False, w[1].encode()], desc)
        else: need(isinstance(got, list) and got[0] is False and got[1] == w[1], desc); lab.add(st_[0])
    return ['trivial'] if p == 2 else sorted(lab - {'el'}) or ['el']


@sub(cases=lambda tier: [[e, i] for e in (607, 1279, 2203, 2281, 3217) + (() if tier == 'quick' else (4253, 4423)) for i in range(3 if tier == 'quick' else 12)])
def very_large_fields(s, c):
    """fields of 2^e - 1 elements"""
    p = (1 << c[0]) - 1
    a, b = (rprime.digest_int(c[0] + 20, j, *c) for j in (1, 2))
    return programs_over_any_field(s, [p, [['el', a], ['el', b], ['inv', a], ['div', [0], [1]], ['div', a, [1]], ['div', [0], b], ['xor', [0], -3],
                                           ['pow', [1], 65537], ['mul', [3], [1]], ['eq', [8], [0]], ['div', [0], 0], ['inv', p], ['neg', [3]], ['xor', 3, [0]]]])


@sub(cases=lambda tier: [2, 3, 5, 7, 31, 65537, (1 << 61) - 1, (1 << 255) - 19])
def membership_and_reduction(s, p):
    xs = sorted({0, 1, 2, p // 2, p - 2, p - 1, p, p + 1, 2 * p, 2 * p - 1, -1, -p, -p - 1, p * p, 10 * p + 3, -5 * p + 2})
    r = s.call('gf', p, [['isel', x] for x in xs] + [['el', x] for x in xs])
    need(not isinstance(r, Exc), lambda: str(r))
    for i, x in enumerate(xs):
        need(isinstance(r[i], list) and r[i][1] == (0 <= x < p), lambda: 'GF(%d).is_element(%d): %s' % (p, x, show(r[i])))
        need(r[len(xs) + i] == [True, x % p, x % p], lambda: 'GF(%d)(%d): %s' % (p, x, show(r[len(xs) + i])))


@st.composite
def near_equal(draw):
    """elements and integers that differ in a few bits, or in one half"""
    p = draw(st.one_of(st.sampled_from([q for q in rprime.STANDARD if rprime.is_prime(q)]), st.builds(rprime.prime, st.sampled_from(BITS), st.integers(0, 60)),
                       st.sampled_from([(1 << 521) - 1, (1 << 607) - 1, (1 << 1279) - 1])))
    n = p.bit_length()
    x = draw(gen.below(p))
    steps = [['el', x]]
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, n - 1))
        d = draw(st.sampled_from([1 << k, 1 << k, (1 << n) - (1 << k), (1 << k) - 1, gen.detint(n, k) >> k << k, gen.detint(n, k) >> k, 1 << 32, 1 << 64, 1 << 128, 0]))
        y = draw(st.sampled_from([x ^ d, x ^ d, x + d, x - d, x + p, d - x, p - x])) % p
        steps += [['el', y], ['eq', [0], [len(steps)]], ['eq', [0], y], ['eq', y, [0]], ['sub', [0], [len(steps)]], ['eq', [len(steps) + 4], 0]]
    return [p, steps]


@sub(strategy=near_equal, q=400, t=15000)
def comparisons_of_near_equals(s, c):
    return programs_over_any_field(s, c)


@st.composite
def with_result(draw):
    """operands solved for from a result that a reduction has to treat with care"""
    p = draw(st.one_of(st.sampled_from([q for q in rprime.STANDARD if rprime.is_prime(q)]), st.builds(rprime.prime, st.sampled_from(BITS), st.integers(0, 60))))
    v = draw(st.one_of(st.integers(0, 40), st.integers(-40, -1), st.tuples(st.integers(0, 600), st.integers(-40, 40)).map(lambda t: (1 << t[0]) % p + t[1]))) % p
    a = draw(gen.below(p)) % p or 1
    e = draw(st.one_of(st.integers(2, 20), gen.bits(p.bit_length())))
    while gcd(e, p - 1) != 1: e += 1
    steps = [['el', a]]

    def op(name, x, y):
        f = draw(st.sampled_from(['ee', 'ee', 'ei', 'ie']))
        l = []
        for k, z in zip(f, (x, y)):
            if k == 'e':
                steps.append(['el', z]); l.append([len(steps) - 1])
            else: l.append(z)
        steps.append([name] + l)
    i = pow(a, -1, p)
    op('add', a, (v - a) % p); op('sub', a, (a - v) % p); op('mul', a, v * i % p)
    op('div', v * a % p, a)
    if v: op('div', a, a * pow(v, -1, p) % p); steps.append(['inv', pow(v, -1, p)])
    steps += [['el', -v % p], ['neg', [len(steps)]], ['el', v + p * draw(st.integers(-3, 3)) * draw(gen.bits(300))]]
    r = pow(v, pow(e, -1, p - 1), p) if p > 3 else v
    for name in ('xor', 'pow'):
        steps += [['el', r], [name, [len(steps)], e]]
        if r: steps += [['el', pow(r, -1, p)], [name, [len(steps)], -e]]
    return [p, steps]


@sub(strategy=with_result, q=700, t=25000, qs=2)
def particular_results(s, c):
    return programs_over_any_field(s, c)
