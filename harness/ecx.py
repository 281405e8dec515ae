"""Shared by the elliptic-curve checks: curves by short description, points by description, operation programs."""
import functools
import json
import os

from hypothesis import strategies as st

import rec
import rprime
from core import Violation, need, show
from sut import Exc, REPO

with open(os.path.join(os.path.dirname(__file__), '..', 'ref', 'curves.json')) as _f: GOLD = json.load(_f)
NAMES = {k: [c['cls'] for c in GOLD if c['kind'] in k] for k in ('WK', 'ET', 'M', 'WKETM')}
BITS = [8, 10, 13, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 160, 192, 224, 255, 256, 257, 320, 384, 512, 521]
SMALLBITS = [b for b in BITS if b <= 65]

_live = {}


def live(s, name):
    """the library's parameters of a published curve (judged by C13; here they only define which curve it is)"""
    if name not in _live:
        r = s.call('curve_params', name)
        if isinstance(r, dict) and isinstance(r.get('__kind__'), bytes): r['__kind__'] = r['__kind__'].decode()
        _live[name] = r
    return _live[name]


@functools.lru_cache(4096)
def any_curve(kind, bits, seed):
    """random coefficients, order unknown"""
    p = rprime.prime(bits, seed % 64, *[(None, 4), (1, 8), (3, 8), (5, 8), (7, 8), (1, 3), (2, 3), (None, 4)][seed % 8])
    i = 0
    while True:
        a, b = rec.h('any', kind, bits, seed, i) % p, rec.h('anyb', kind, bits, seed, i) % p
        v = rec.h('anyv', kind, bits, seed, i) % 8
        i += 1
        if v == 0: a = p - 3 if kind in 'WM' else p - 1
        if v == 1: a = 1
        if v == 2: b = rec.h('c', seed) % 5000 % p
        if v == 3: a = rec.h('c', seed) % 5000 % p
        if kind == 'W':
            g = rec.W(p, a, b)
        elif kind == 'M': g = rec.M(p, a)
        elif kind == 'E': g = rec.T(p, 1, b, 'E')
        else:
            if a == 0: continue
            if rprime.jacobi(a, p) != 1 and v != 0: a = a * a % p
            g = rec.T(p, a, b)
        if g.ok(): return g


class Curve:
    """spec: what the worker needs; g: the reference; n: a multiple of the order of every point, or None"""

    def __init__(self, spec, g, n, label, gen=None):
        self.spec, self.g, self.n, self.label, self.gen = spec, g, n, label, gen


def resolve(s, c, need_n=False):
    """['t', kind, p, i] tiny | ['o', kind, bits, seed] known order | ['x', kind, bits, seed] random coefficients |
    ['p', name] published -> Curve, or None when a published curve cannot be used (C13 reports that)"""
    k = c[0]
    if k == 'p':
        r = live(s, c[1])
        if isinstance(r, Exc) or not isinstance(r, dict) or r.get('__kind__') is None: return None
        try:
            kind, p = r['__kind__'], r['p']
            if not rprime.is_prime(p) or p < 5: return None
            g = rec.of_params(kind, r)
            G = (r['xG'], r['yG'])
            if not g.ok() or not g.on(*G) or not 0 <= G[0] < p or not 0 <= G[1] < p: return None
            n = r['n'] * r['h'] if kind in 'ETM' else r['n']
            if g.mul(r['n'], G) != g.O: return None
        except (KeyError, TypeError, ValueError):
            return None
        return Curve(c[1], g, n, 'published', G)
    if k == 't':
        g = rec.tiny(c[1], c[2])[c[3]]
        n = len(g.pts())
        return Curve(g.spec(n), g, n, 'tiny field')
    if k == 'o':
        kind = c[1]
        g, n, lab = rec.w_curve(c[2], c[3]) if kind == 'W' else rec.m_curve(c[2], c[3]) if kind == 'M' else rec.t_curve(c[2], c[3], kind)
        return Curve(g.spec(n), g, n, lab)
    g = any_curve(c[1], c[2], c[3])
    return Curve(g.spec(), g, None, 'random coefficients')


def point(cv, d):
    """['r', seed] random | ['g'] generator (random where there is none) | ['low', seed, j] of small order |
    ['x', k] first point with x (Edwards: y) at or above k | ['k', seed, m] m times a random one"""
    g = cv.g
    if d[0] == 'g' and cv.gen: return cv.gen
    if d[0] == 'g': return g.rand(0)
    if d[0] == 'r': return g.rand(d[1])
    if d[0] == 'k': return g.mul(d[2], g.rand(d[1]))
    if d[0] == 'x':
        x = d[1] % g.p
        for _ in range(200):
            P = g.lift(x % g.p)
            if P: return P
            x += 1
        return g.rand(d[1])
    if d[0] == 'low':
        if cv.n is None:
            # points of order two are roots: x = 0 on Montgomery curves; none known otherwise
            if g.kind == 'M': return (0, 0)
            if g.kind in 'TE': return [(0, g.p - 1), (0, 1)][d[2] % 2]
            return g.rand(d[1])
        n, r = cv.n, 1
        for q in (2, 2, 2, 3, 5, 7):
            if n % q == 0: n //= q; r *= q
        P = g.mul(n, g.rand(d[1]))
        for _ in range(d[2] % 3):
            if P != g.O and g.add(P, P) != g.O: P = g.add(P, P)
        return P
    raise ValueError(d)


POINT = st.one_of(st.tuples(st.just('r'), st.integers(0, 1 << 20)), st.tuples(st.just('r'), st.integers(0, 1 << 20)), st.just(('g',)),
                  st.tuples(st.just('low'), st.integers(0, 60), st.integers(0, 5)), st.tuples(st.just('x'), st.integers(0, 40)),
                  st.tuples(st.just('x'), st.integers(-30, -1)),
                  st.tuples(st.just('k'), st.integers(0, 3), st.integers(-6, 6)))


def curves(kinds, tiny_ps, order_only=False, bits=BITS, published=True):
    o = st.tuples(st.just('o'), st.sampled_from(kinds), st.sampled_from(bits), st.integers(0, 1 << 10))
    x = st.tuples(st.just('x'), st.sampled_from(kinds), st.sampled_from(bits), st.integers(0, 1 << 10))
    t = st.builds(lambda k, p, i: ('t', k, p, i % len(rec.tiny(k, p))), st.sampled_from(kinds), st.sampled_from(tiny_ps), st.integers(0, 1 << 16))
    names = [n for k in ('WK', 'ET', 'M') if k[0] in kinds or k[1:] and k[1] in kinds for n in NAMES[k]]
    l = [t, o, o] + ([] if order_only else [x, x])
    if published: l.append(st.tuples(st.just('p'), st.sampled_from(names)))
    return st.one_of(*l)


def out(P): return [None, None] if P is None else list(P)


@st.composite
def programs(draw, curve_strategy, maxsteps=10, muls=False, scalar=None):
    """operation sequences; operands are registers, and most steps reuse earlier results"""
    c = draw(curve_strategy)
    steps, regs = [], []
    for _ in range(draw(st.integers(1, 3))):
        steps.append(['pt', list(draw(POINT))]); regs.append(len(steps) - 1)
    if draw(st.booleans()):
        steps.append([draw(st.sampled_from(['id', 'id2']))]); regs.append(len(steps) - 1)
    ops = ['add', 'add', 'add', 'sub', 'neg', 'dbl', 'eq', 'sub'] + (['mul', 'rmul'] if muls else [])
    for _ in range(draw(st.integers(1, maxsteps))):
        k = draw(st.sampled_from(ops))
        a = draw(st.sampled_from(regs)); b = draw(st.sampled_from(regs))
        if k in ('neg', 'dbl'): steps.append([k, [a]])
        elif k in ('mul', 'rmul'): steps.append([k, [a], draw(scalar)])
        else: steps.append([k, [a], [b]])
        if k != 'eq': regs.append(len(steps) - 1)
    return dict(curve=list(c), steps=steps)


def run_program(s, case):
    cv = resolve(s, case['curve'])
    if cv is None: return ['trivial']
    g = cv.g
    send, want, labels = [], [], {cv.label}
    for st_ in case['steps']:
        k = st_[0]
        if k == 'pt':
            P = point(cv, st_[1])
            if P is None: send.append(['id'])
            else: send.append(['pt', P[0], P[1]])
            want.append(P)
        elif k in ('id', 'id2'):
            send.append([k]); want.append(g.O)
        else:
            a = want[st_[1][0]]
            if k == 'neg': v = g.neg(a)
            elif k == 'dbl':
                v = g.add(a, a)
                if a == g.O: labels.add('double identity')
                elif v == g.O: labels.add('double order 2')
            elif k in ('mul', 'rmul'):
                v = g.mul(st_[2], a)
            else:
                b = want[st_[2][0]]
                if k == 'eq': v = ('eq', a == b)
                else:
                    v = g.add(a, b) if k == 'add' else g.sub(a, b)
                    b2 = b if k == 'add' else g.neg(b)
                    if g.O in (a, b): labels.add('identity operand')
                    elif a == b2: labels.add('equal operands')
                    elif v == g.O: labels.add('opposite operands')
                    else: labels.add('general addition')
            send.append(list(st_)); want.append(v)
    for i in range(len(want)):      # operations leave their operands alone
        if want[i] is None or isinstance(want[i][0], int): send.append(['again', [i]]); want.append(want[i])
    r = s.call('ec', cv.spec, send)
    need(not isinstance(r, Exc), lambda: 'curve %s: %s' % (show(cv.spec), r))
    for i, (x, w) in enumerate(zip(r, want)):
        if isinstance(w, tuple) and w and w[0] == 'eq':
            exp = [w[1], not w[1]]
            ok = not isinstance(x, Exc) and x[:2] == exp
            exp = 'equal' if w[1] else 'unequal'
        else:
            exp = out(w)
            ok = not isinstance(x, Exc) and x == exp
        need(ok, lambda: 'curve %s: step %d of %s: got %s, expected %s' % (show(cv.spec, 900), i, show(send[:i + 1], 900), show(x), show(exp)))
    return sorted(labels)


def run_tables(s, case, ops=('add', 'sub', 'eq', 'neg', 'dbl')):
    """every pair of points of one tiny curve"""
    g = rec.tiny(*case[:2])[case[2]]
    pts = g.pts()
    for op in ops:
        r = s.call('ec_table', g.spec(len(pts)), [out(P) for P in pts], op)
        need(not isinstance(r, Exc), lambda: 'curve %s: %s' % (g.spec(), r))
        if op in ('neg', 'dbl'):
            w = [out(g.neg(P) if op == 'neg' else g.add(P, P)) for P in pts]
            arg = [(P,) for P in pts]
        else:
            arg = [(P, Q) for P in pts for Q in pts]
            if op == 'eq': w = [[P == Q, P != Q] for P, Q in arg]
            elif op == 'add': w = [out(g.add(P, Q)) for P, Q in arg]
            else: w = [out(g.sub(P, Q)) for P, Q in arg]
        need(len(r) == len(w), 'table size')
        for a, x, y in zip(arg, r, w):
            need(not isinstance(x, Exc) and x == y, lambda: 'curve %s: %s of %s: got %s, expected %s' % (g.spec(), op, a, show(x), y))
    return ['p=%d' % g.p] if len(pts) > 1 else ['trivial']


def tiny_cases(kind, plan):
    """plan: [(p, keep every k-th curve)]"""
    for p, k in plan:
        for i in range(len(rec.tiny(kind, p))):
            if k == 1 or rec.h('tc', kind, p, i) % k == 0: yield [kind, p, i]


def run_muls(s, case, left_right=True):
    """every point of one tiny curve by a range of scalars"""
    kind, p, i = case[:3]
    g = rec.tiny(kind, p)[i]
    pts = g.pts()
    n = len(pts)
    mult = case[3] if len(case) > 3 else 1
    N = n * mult
    ks = sorted(set(range(-n - 3, 2 * n + 4)) | {3 * n, -3 * n, 5 * n + 1, N, N + 1, N - 1, -N, 2 * N + 1})
    r = s.call('ec_muls', g.spec(N), [out(P) for P in pts], ks)
    need(not isinstance(r, Exc), lambda: 'curve %s: %s' % (g.spec(N), r))
    j = 0
    for P in pts:
        cyc = [g.O]
        Q = P
        while Q != g.O: cyc.append(Q); Q = g.add(Q, P)
        for k in ks:
            w = out(cyc[k % len(cyc)])
            need(not isinstance(r[j], Exc) and r[j] == w, lambda: 'curve %s: %d * %s: got %s, expected %s' % (g.spec(N), k, P, show(r[j]), w))
            j += 1
    return ['p=%d' % p] if n > 1 else ['trivial']


def scalars(n_bits=600):
    """descriptions: ['v', k] | ['n', q, d] = q*n + d | ['h', d] = n//2 + d | ['b', e, d] = 2^e + d | ['f', num, den] = n*num//den |
    ['m', e, q, d] = (2^e + d)//q, e < 0 counted from the length of n"""
    import gen
    return st.one_of(st.tuples(st.just('v'), st.integers(-20, 40)), st.tuples(st.just('v'), gen.bits(n_bits)),
                     st.tuples(st.just('w'), gen.bits(n_bits)), st.tuples(st.just('w'), gen.bits(n_bits)), st.tuples(st.just('w'), gen.bits(64)),
                     st.tuples(st.just('n'), st.integers(-3, 4), st.integers(-4, 4)),
                     st.tuples(st.just('h'), st.integers(-3, 3)), st.tuples(st.just('b'), st.integers(0, n_bits), st.integers(-2, 2)),
                     st.tuples(st.just('f'), st.integers(1, 7), st.sampled_from([3, 5, 7, 8])),
                     st.tuples(st.just('m'), st.one_of(st.integers(0, n_bits), st.integers(-6, -1)), st.sampled_from([3, 3, 3, 5, 7, 15, 17]), st.integers(-4, 4)),
                     st.tuples(st.just('neg'), gen.bits(n_bits)))


def scalar(d, n):
    n = n or (1 << 20)
    if d[0] == 'v': return d[1] if abs(d[1]) < 1 << (2 * n.bit_length()) else d[1] % n
    if d[0] == 'w': return d[1] % n
    if d[0] == 'l':
        k = rec.long_int(d[1], d[2])
        return -k if d[2] & 1 else k
    if d[0] == 'neg': return -(d[1] % n)
    if d[0] == 'n': return d[1] * n + d[2]
    if d[0] == 'h': return n // 2 + d[1]
    if d[0] == 'b': return (1 << (d[1] % (n.bit_length() + 2))) + d[2]
    if d[0] == 'f': return n * d[1] // d[2]
    if d[0] == 'm':
        # a small multiple of k is next to a power of two
        return ((1 << (d[1] % (n.bit_length() + 3) if d[1] >= 0 else max(0, n.bit_length() + d[1] + 3))) + d[3]) // d[2]
    raise ValueError(d)


def klabel(k, n):
    if k == 0: return 'k=0'
    l = 'k<0' if k < 0 else 'k small' if k < 20 else 'k>n' if n and k > n else 'k=n' if k == n else 'k<n'
    return l


def check_muls(s, c):
    cv = resolve(s, c['curve'])
    if cv is None: return ['trivial']
    P = point(cv, c['point'])
    if P is None and cv.label == 'published': return ['trivial']
    n = cv.n * c.get('nmul', 1)
    spec = cv.spec
    if isinstance(spec, list): spec = [spec[0], dict(spec[1], n=n)]
    ks = [scalar(d, cv.n) for d in c['ks']]
    steps = [['pt', *P] if P is not None else ['id']]
    want = []
    for i, k in enumerate(ks):
        steps.append(['mul' if (i + c['side']) & 1 else 'rmul', [0], k])
        want.append(out(cv.g.mul(k, P)))
    r = s.call('ec', spec, steps + [['again', [0]]])
    need(not isinstance(r, Exc), lambda: '%s: %s' % (show(spec), r))
    for x in (r[0], r.pop()): need(x == out(P), lambda: 'curve %s: point %s, multiplied by %s, is now %s' % (show(spec, 900), P, ks, show(x)))
    for st_, k, x, w in zip(steps[1:], ks, r[1:], want):
        need(not isinstance(x, Exc) and x == w, lambda: 'curve %s: %s of %s by %d: got %s, expected %s' % (show(spec, 900), st_[0], P, k, show(x), show(w)))
    return sorted({cv.label} | {klabel(k, n) for k in ks})


def long_scalars():
    """scalars far longer than n"""
    return st.tuples(st.just('l'), st.sampled_from([520, 600, 990, 1000, 1001, 1024, 1100, 1500, 2048, 3000, 4096, 6000]), st.integers(0, 999)).map(list)


def long_cases(kinds, published):
    cs = st.one_of(curves(kinds, [5, 7, 11, 13, 31], order_only=True, bits=[b for b in BITS if b <= 33], published=False).map(list),
                   st.sampled_from(published).map(lambda n: ['p', n])) if published else \
        curves(kinds, [5, 7, 11, 13, 31], order_only=True, bits=[b for b in BITS if b <= 33], published=False).map(list)
    return st.fixed_dictionaries(dict(curve=cs, point=POINT.map(list), ks=st.lists(long_scalars(), min_size=1, max_size=1), side=st.integers(0, 1)))


def mulcase(curve_s, nks=2):
    return st.fixed_dictionaries(dict(curve=curve_s.map(list), point=POINT.map(list), ks=st.lists(scalars().map(list), min_size=1, max_size=nks),
                                      side=st.integers(0, 1), nmul=st.sampled_from([1, 1, 1, 1, 2, 3])))


EDGE = [['v', 0], ['v', 1], ['v', 2], ['v', 3], ['v', 4], ['v', 5], ['v', 6], ['v', 7], ['v', -1], ['v', -2], ['n', 1, 0], ['n', 1, -1], ['n', 1, 1], ['n', 2, 0],
        ['n', -1, 0], ['n', -1, -1], ['n', -1, 1], ['n', 3, 5], ['h', 0], ['h', 1], ['m', -3, 3, -1]]
DEEP = EDGE + [['b', e, d] for e in (7, 8, 31, 32, 63, 64, 100, 127, 128, 159, 160, 191, 192, 223, 224, 255, 256, 319, 383, 511, 520) for d in (-1, 0, 1)] + \
    [['f', a, b] for a in (1, 2, 4) for b in (3, 5, 7)] + [['m', e, q, d] for e in (-1, -2, -3, 64, 100) for q in (3, 5) for d in (-1, 0, 1, 2)] + [['w', rec.h('s', i)] for i in range(12)] + [['neg', rec.h('t', i)] for i in range(6)]


@st.composite
def several(draw, kinds, bits=SMALLBITS, muls=True):
    """steps on several curves at once, some of them over the same field, some twice the same; operands recur"""
    tiny = st.builds(lambda k, p, i: ('t', k, p, i % len(rec.tiny(k, p))), st.sampled_from(kinds), st.sampled_from([11, 13]), st.integers(0, 1 << 16))
    b, sd = draw(st.sampled_from(bits)), draw(st.integers(0, 1 << 10))
    one = st.one_of(tiny, st.tuples(st.just('o'), st.sampled_from(kinds), st.sampled_from(bits), st.integers(0, 1 << 10)),
                    st.builds(lambda k, d: ('x', k, b, sd + 64 * d), st.sampled_from(kinds), st.integers(0, 3)))
    cs = draw(st.lists(one, min_size=2, max_size=3))
    if draw(st.booleans()): cs.append(cs[draw(st.integers(0, len(cs) - 1))])
    pts = [list(draw(POINT)) for _ in range(2)]
    steps = []
    for i in range(len(cs)):
        for P in pts: steps.append([i, 'pt', P])
    ks = [list(draw(scalars(70))) for _ in range(2)]
    for _ in range(draw(st.integers(2, 14))):
        i = draw(st.integers(0, len(cs) - 1))
        regs = [j for j, x in enumerate(steps) if x[0] == i and x[1] != 'eq']
        op = draw(st.sampled_from(['add', 'add', 'sub', 'neg', 'dbl', 'eq', 'id'] + ['mul', 'rmul'] * muls))
        if op == 'id': steps.append([i, 'id'])
        elif op in ('neg', 'dbl'): steps.append([i, op, [draw(st.sampled_from(regs))]])
        elif op in ('mul', 'rmul'): steps.append([i, op, [draw(st.sampled_from(regs))], draw(st.sampled_from(ks))])
        else: steps.append([i, op, [draw(st.sampled_from(regs))], [draw(st.sampled_from(regs))]])
    return dict(curves=[list(c) for c in cs], steps=steps)


def run_several(s, case):
    cvs = [resolve(s, c) for c in case['curves']]
    send, want = [], []
    for x in case['steps']:
        i, k = x[:2]
        cv = cvs[i]
        g = cv.g
        snd = x[1:]
        if k == 'pt':
            v = point(cv, x[2])
            snd = ['pt', *v] if v is not None else ['id']
        elif k == 'id': v = g.O
        else:
            a = want[x[2][0]]
            if k == 'neg': v = g.neg(a)
            elif k == 'dbl': v = g.add(a, a)
            elif k in ('mul', 'rmul'):
                # without a known order only k below the order of every point but the smallest may be asked for
                n = scalar(x[3], cv.n)
                if cv.n is None: n = None
                snd = [k, x[2], n] if n is not None else ['again', x[2]]
                v = g.mul(n, a) if n is not None else a
            else:
                b = want[x[3][0]]
                v = ('eq', a == b) if k == 'eq' else g.add(a, b) if k == 'add' else g.sub(a, b)
        send.append(['on', i] + list(snd)); want.append(v)
    for i in range(len(want)):
        if want[i] is None or isinstance(want[i][0], int): send.append(['again', [i]]); want.append(want[i])
    specs = [cv.spec for cv in cvs]
    r = s.call('ecm', specs, send)
    need(not isinstance(r, Exc), lambda: 'curves %s: %s' % (show(specs), r))
    for i, (x, w) in enumerate(zip(r, want)):
        if isinstance(w, tuple) and w[0] == 'eq': ok, exp = not isinstance(x, Exc) and x[:2] == [w[1], not w[1]], w
        else: exp = out(w); ok = not isinstance(x, Exc) and x == exp
        need(ok, lambda: 'curves %s: step %d of %s: got %s, expected %s' % (show(specs, 900), i, show(send[:i + 1], 900), show(x), show(exp)))
    return ['%d curves' % len(cvs)]


# ---------------------------------------------------------------- operands solved for from a particular result
def edge_value(d, p):
    """['v', k]: k modulo p | ['b', e, k]: 2^e + k"""
    return (d[1] if d[0] == 'v' else (1 << d[1] % p.bit_length()) + d[2]) % p


def edge_values():
    return st.one_of(st.tuples(st.just('v'), st.integers(0, 40)), st.tuples(st.just('v'), st.integers(-40, -1)),
                     st.tuples(st.just('b'), st.integers(0, 520), st.integers(-40, 40))).map(list)


def edge_point(g, d, other):
    """a point with this value (or the next there is) as its first or as its other coordinate"""
    v = edge_value(d, g.p)
    for i in range(12 if other else 60):
        P = (g.lift2 if other else g.lift)((v + i) % g.p)
        if P is not None: return P
    return None


def edge_cases(kinds, tier, seed_count=1):
    """published curves: results 0..40 and -40..-1 in either coordinate"""
    for n in [n for k in ('WK', 'ET', 'M') if set(k) & set(kinds) for n in NAMES[k]]:
        vals = [['v', 0], ['v', 1], ['v', 7], ['v', 15], ['v', -2], ['v', -20]] if tier == 'quick' else \
            [['v', i] for i in range(40)] + [['v', -i] for i in range(1, 40)] + [['b', e, d] for e in (31, 32, 64, 96, 128, 160, 192, 224, 255, 256, 320, 384, 447, 448, 512, 520) for d in (-2, 0)]
        for i, v in enumerate(vals):
            for other in (0, 1):
                if tier == 'quick' and (i + other) % 2: continue
                yield dict(curve=['p', n], v=v, other=other, q=rec.h(n, i) % 9999, sign=i & 1, k=None)


def edge_strategy(cs):
    return st.fixed_dictionaries(dict(curve=cs.map(list), v=edge_values(), other=st.integers(0, 1), q=st.integers(0, 9999), sign=st.integers(0, 1),
                                      k=st.one_of(st.none(), st.none(), scalars().map(list))))


def run_edge(s, c, ladders=False):
    cv = resolve(s, c['curve'])
    if cv is None: return ['trivial']
    g = cv.g
    R = edge_point(g, c['v'], c['other'])
    if R is None or (g.O is None and R[0] == 0 and ladders): return ['trivial']
    if c['sign']: R = g.neg(R)
    send, want = [], []

    def pt(P):
        send.append(['pt', *P] if P is not None else ['id']); want.append(out(P))
        return [len(send) - 1]

    def op(w, *st_):
        send.append(list(st_)); want.append(out(w))

    def lad(w, *st_):
        send.append(list(st_)); want.append(w)
    Q = g.rand(c['q'])
    q, p_, t = pt(Q), pt(g.sub(R, Q)), pt(g.add(R, Q))
    op(R, 'add', q, p_); op(R, 'add', p_, q); op(R, 'sub', t, q)
    r, m = pt(R), pt(g.neg(R))
    op(R, 'neg', m); op(g.neg(R), 'neg', r)
    op(g.add(R, R), 'dbl', r); op(g.add(R, Q), 'add', r, q); op(g.sub(R, Q), 'sub', r, q)
    labels = {cv.label, 'other coordinate' if c['other'] else 'first coordinate'}
    if cv.n and cv.n % 2:
        H = g.mul((cv.n + 1) // 2, R)
        hh = pt(H)
        op(R, 'dbl', hh); op(R, 'add', hh, hh)
        labels.add('halved')
    l = edge_value(c['v'], g.p)
    S = g.chord(Q, l)
    if S is not None:
        s_ = pt(S)
        op(g.add(Q, S), 'add', q, s_); op(g.add(Q, S), 'add', s_, q); op(g.sub(Q, g.neg(S)), 'sub', q, pt(g.neg(S)))
        labels.add('slope')
    if cv.n and c['k'] is not None:
        k = scalar(c['k'], cv.n)
        while rprime.gcd(k, cv.n) != 1: k += 1
        B = g.mul(pow(k, -1, cv.n), R)
        b = pt(B)
        op(R, 'mul', b, k)
        if ladders and B[0]:
            w = g.mul(k, B)
            lad(w[0], 'lad1', k, b); lad(w[0], 'lad2', k, b)
        labels.add('multiple')
    a = s.call('ec', cv.spec, send)
    need(not isinstance(a, Exc), lambda: 'curve %s: %s' % (show(cv.spec), a))
    for i, (x, w) in enumerate(zip(a, want)):
        need(not isinstance(x, Exc) and x == w, lambda: 'curve %s: step %d of %s: got %s, expected %s' % (show(cv.spec, 900), i, show(send[:i + 1], 1500), show(x), show(w)))
    return sorted(labels)
