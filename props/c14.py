from hypothesis import strategies as st

import ecx
import gen
import rec
import rprime
from core import sub, need, same, rejected, show
from sut import Exc

RULE = ('a batch of coordinate pairs on one curve, each accepted exactly when it satisfies the curve equation; or x values decompressed and '
        'compared; or points encoded; trivial: nothing but the expected majority class in the batch')
TINY = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def check_valid(s, spec, g, pts):
    r = s.call('ec_valid', spec, [list(q) for q in pts])
    need(not isinstance(r, Exc), lambda: '%s: %s' % (show(spec), r))
    lab = set()
    for (x, y), v in zip([q for q in pts for _ in (0, 1)], r):
        if g.on(x, y):
            need(v == [x, y], lambda: 'curve %s: the point (%d, %d) is on the curve, but: %s' % (show(spec, 900), x, y, show(v)))
            lab.add('on')
        else:
            rejected(v, 'curve %s: the point (%d, %d) is not on the curve' % (show(spec, 900), x, y))
            lab.add('off')
    return lab


def grid(tier):
    for kind, plan in (('W', [(5, 1), (7, 2), (11, 20), (13, 40)]), ('M', [(5, 1), (7, 1), (11, 1), (13, 2)]), ('E', [(5, 1), (7, 1), (11, 1), (13, 1)]),
                       ('T', [(5, 1), (7, 2), (11, 10), (13, 20)])):
        if tier == 'thorough': plan = [(p, max(1, k // 10)) for p, k in plan] + [(17, 20), (23, 60), (31, 150)]
        for c in ecx.tiny_cases(kind, plan): yield c
    # Edwards curves without a complete addition law have points and non-points as well
    for p in (7, 11, 13):
        for a in range(1, p):
            for d in range(2, p):
                if a != d and not rec.T(p, a, d).ok() and (tier == 'thorough' or (a + d) % 5 == 0): yield ['T', p, [a, d]]


@sub(cases=grid, qs=3)
def every_pair_over_tiny_fields(s, c):
    g = rec.T(c[1], *c[2]) if isinstance(c[2], list) else rec.tiny(c[0], c[1])[c[2]]
    p = c[1]
    lab = check_valid(s, g.spec(p), g, [(x, y) for x in range(p) for y in range(p)])
    return sorted(lab) if len(lab) > 1 else ['trivial']


@sub(strategy=lambda: st.fixed_dictionaries(dict(curve=st.one_of(ecx.curves('WMET', TINY), st.tuples(st.just('p'), st.sampled_from(ecx.NAMES['WKETM']))).map(list),
                                                 points=st.lists(ecx.POINT.map(list), max_size=2))), q=200, t=5000)
def on_curve(s, c):
    """the identity, in both forms, and points and results of arithmetic are on their curve"""
    cv = ecx.resolve(s, c['curve'])
    if cv is None: return ['trivial']
    steps, want = [['id'], ['oncurve', [0]], ['id2'], ['oncurve', [2]], ['neg', [0]], ['oncurve', [4]]], [0, 1, 0, 1, 0, 1]
    for P in (ecx.point(cv, d) for d in c['points']):
        if P is None: continue
        i = len(steps)
        steps += [['pt', *P], ['oncurve', [i]], ['dbl', [i]], ['oncurve', [i + 2]], ['sub', [i], [i]], ['oncurve', [i + 4]]]
        want += [0, 1, 0, 1, 0, 1]
    r = s.call('ec', cv.spec, steps)
    for st_, x, w in zip(steps, r, want):
        if w: need(x in (True, 1), lambda: 'curve %s: %s of %s: got %s' % (show(cv.spec, 900), st_, show(steps, 900), show(x)))
        else: need(isinstance(x, list), lambda: 'curve %s: %s of %s: got %s' % (show(cv.spec, 900), st_, show(steps, 900), show(x)))
    return [cv.label + ', ' + cv.g.kind]


def bitflips(draw, p):
    return draw(st.integers(0, p.bit_length() - 1))


@st.composite
def perturb(draw):
    c = draw(ecx.curves('WMET', TINY))
    return dict(curve=list(c), point=list(draw(ecx.POINT)), mods=draw(st.lists(st.tuples(
        st.sampled_from(['x+', 'y+', 'xbit', 'ybit', 'swap', 'neg', 'negx', 'negboth', 'other', 'y0', 'x0', 'set', 'xscale', 'conj', 'inv']),
        st.integers(0, 1 << 20)).map(list), min_size=1, max_size=12)))


@sub(strategy=perturb, q=700, t=25000, qs=3)
def points_and_near_misses(s, c):
    cv = ecx.resolve(s, c['curve'])
    if cv is None: return ['trivial']
    P = ecx.point(cv, c['point'])
    if P is None: return ['trivial']
    p, (x, y) = cv.g.p, P
    pts = [P]
    for m, v in c['mods']:
        d = v % 5 + 1
        if m == 'x+': q = x + d, y
        elif m == 'y+': q = x, y + d
        elif m == 'xbit': q = x ^ 1 << v % p.bit_length(), y
        elif m == 'ybit': q = x, y ^ 1 << v % p.bit_length()
        elif m == 'swap': q = y, x
        elif m == 'neg': q = x, -y
        elif m == 'negx': q = -x, y
        elif m == 'negboth': q = -x, -y
        elif m == 'other':
            R = cv.g.rand(v % 7); q = x, R[1]
        elif m == 'y0': q = x, 0
        elif m == 'x0': q = 0, y
        elif m == 'set': q = v % 40, (v // 40) % 40
        elif m == 'xscale': q = x * d, y * d
        elif m == 'conj': q = x, y * rec.h('c', v)
        else: q = (pow(x, -1, p) if x else 0), (pow(y, -1, p) if y and v & 1 else y)
        pts.append((q[0] % p, q[1] % p))
    lab = check_valid(s, cv.spec, cv.g, pts)
    return [cv.label + ', ' + cv.g.kind] if len(lab) > 1 else ['trivial']


def check_y(s, spec, g, xs):
    r = s.call('ec_ys', spec, xs)
    need(not isinstance(r, Exc), lambda: '%s: %s' % (show(spec), r))
    lab = set()
    for x, v in zip(xs, r):
        P = g.lift(x)
        if P is None:
            rejected(v, 'curve %s: y_from_x(%d): no such point' % (show(spec, 900), x))
            lab.add('no point')
        else:
            need(isinstance(v, int) and not isinstance(v, bool) and v in (P[1], -P[1] % g.p),
                 lambda: 'curve %s: y_from_x(%d): got %s, expected %d or %d' % (show(spec, 900), x, show(v), P[1], -P[1] % g.p))
            lab.add('two points' if P[1] else 'one point')
    return lab


def tiny_w(tier):
    return ecx.tiny_cases('W', [(5, 1), (7, 1), (11, 2), (13, 4), (17, 10), (29, 60), (31, 60), (37, 90)] if tier == 'quick' else
                          [(5, 1), (7, 1), (11, 1), (13, 1), (17, 1), (19, 1), (23, 2), (29, 2), (31, 2), (37, 4), (41, 10), (61, 20), (73, 20), (97, 40)])


@sub(cases=tiny_w, qs=2)
def decompression_over_tiny_fields(s, c):
    g = rec.tiny(*c[:2])[c[2]]
    return sorted(check_y(s, g.spec(g.p), g, list(range(g.p))))


@sub(strategy=lambda: st.fixed_dictionaries(dict(
    curve=st.one_of(ecx.curves('W', TINY), st.tuples(st.just('p'), st.sampled_from(ecx.NAMES['WK']))).map(list),
    xs=st.lists(st.one_of(gen.bits(521), st.integers(0, 200), st.integers(0, 50).map(lambda d: ('m', d)), ecx.POINT), min_size=1, max_size=3).map(
        lambda l: [list(x) if isinstance(x, tuple) else x for x in l]))), q=400, t=15000, qs=4)
def decompression(s, c):
    cv = ecx.resolve(s, c['curve'])
    if cv is None: return ['trivial']
    xs = []
    for x in c['xs']:
        if isinstance(x, list):
            if x[0] == 'm': xs.append(cv.g.p - 1 - x[1] % min(cv.g.p, 50))
            else:
                P = ecx.point(cv, x)
                if P: xs.append(P[0])
        else: xs.append(x % cv.g.p)
    if cv.g.p.bit_length() > 128 and cv.g.p % 8 == 1: xs = xs[:2]
    return [cv.label + ', p%%8=%d, ' % (cv.g.p % 8) + x for x in sorted(check_y(s, cv.spec, cv.g, xs))] if xs else ['trivial']


def published_ys(tier):
    for n in ecx.NAMES['WK']:
        for i in range(2 if tier == 'quick' else 12): yield [n, i]


@sub(cases=published_ys, qs=4)
def decompression_on_published_curves(s, c):
    cv = ecx.resolve(s, ['p', c[0]])
    if cv is None: return ['trivial']
    p = cv.g.p
    xs = [cv.gen[0], rec.h('x', c) % p] if c[1] == 0 else [c[1], p - c[1], rec.h('x', c) % p]
    return sorted(check_y(s, cv.spec, cv.g, xs))


def text(cv, P): return b'IDENTITY' if P == cv.g.O else b'(%d,%d)' % tuple(P)


@sub(strategy=lambda: st.fixed_dictionaries(dict(curve=ecx.curves('WMET', TINY).map(list), points=st.lists(ecx.POINT.map(list), min_size=1, max_size=4))), q=500, t=15000, qs=2)
def encoding(s, c):
    cv = ecx.resolve(s, c['curve'])
    if cv is None: return ['trivial']
    size = (cv.g.p.bit_length() + 7) // 8
    pts = [P for P in (ecx.point(cv, d) for d in c['points']) if P is not None]
    if not pts: return ['trivial']
    # the points and results of arithmetic on them (an addition of a point and itself, its negative)
    steps, want = [], []
    for P in pts:
        i = len(steps)
        steps += [['pt', *P], ['enc', [i]], ['enc0', [i]], ['neg', [i]], ['enc', [i + 3]], ['encbad', [i]], ['str', [i]], ['oct', [i]], ['str', [i + 3]]]
        enc = b''.join(v.to_bytes(size, 'big') for v in P)
        want += [list(P), enc, enc, ecx.out(cv.g.neg(P)), b''.join(v.to_bytes(size, 'big') for v in cv.g.neg(P)), 'rejected', text(cv, P), P[0], text(cv, cv.g.neg(P))]
    steps += [['size'], ['id'], ['str', [len(steps) + 1]]]; want += [size, ecx.out(cv.g.O), text(cv, cv.g.O)]
    r = s.call('ec', cv.spec, steps)
    need(not isinstance(r, Exc), lambda: '%s: %s' % (show(cv.spec), r))
    for st_, x, w in zip(steps, r, want):
        if w == 'rejected': rejected(x, 'an unknown encoding')
        elif st_[0] == 'oct': need(isinstance(x, bytes) and int.from_bytes(x, 'big') == w, lambda: 'curve %s: toOctets of %s: got %s, expected the octets of x = %d' % (show(cv.spec, 900), st_, show(x), w))
        else: need(not isinstance(x, Exc) and x == w, lambda: 'curve %s: step %s of %s: got %s, expected %s' % (show(cv.spec, 900), st_, show(steps, 900), show(x), show(w)))
    lead = any(v < 256 ** (size - 1) for P in pts for v in P)
    return [cv.label + ', ' + cv.g.kind, 'leading zero octets' if lead else 'full width']


def sizes(tier):
    """the primes next to powers of 256, and to the powers of two next to these"""
    for k in (list(range(1, 34)) + [40, 47, 48, 49, 63, 64, 65, 66]) if tier == 'quick' else range(1, 100):
        for b in (8 * k - 1, 8 * k, 8 * k + 1):
            if b < 4: continue
            q = (1 << b) - 1
            while not rprime.is_prime(q): q -= 2
            yield dict(p=q, kind='WEMT'[(k + b) % 4])
            if b % 8 == 0: yield dict(p=rprime.next_prime(1 << b), kind='WEMT'[k % 4])


@sub(cases=sizes, qs=2)
def sizes_next_to_powers_of_256(s, c):
    p, i = c['p'], 0
    while 1:
        a, b = rec.h('size', p, i) % p, rec.h('sizeb', p, i) % p
        g = {'W': lambda: rec.W(p, a, b), 'M': lambda: rec.M(p, a), 'E': lambda: rec.T(p, 1, b, 'E'), 'T': lambda: rec.T(p, a * a % p, b)}[c['kind']]()
        if g.ok() and (c['kind'] != 'T' or a): break
        i += 1
    size = (p.bit_length() + 7) // 8
    pts = [P for P in (ecx.point(ecx.Curve(None, g, None, ''), d) for d in (['r', 1], ['x', 1], ['x', 300], ['x', -1])) if P is not None]
    steps, want = [['size']], [size]
    for P in pts:
        steps += [['pt', *P], ['enc', [len(steps)]]]
        want += [list(P), b''.join(v.to_bytes(size, 'big') for v in P)]
    r = s.call('ec', g.spec(), steps)
    for st_, x, w in zip(steps, r, want): same(x, w, 'curve over the field of %d elements: %s' % (p, st_))
    return [c['kind'], '%d mod 8 bits' % (p.bit_length() % 8)]
