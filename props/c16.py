from hypothesis import strategies as st

import ecx
import gen
import rec
from core import sub, need, show
from sut import Exc

RULE = ('one operation program, one point by scalars, or one point through both ladders, on one Montgomery curve, compared with the group law; '
        'for tiny fields one case is one curve with the full tables, all scalars, or all ladder inputs; trivial: the identity alone')
TINY = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61, 97, 127]


@sub(cases=lambda tier: ecx.tiny_cases('M', [(p, 1) for p in (5, 7, 11, 13)] + [(17, 2), (19, 3), (31, 10)] if tier == 'quick' else [(p, 1) for p in (5, 7, 11, 13, 17, 19, 23, 29, 31, 37)] + [(61, 8)]), qs=3)
def every_pair_on_tiny_curves(s, c):
    return ecx.run_tables(s, c)


@sub(cases=lambda tier: ecx.tiny_cases('M', [(5, 1), (7, 1), (11, 1), (13, 2), (17, 5)] if tier == 'quick' else [(p, 1) for p in (5, 7, 11, 13, 17, 19, 23)]), qs=3)
def every_point_and_scalar_on_tiny_curves(s, c):
    return ecx.run_muls(s, c)


@sub(cases=lambda tier: ecx.tiny_cases('M', [(5, 1), (7, 1), (11, 1), (13, 1), (17, 1), (19, 2), (23, 4), (37, 9)] if tier == 'quick' else
                                       [(p, 1) for p in (5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61)]), qs=3)
def ladders_on_tiny_curves(s, c):
    g = rec.tiny(*c[:2])[c[2]]
    pts = [P for P in g.pts() if P and P[0]]
    if not pts: return ['trivial']
    n = len(g.pts())
    ks = list(range(-n - 2, 2 * n + 3)) + [4 * n + 1, 255, 256, 257]
    r = s.call('ec_ladders', g.spec(n), [list(P) for P in pts], ks)
    need(not isinstance(r, Exc), lambda: '%s: %s' % (g.spec(), r))
    i = 0
    for P in pts:
        cyc = [None]
        Q = P
        while Q: cyc.append(Q); Q = g.add(Q, P)
        for k in ks:
            w = cyc[k % len(cyc)]
            w = w[0] if w else 0
            for name in ('montgomery_ladder', 'montgomery_ladder2'):
                need(type(r[i]) is int and r[i] == w, lambda: 'curve %s: %s(%d, %s): got %s, expected %d' % (g.spec(), name, k, P, show(r[i]), w))
                i += 1
    return ['p=%d' % g.p]


@sub(strategy=lambda: ecx.programs(ecx.curves('MM', TINY), muls=True, scalar=st.integers(-9, 17)), q=900, t=30000, qs=4)
def programs(s, c):
    return ecx.run_program(s, c)


@sub(strategy=lambda: ecx.mulcase(ecx.curves('M', TINY, order_only=True, bits=[b for b in ecx.BITS if b <= 128], published=False), 3), q=250, t=10000, qs=2)
def scalars_on_user_curves(s, c):
    return ecx.check_muls(s, dict(c, nmul=1))


@sub(strategy=lambda: ecx.mulcase(st.one_of(ecx.curves('M', TINY, order_only=True, bits=[b for b in ecx.BITS if b >= 160]),
                                          st.sampled_from(ecx.NAMES['M']).map(lambda n: ('p', n))), 1), q=80, t=3000, qs=4)
def scalars_on_large_curves(s, c):
    return ecx.check_muls(s, dict(c, nmul=1))


def check_ladders(s, c):
    cv = ecx.resolve(s, c['curve'])
    if cv is None: return ['trivial']
    P = ecx.point(cv, c['point'])
    if P is None or P[0] == 0: return ['trivial']
    ks = [ecx.scalar(d, cv.n) for d in c['ks']]
    r = s.call('ec_ladders', cv.spec, [list(P)], ks)
    need(not isinstance(r, Exc), lambda: '%s: %s' % (show(cv.spec), r))
    for i, k in enumerate(ks):
        Q = cv.g.mul(k, P)
        w = Q[0] if Q else 0
        for j, name in enumerate(('montgomery_ladder', 'montgomery_ladder2')):
            v = r[2 * i + j]
            need(type(v) is int and v == w, lambda: 'curve %s: %s(%d, %s): got %s, expected %d' % (show(cv.spec, 900), name, k, P, show(v), w))
    return sorted({cv.label} | {ecx.klabel(k, cv.n) for k in ks})


@sub(strategy=lambda: ecx.long_cases('M', []), q=100, t=4000)
def scalars_far_longer_than_n(s, c):
    return ecx.check_muls(s, c)


@sub(strategy=lambda: ecx.long_cases('MM', ecx.NAMES['M']), q=150, t=5000, qs=2)
def ladders_far_longer_than_n(s, c):
    return check_ladders(s, c)


@sub(cases=lambda tier: [dict(curve=['p', n], point=['g'], ks=[['l', b, 5 * b + 2]], side=0) for n in ecx.NAMES['M'][:3 if tier == 'quick' else None] for b in ([1100] if tier == 'quick' else [700, 1000, 2000])])
def long_scalars_on_published_curves(s, c):
    return ecx.check_muls(s, c)


def lad(curve_s):
    return st.fixed_dictionaries(dict(curve=curve_s.map(list), point=ecx.POINT.map(list), ks=st.lists(ecx.scalars().map(list), min_size=1, max_size=4)))


@sub(strategy=lambda: lad(st.one_of(ecx.curves('MM', TINY), st.sampled_from(ecx.NAMES['M']).map(lambda n: ('p', n)))), q=400, t=15000, qs=4)
def ladders(s, c):
    return check_ladders(s, c)


@sub(cases=lambda tier: [dict(curve=['p', n], point=P, ks=[k]) for n in ecx.NAMES['M'] for P in (['g'], ['r', 1], ['low', 1, 0], ['low', 3, 1], ['x', 2]) for k in
                         (ecx.EDGE if tier == 'quick' else ecx.DEEP)], qs=3)
def ladders_on_published_curves(s, c):
    return check_ladders(s, c)


@sub(cases=lambda tier: [dict(curve=['p', n], point=P, ks=[k], side=i & 1) for n in ecx.NAMES['M'] for i, k in enumerate(
    [['v', 0], ['v', 1], ['v', 2], ['v', -1], ['n', 1, 0], ['n', 1, -1], ['f', 1, 4], ['f', 1, 8]] if tier == 'quick' else ecx.DEEP) for P in (['g'], ['low', 1, 0], ['low', 2, 2])[:3 if i < 5 else 1]], qs=4)
def published_curves(s, c):
    return ecx.check_muls(s, c)


@sub(strategy=lambda: st.tuples(st.sampled_from([['o', 'M', b, i] for b in ecx.SMALLBITS for i in range(6)] + [['p', n] for n in ecx.NAMES['M']]),
                                st.integers(0, 999), gen.bits(256), gen.bits(256)), q=60, t=2000, qs=2)
def diffie_hellman(s, c):
    cv = ecx.resolve(s, c[0])
    if cv is None: return ['trivial']
    g, P = cv.g, cv.g.rand(c[1])
    a, b = (ecx.scalar(['w', v], cv.n) for v in c[2:])
    A, B = g.mul(a, P), g.mul(b, P)
    if not A or not B or not A[0] or not B[0] or not P[0]: return ['trivial']
    r = s.call('ec', cv.spec, [['pt', *A], ['pt', *B], ['lad1', b, [0]], ['lad1', a, [1]], ['lad2', b, [0]], ['lad2', a, [1]]])
    need(not isinstance(r, Exc) and type(r[2]) is int and len({str(x) for x in r[2:]}) == 1, lambda: 'curve %s: %s' % (show(cv.spec, 900), show(r, 900)))
    return [cv.label]


@sub(strategy=lambda: ecx.several('M'), q=250, t=8000)
def several_curves_at_once(s, c):
    return ecx.run_several(s, c)


@sub(cases=lambda tier: ecx.edge_cases('M', tier), qs=3)
def edge_results_on_published_curves(s, c):
    return ecx.run_edge(s, c)


@sub(strategy=lambda: ecx.edge_strategy(ecx.curves('MM', TINY)), q=250, t=10000, qs=2)
def edge_results(s, c):
    return ecx.run_edge(s, c, ladders=True)
