from hypothesis import strategies as st

import ecx
import rec
from core import sub, need, show
from sut import Exc

RULE = ('one point multiplied by one or more scalars (k*P and P*k) and compared with double-and-add of the reference; for tiny fields '
        'one case is one curve, all points by scalars from below -n to above 2n; trivial: the identity alone')
TINY = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61, 97, 127]


def plan(tier):
    if tier == 'quick': l = [(5, 1), (7, 2), (11, 14), (13, 30), (17, 100)]
    else: l = [(5, 1), (7, 1), (11, 1), (13, 1), (17, 3), (19, 4), (23, 10), (31, 40)]
    for c in ecx.tiny_cases('W', l):
        yield c + [1 + (rec.h(c) % 7 == 0) * (rec.h(c, 1) % 4)]


@sub(cases=plan, qs=4)
def every_point_and_scalar_on_tiny_curves(s, c):
    return ecx.run_muls(s, c)


@sub(strategy=lambda: ecx.mulcase(ecx.curves('W', TINY, order_only=True, bits=[b for b in ecx.BITS if b <= 128], published=False), 4), q=500, t=20000, qs=3)
def scalars_on_user_curves(s, c):
    return ecx.check_muls(s, c)


@sub(strategy=lambda: ecx.mulcase(ecx.curves('W', TINY, order_only=True, bits=[b for b in ecx.BITS if b >= 160]), 1), q=110, t=4000, qs=4)
def scalars_on_large_curves(s, c):
    return ecx.check_muls(s, c)


@sub(strategy=lambda: ecx.long_cases('W', []), q=120, t=4000)
def scalars_far_longer_than_n(s, c):
    return ecx.check_muls(s, c)


def published(tier):
    for i, n in enumerate(ecx.NAMES['WK']):
        for j, k in enumerate(ecx.EDGE if tier == 'quick' else ecx.DEEP):
            # quick: small scalars everywhere, the costly ones (close to n) spread over the curves
            cheap = k[0] == 'v' or k in (['n', 1, 0], ['n', 2, 0], ['n', -1, 0], ['n', 3, 5], ['n', 1, 1])
            if tier == 'thorough' or cheap or (i + j) % 4 == 0:
                for P in [['g'], ['r', 7]][:1 if tier == 'quick' else 2]:
                    yield dict(curve=['p', n], point=P, ks=[k], side=(i + j) & 1)
        yield dict(curve=['p', n], point=['g'], ks=[['w', rec.h('q', n)]], side=i & 1)


@sub(cases=published, qs=4)
def published_curves(s, c):
    return ecx.check_muls(s, c)


@sub(strategy=lambda: st.fixed_dictionaries(dict(curve=ecx.curves('W', TINY, order_only=True, bits=ecx.SMALLBITS, published=False).map(list),
                                                 P=ecx.POINT.map(list), Q=ecx.POINT.map(list), j=ecx.scalars(70).map(list), k=ecx.scalars(70).map(list))), q=250, t=8000)
def distributive_and_diffie_hellman(s, c):
    cv = ecx.resolve(s, c['curve'])
    P, Q = ecx.point(cv, c['P']), ecx.point(cv, c['Q'])
    j, k = ecx.scalar(c['j'], cv.n), ecx.scalar(c['k'], cv.n)
    pt = lambda R: ['id'] if R is None else ['pt', *R]
    r = s.call('ec', cv.spec, [pt(P), pt(Q), ['mul', [0], j], ['mul', [0], k], ['add', [2], [3]], ['mul', [0], j + k], ['eq', [4], [5]],
                               ['mul', [1], k], ['add', [3], [7]], ['add', [0], [1]], ['mul', [9], k], ['eq', [8], [10]],
                               ['mul', [2], k], ['mul', [3], j], ['mul', [0], j * k], ['eq', [12], [13]], ['eq', [12], [14]]])
    need(not isinstance(r, Exc), lambda: '%s: %s' % (show(cv.spec), r))
    g = cv.g
    mul = lambda k, R: ecx.out(g.mul(k, R))
    for i, w in ((2, mul(j, P)), (3, mul(k, P)), (4, mul(j + k, P)), (7, mul(k, Q)), (10, mul(k, g.add(P, Q))), (12, mul(j * k, P)), (13, mul(j * k, P))):
        need(r[i] == w, lambda: 'curve %s, P=%s Q=%s j=%d k=%d: step %d: got %s, expected %s' % (show(cv.spec), P, Q, j, k, i, show(r[i]), w))
    for i, what in ((6, '(j+k)P = jP + kP'), (11, 'k(P+Q) = kP + kQ'), (15, 'k(jP) = j(kP)'), (16, 'k(jP) = (jk)P')):
        need(not isinstance(r[i], Exc) and r[i][0] is True, lambda: 'curve %s, P=%s Q=%s j=%d k=%d: %s fails: %s' % (show(cv.spec), P, Q, j, k, what, r))
    return ['trivial'] if P is None or (j % cv.n == 0 and k % cv.n == 0) else [cv.label]


@sub(strategy=lambda: ecx.several('W'), q=250, t=8000)
def several_curves_at_once(s, c):
    return ecx.run_several(s, c)


@sub(strategy=lambda: ecx.edge_strategy(st.one_of(ecx.curves('W', TINY, order_only=True, bits=[b for b in ecx.BITS if b <= 192]),
                                                  st.sampled_from(ecx.NAMES['WK']).map(lambda n: ('p', n)))), q=120, t=5000, qs=4)
def edge_results(s, c):
    return ecx.run_edge(s, dict(c, k=c['k'] or ['w', c['q'] ** 40]))
