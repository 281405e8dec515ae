from hypothesis import strategies as st

import ecx
from core import sub

RULE = ('one operation program, or one point by one or more scalars, on one complete (twisted) Edwards curve, every step compared with the '
        'addition law; for tiny fields one case is one curve with the full tables or all scalars; trivial: the identity alone')
TINY = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def plan(tier):
    yield from ecx.tiny_cases('E', [(5, 1), (7, 1), (11, 1), (13, 1), (17, 2), (19, 3), (31, 15)] if tier == 'quick' else [(p, 1) for p in (5, 7, 11, 13, 17, 19, 23, 29)] + [(31, 2), (37, 3)])
    yield from ecx.tiny_cases('T', [(5, 1), (7, 1), (11, 5), (13, 9), (17, 40), (23, 90)] if tier == 'quick' else [(5, 1), (7, 1), (11, 1), (13, 1), (17, 2), (19, 4), (23, 8), (31, 30)])


@sub(cases=plan, qs=3)
def every_pair_on_tiny_curves(s, c):
    return ecx.run_tables(s, c)


def mplan(tier):
    yield from ecx.tiny_cases('E', [(5, 1), (7, 1), (11, 1), (13, 2), (17, 5)] if tier == 'quick' else [(p, 1) for p in (5, 7, 11, 13, 17, 19, 23)])
    yield from ecx.tiny_cases('T', [(5, 1), (7, 3), (11, 15), (13, 30)] if tier == 'quick' else [(5, 1), (7, 1), (11, 2), (13, 3), (17, 15), (23, 40)])


@sub(cases=mplan, qs=3)
def every_point_and_scalar_on_tiny_curves(s, c):
    return ecx.run_muls(s, c)


@sub(strategy=lambda: ecx.programs(ecx.curves('ET', TINY), muls=True, scalar=st.integers(-9, 17)), q=900, t=30000, qs=4)
def programs(s, c):
    return ecx.run_program(s, c)


@sub(strategy=lambda: ecx.mulcase(ecx.curves('ET', TINY, order_only=True, bits=[b for b in ecx.BITS if b <= 128], published=False), 3), q=250, t=10000, qs=2)
def scalars_on_user_curves(s, c):
    return ecx.check_muls(s, dict(c, nmul=1))


@sub(strategy=lambda: ecx.mulcase(ecx.curves('ET', TINY, order_only=True, bits=[b for b in ecx.BITS if b >= 160]), 1), q=60, t=2500, qs=4)
def scalars_on_large_curves(s, c):
    return ecx.check_muls(s, dict(c, nmul=1))


@sub(strategy=lambda: st.fixed_dictionaries(dict(curve=st.sampled_from(ecx.NAMES['ET']).map(lambda n: ['p', n]),
                                                 point=ecx.POINT.map(list), ks=st.lists(ecx.scalars().map(list), min_size=1, max_size=1), side=st.integers(0, 1))), q=60, t=2500, qs=4)
def scalars_on_published_curves(s, c):
    return ecx.check_muls(s, c)


@sub(strategy=lambda: ecx.long_cases('ET', []), q=120, t=4000)
def scalars_far_longer_than_n(s, c):
    return ecx.check_muls(s, c)


@sub(cases=lambda tier: [dict(curve=['p', n], point=['g'], ks=[['l', b, 5 * b + 2]], side=0) for n in ecx.NAMES['ET'][:3 if tier == 'quick' else None] for b in ([1100] if tier == 'quick' else [700, 1000, 2000])])
def long_scalars_on_published_curves(s, c):
    return ecx.check_muls(s, c)


@sub(cases=lambda tier: [dict(curve=['p', n], point=P, ks=[k], side=i & 1) for n in ecx.NAMES['ET'] for i, k in enumerate(
    [['v', 0], ['v', 1], ['v', 2], ['v', 3], ['v', -1], ['n', 1, 0], ['f', 1, 4], ['f', 1, 8]] if tier == 'quick' else ecx.DEEP) for P in (['g'], ['low', 1, 0], ['low', 2, 2])[:3 if i < 6 else 1]], qs=4)
def published_curves(s, c):
    return ecx.check_muls(s, c)


@sub(cases=lambda tier: [dict(curve=['p', n], steps=[['pt', ['g']], ['pt', ['r', 3]], ['id'], ['id2'], ['add', [0], [1]], ['add', [1], [0]], ['sub', [4], [1]], ['eq', [6], [0]],
                                                      ['dbl', [0]], ['add', [0], [0]], ['neg', [0]], ['add', [0], [10]], ['eq', [11], [2]], ['add', [2], [0]], ['sub', [2], [0]], ['neg', [2]],
                                                      ['dbl', [2]], ['eq', [2], [3]], ['pt', ['low', 1, 0]], ['dbl', [18]], ['add', [18], [0]], ['neg', [18]], ['add', [18], [19]]])
                        for n in ecx.NAMES['ET']])
def every_published_curve(s, c):
    return ecx.run_program(s, c)


@sub(strategy=lambda: ecx.several('TE'), q=250, t=8000)
def several_curves_at_once(s, c):
    return ecx.run_several(s, c)


@sub(cases=lambda tier: ecx.edge_cases('ET', tier), qs=3)
def edge_results_on_published_curves(s, c):
    return ecx.run_edge(s, c)


@sub(strategy=lambda: ecx.edge_strategy(ecx.curves('TE', TINY)), q=250, t=10000, qs=2)
def edge_results(s, c):
    return ecx.run_edge(s, c)
