from hypothesis import strategies as st

import ecx
from core import sub

RULE = ('one operation program on one curve, every step compared with the group law; for tiny fields one case is one '
        'curve with the tables of +, -, negation, doubling and comparison over all its points; trivial: only the identity exists')
TINY = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61, 97, 127]


def plan(tier):
    if tier == 'quick': return ecx.tiny_cases('W', [(5, 1), (7, 1), (11, 2), (13, 6), (17, 24), (19, 40), (31, 300)])
    return ecx.tiny_cases('W', [(5, 1), (7, 1), (11, 1), (13, 1), (17, 1), (19, 1), (23, 1), (29, 2), (31, 2), (37, 20), (61, 300)])


@sub(cases=plan, qs=3)
def every_pair_on_tiny_curves(s, c):
    return ecx.run_tables(s, c)


@sub(strategy=lambda: ecx.programs(ecx.curves('WW', TINY)), q=900, t=30000, qs=4)
def programs(s, c):
    return ecx.run_program(s, c)


@sub(strategy=lambda: ecx.programs(st.one_of(
    st.builds(lambda p, i: ('t', 'W', p, i % len(ecx.rec.tiny('W', p))), st.sampled_from([5, 7, 11, 13, 17, 19, 23, 31]), st.integers(0, 1 << 16)),
    st.tuples(st.just('o'), st.just('W'), st.sampled_from(ecx.SMALLBITS), st.integers(0, 1 << 10))), maxsteps=25), q=700, t=20000, qs=2)
def long_programs_small_fields(s, c):
    return ecx.run_program(s, c)


@sub(cases=lambda tier: [dict(curve=['p', n], steps=[['pt', ['g']], ['pt', ['r', 3]], ['id'], ['add', [0], [1]], ['add', [1], [0]], ['sub', [3], [1]],
                                                      ['eq', [5], [0]], ['dbl', [0]], ['add', [0], [0]], ['neg', [0]], ['add', [0], [9]], ['sub', [7], [0]],
                                                      ['add', [2], [0]], ['add', [0], [2]], ['neg', [2]], ['dbl', [2]], ['sub', [2], [0]], ['add', [2], [2]],
                                                      ['eq', [17], [2]], ['eq', [0], [9]], ['add', [3], [7]], ['dbl', [20]], ['neg', [21]]])
                        for n in ecx.NAMES['WK']])
def every_published_curve(s, c):
    return ecx.run_program(s, c)


@sub(strategy=lambda: ecx.several('W', muls=False), q=250, t=8000)
def several_curves_at_once(s, c):
    return ecx.run_several(s, c)


@sub(cases=lambda tier: ecx.edge_cases('WK', tier), qs=3)
def edge_results_on_published_curves(s, c):
    return ecx.run_edge(s, c)


@sub(strategy=lambda: ecx.edge_strategy(ecx.curves('WW', TINY)), q=250, t=10000, qs=2)
def edge_results(s, c):
    return ecx.run_edge(s, dict(c, k=None))
