"""Imports and calls have no effect beyond their results.  The requests are those the other checks make (see c32)."""
import itertools
import random

from hypothesis import HealthCheck, Phase, given, seed, settings, strategies as st

import core
from core import Violation, sub, need, show
from sut import Exc
_KEPT, core.SUBS[:] = list(core.SUBS), []
import c32          # without its own checks
core.SUBS[:] = _KEPT

RULE = ('a few requests as the other checks generate them, made after the library\'s modules were imported in a generated order and after other requests, and each '
        'compared with the answer it gets otherwise; trivial: no request has an answer that is always the same')

MODULES = ['cipher.chacha_poly', 'cipher.aes_cmac', 'cipher.aes_siv', 'cipher.encoding', 'cipher.common', 'ecc.numbertheory', 'ecc.ellipticcurve', 'ecc.ecc', 'ecc.curves',
           'fmath.galoisfield', 'fmath.prime', 'fmath.primes_to_5k', 'fmath.pi', 'hash.hmac', 'hash.pbkdf2', 'hash.prf_dot11', 'hash.michael', 'hash.tkip_mic', 'hash.tkip_key_mixing',
           'analysis.walshtransform', 'analysis.sbox_nonlinearity', 'analysis.sbox_analysis', 'analysis.permutation']


def compare(s, order, lines, alone, fresh, what):
    r = s.call('effects', order, lines, fresh)
    need(not isinstance(r, Exc), lambda: 'imports in the order %s: %s' % (order, r))
    got, printed, changed = r
    for l, e, x in zip(lines, alone, got):
        if e is not None and x != e:
            raise Violation('request %s: the answer is %s, but %s %s' % (c32.plain(l.decode()), c32.plain(e.decode()), what, c32.plain(x.decode())))
    need(not printed, lambda: 'printed while modules were imported (%s) and requests made (%s): %r' % (order, [c32.plain(l.decode()) for l in lines], printed))
    need(not changed, lambda: 'changed outside the library by imports (%s) and requests (%s): %s' % (order, [c32.plain(l.decode()) for l in lines], [show(x) for x in changed]))


def check(s, c):
    cases, order, turn, fresh = c
    lines = c32.lines_of(s, cases, 3, 8, 0.05)
    if not lines: return ['trivial']
    alone = s.call('alone', lines)
    need(not isinstance(alone, Exc), lambda: 'requests one after another: %s' % alone)
    if not any(alone): return ['trivial']
    if fresh: compare(s, [], lines[:1], alone[:1], True, 'as the first call')
    k = turn % len(lines)
    o = lines[k:] + lines[:k]
    if turn % 2: o.reverse()
    want = [alone[lines.index(l)] for l in o]
    compare(s, order, o + o[::-1], want + want[::-1], fresh, 'after imports in the order %s and other calls' % order)
    return ['requests=%d' % len(lines), 'modules=%d' % (len(order) // 6 * 6), 'fresh' if fresh else 'used before']


orders = st.one_of(st.permutations(MODULES), st.lists(st.sampled_from(MODULES), max_size=6, unique=True), st.just([]))


def make(group):
    def fn(s, c): return check(s, c)
    fn.__name__ = fn.__qualname__ = 'requests_of_' + '_'.join(group)
    sub(strategy=lambda: st.tuples(c32.some(group), orders, st.integers(0, 15), st.booleans()), q=80, t=1500)(fn)


for _g in c32.GROUPS + [['C13', 'C23']]: make(_g)


@sub(strategy=lambda: st.tuples(c32.one_of_each(), orders, st.integers(0, 15), st.booleans()), q=80, t=1500, qs=2)
def requests_of_everything(s, c):
    return check(s, c)


ALL = sorted({p for g in c32.GROUPS + [['C13', 'C23']] for p in g})


def examples(p, name, k, n):
    """n cases of a check of another property, the same for the same k"""
    su = [x for x in c32.subs_of(p) if x.name == name][0]
    if su.cases is not None:
        l = list(itertools.islice(su.cases('quick'), 3000))
        return random.Random(k).sample(l, min(n, len(l)))
    out = []

    @seed(k)
    @settings(max_examples=n, database=None, phases=[Phase.generate], deadline=None, suppress_health_check=list(HealthCheck))
    @given(c32.strategy_of(p, name))
    def note(x): out.append(x)
    note()
    return out[:n]


@sub(cases=lambda tier: [[p, x.name, k] for p in ALL for x in c32.subs_of(p) for k in range(1 if tier == 'quick' else 12)], qs=8)
def every_kind_of_request(s, c):
    """many cases of one check of one property"""
    lines = c32.lines_of(s, [[c[0], c[1], x] for x in examples(*c, 14)], 8, 60, 0.4, 1.0)
    if not lines: return ['trivial']
    try:
        compare(s, [], lines, [None] * len(lines), False, '')
    except Violation:
        for l in lines: compare(s, [], [l], [None], False, '')
        raise
    # as the first calls of a process, the large ones first and the small ones first
    l = lines[::1 + len(lines) // 25]
    alone = s.call('alone', l)
    need(not isinstance(alone, Exc), lambda: 'requests one after another: %s' % alone)
    for k in (1, -1):
        o = sorted(range(len(l)), key=lambda i: k * len(l[i]))
        compare(s, [], [l[i] for i in o], [alone[i] for i in o], True, 'as one of the first calls, after %s ones,' % ('smaller' if k == 1 else 'larger'))
    return ['requests=%d' % (len(lines) // 20 * 20)]


def imports(tier):
    for m in MODULES: yield [m]
    for m in MODULES: yield [x for x in MODULES if x != m] + [m]
    yield MODULES[::-1]
    for i, a in enumerate(MODULES):
        for b in MODULES:
            if a != b and (tier == 'thorough' or a.split('.')[0] == b.split('.')[0]): yield [a, b]


@sub(cases=imports, qs=2)
def every_module_first_and_last(s, order):
    compare(s, order, [], [], True, '')
    return ['modules=%d' % len(order)]
