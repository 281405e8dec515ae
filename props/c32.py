"""Calls made at the same time.  The requests are those the other checks make: their generators are reused."""
import functools
import importlib
import itertools
import time

from hypothesis import strategies as st

import core
from core import Violation, sub, need, show
from sut import Exc, enc

RULE = ('a few requests (calls, object programs, curve programs) as the other checks generate them, each made alone and then by four threads at '
        'once, or stopped at a line in the library while another one is made by another thread, also as the first calls in the process; '
        'trivial: no request gives the same answer twice when alone')
ASSUMES = ['the scheduler of the Java virtual machine interleaves the threads; which interleavings occur is not controlled']

# what takes long, or is not a call of the library, is left out
LEFT_OUT = {'C13', 'C23'}
GROUPS = [['C01', 'C02', 'C03', 'C04', 'C05'], ['C06', 'C07', 'C08'], ['C09', 'C10'], ['C11', 'C12', 'C14', 'C15', 'C16'],
          ['C17', 'C18', 'C19', 'C20', 'C22'], ['C21'], ['C24', 'C25', 'C26'], ['C27', 'C28'], ['C29', 'C30', 'C31']]
ROUNDS, THREADS = 4, 4


@functools.lru_cache(None)
def subs_of(pid):
    keep, core.SUBS[:] = list(core.SUBS), []
    try:
        m = importlib.import_module(pid.lower())
        l = list(core.SUBS) or m._SUBS
        m._SUBS = l
    finally:
        core.SUBS[:] = keep
    return l


@functools.lru_cache(None)
def strategy_of(pid, name):
    s = [x for x in subs_of(pid) if x.name == name][0]
    if s.cases is not None: return st.sampled_from(list(itertools.islice(s.cases('quick'), 3000)))
    return s.strategy() if not hasattr(s.strategy, 'example') else s.strategy


@st.composite
def some(draw, group):
    """cases of one or two checks of a group, so that the threads meet in the same code"""
    out = []
    names = [(p, x.name) for p in group for x in subs_of(p)]
    chosen = [draw(st.sampled_from(names))]
    if draw(st.booleans()): chosen.append(draw(st.sampled_from(names)))
    for _ in range(draw(st.integers(2, 3))):
        p, n = draw(st.sampled_from(chosen))
        out.append([p, n, draw(strategy_of(p, n))])
    return out


class Recorder:
    """stands between a check and the library, and notes the requests that are answered quickly"""

    def __init__(self, sut, limit=0.1): self.sut, self.took, self.limit = sut, {}, limit

    def call(self, name, *args):
        t = time.monotonic()
        v = self.sut.call(name, *args)
        t = time.monotonic() - t
        if t < self.limit and name not in ('has', 'attr', 'curve_params', 'curve_registry'):
            out = []
            enc([name] + list(args), out)
            l = ' '.join(out)
            if len(l) < 20000 and l not in self.took: self.took[l] = t
        return v

    def f(self, mod, fn, *args): return self.call('calls', [[mod, fn, list(args)]])[0]

    def fk(self, mod, fn, args, kw): return self.call('calls', [[mod, fn, list(args), kw]])[0]

    def many(self, items): return self.call('calls', items)

    def has(self, mod, name): return self.call('has', mod, name) is True

    def __getattr__(self, a): return getattr(self.sut, a)


def lines_of(s, c, each, most, limit=0.1, total=0.5):
    lines, spent = [], 0
    for p, n, case in c:
        r = Recorder(s, max(limit, 0.1))
        fn = [x for x in subs_of(p) if x.name == n][0].fn
        try:
            fn(r, case)
        except Violation:
            pass            # what a call returns when it is alone is the other checks' business
        for l, t in list(r.took.items())[:each]:
            if l not in lines and t < limit and (spent := spent + t) < total: lines.append(l)
    return [l.encode() for l in lines[:most]]


def compare(s, w, lines, rounds):
    """expected replies from worker s; the threads run in worker w"""
    alone = s.call('alone', lines)
    need(not isinstance(alone, Exc), lambda: 'requests one after another: %s' % alone)
    w.T1 = w.T2 = 300
    try:
        diffs = w.call('together', lines, alone, rounds, THREADS)
    finally:
        del w.T1, w.T2
    need(not isinstance(diffs, Exc), lambda: 'requests at the same time: %s' % diffs)
    if diffs:
        i, t, why = diffs[0]
        raise Violation('request %s: alone the answer is %s, with other calls at the same time %s' % (
            plain(lines[i].decode()), plain(alone[i].decode()), plain(t.decode()) + (' (%s)' % why.decode(errors='replace') if why else '')))
    return [a for a in alone if a is not None]


def check(s, c):
    lines = lines_of(s, c, 3, 6)
    if not lines or not (k := compare(s, s, lines, ROUNDS)): return ['trivial']
    return ['requests=%d' % len(k)] + sorted({p for p, n, case in c})


def check_paused(s, c):
    c, seed, fresh = c
    lines = lines_of(s, c, 3, 6, 0.04)
    if not lines: return ['trivial']
    alone = s.call('alone', lines)
    need(not isinstance(alone, Exc), lambda: 'requests one after another: %s' % alone)
    out = ['fresh' if fresh else 'warm']
    for i in range(min(2, len(lines))):
        if alone[i] is None: continue
        r = s.call('paused', lines[i], lines, alone[i], alone, seed + i, 12, fresh)
        need(not isinstance(r, Exc), lambda: 'requests at the same time: %s' % r)
        n, bad = r
        for place, other, got, e in bad:
            raise Violation('request %s, stopped at line %s while request %s is made%s: the answer of one of them is %s, alone it is %s' % (
                plain(lines[i].decode()), place.decode(), plain(other.decode()), ' (first calls in the process)' if fresh else '', plain(got.decode()), plain(e.decode())))
        if n: out.append('pauses=%d' % (n // 4 * 4))
    return out if len(out) > 1 else ['trivial']


def plain(l):
    from sut import dec
    try:
        return show(dec(iter(l.replace('X', 'X00').split(' ') if l == 'X' else l.split(' '))), 700)
    except Exception:
        return l[:700]


def make(group, q, t):
    def fn(s, c): return check(s, c)
    fn.__name__ = fn.__qualname__ = 'calls_of_' + '_'.join(group)
    sub(strategy=lambda: some(group), q=q, t=t)(fn)


def make_paused(group, q, t):
    def fn(s, c): return check_paused(s, c)
    fn.__name__ = fn.__qualname__ = 'pauses_in_' + '_'.join(group)
    sub(strategy=lambda: st.tuples(some(group), st.integers(0, 10 ** 6), st.booleans()), q=q, t=t)(fn)


for _g in GROUPS:
    make(_g, 40, 1200)
    make_paused(_g, 25, 1200)


@sub(strategy=lambda: some([p for g in GROUPS for p in g]), q=60, t=2000)
def calls_of_everything(s, c):
    return check(s, c)


@st.composite
def one_of_each(draw):
    """cases of every group: calls that meet in a process that has not made any such call before"""
    return [draw(some([draw(st.sampled_from(g))]))[0] for g in GROUPS]


@sub(strategy=lambda: one_of_each(), q=8, t=400)
def first_calls(s, c):
    from sut import Sut
    lines = lines_of(s, c, 1, 40)
    w = Sut()
    try:
        k = compare(s, w, lines, 1)
    finally:
        w.close()
    return ['requests=%d' % (len(k) // 10 * 10)] if k else ['trivial']
