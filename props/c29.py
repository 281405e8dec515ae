import itertools

from hypothesis import strategies as st

import gen
import raes
from rsm4 import sm4
from core import sub, same, need, show
from sut import Exc

MODS = [('analysis.sbox_analysis', None), ('analysis.permutation', 'permutation')]
RULE = 'one permutation decomposed by both copies of the function; trivial: fewer than two elements'


def cycles(p):
    seen = set(); out = []
    for i in range(len(p)):
        if i in seen: continue
        c = []
        j = i
        while j not in seen: seen.add(j); c.append(j); j = p[j]
        out.append([i, c])
    return out


def check(s, p):
    want = cycles(p)
    for mod, cls in MODS:
        w = '%s, permutation of %d elements' % (mod, len(p))
        same(s.call('orbits', mod, cls, 'map_orbits_of_permutation', p), want, 'cycles: ' + w)
        r = s.call('orbits', mod, cls, 'orbit_start_and_length', p)
        need(isinstance(r, list), lambda: 'start and length: %s raised %s' % (w, r))
        same(sorted(r), [[k, len(c)] for k, c in want], 'start and length: ' + w)


@st.composite
def perms(draw):
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 80), st.sampled_from([255, 256, 257])))
    kind = draw(st.sampled_from(['random', 'random', 'types', 'types', 'shift', 'reverse', 'swaps']))
    if kind == 'random':
        seed = draw(st.integers(0, 1 << 24))
        p = sorted(range(n), key=lambda i: gen.det(8, seed, i))
    elif kind == 'shift':
        k = draw(st.integers(0, max(0, n - 1)))
        p = [(i + k) % n for i in range(n)]
    elif kind == 'reverse': p = list(range(n))[::-1]
    elif kind == 'swaps':
        p = list(range(n))
        if n:
            for a, b in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=6)): p[a], p[b] = p[b], p[a]
    else:                       # chosen cycle type on shuffled elements
        seed = draw(st.integers(0, 1 << 24))
        el = sorted(range(n), key=lambda i: gen.det(8, seed, i)) if draw(st.booleans()) else list(range(n))
        p = list(range(n)); i = 0
        while i < n:
            k = min(n - i, draw(st.integers(1, 6)))
            for j in range(k): p[el[i + j]] = el[i + (j + 1) % k]
            i += k
            if draw(st.integers(0, 9)) == 0 and n - i > 1:
                k = n - i
                for j in range(k): p[el[i + j]] = el[i + (j + 1) % k]
                i = n
    return p


@sub(strategy=perms, q=1200, t=30000, qs=3)
def permutations(s, p):
    check(s, p)
    n = len(cycles(p))
    return ['trivial'] if len(p) < 2 else ['one cycle' if n == 1 else 'identity' if n == len(p) else 'several cycles']


def small(tier):
    for n in range(0, 6 if tier == 'quick' else 8):
        for p in itertools.permutations(range(n)): yield list(p)
    if tier == 'quick':
        for i, p in enumerate(itertools.permutations(range(6))):
            if i % 3 == 0: yield list(p)


@sub(cases=small)
def all_small_permutations(s, p):
    check(s, p)
    return ['trivial'] if len(p) < 2 else []


@sub(cases=lambda tier: [[m, t] for m in ('analysis.sbox_analysis', 'analysis.permutation') for t in ('aes_sbbytes', 'sms4_sbbytes')])
def published_tables(s, c):
    want = list(raes.SBOX) if c[1] == 'aes_sbbytes' else sm4()
    x = s.call('attr', c[0], c[1])
    need(isinstance(x, list), lambda: '%s.%s: %r' % (c[0], c[1], x))
    for i, (a, b) in enumerate(zip(x, want)): need(a == b, lambda: '%s.%s[%d] is %s, the specification has %#x' % (c[0], c[1], i, a, b))
    same(len(x), 256, '%s.%s length' % tuple(c))
    check(s, want)


@sub(strategy=lambda: st.lists(st.tuples(perms(), st.booleans(), st.integers(0, 1)), min_size=1, max_size=3).flatmap(
    lambda l: st.lists(st.tuples(st.integers(0, len(l) - 1), st.integers(0, 1), st.booleans()), min_size=2, max_size=8).map(lambda ops: [[l[i][0], m, f] for i, m, f in ops])), q=250, t=8000)
def recurring_permutations(s, calls):
    """the same permutations again and again, the results overwritten in between"""
    for i, (p, m, f) in enumerate(calls):
        want = cycles(p)
        x = s.call('orbits', *MODS[m], 'orbit_start_and_length' if f else 'map_orbits_of_permutation', p)
        if f: need(isinstance(x, list) and sorted(x) == [[k, len(c)] for k, c in want], lambda: 'call %d: start and length of %s: got %s' % (i, show(p), show(x)))
        else: same(x, want, 'call %d: cycles of %s' % (i, show(p)))
    return ['trivial'] if all(len(c[0]) < 2 for c in calls) else []


@sub(cases=lambda tier: [[n, k] for n in gen.longs(tier, 5000, 70001) + [12289, 20000] for k in range(5)], qs=4)
def long_permutations(s, c):
    n, k = c
    if k == 0: p = sorted(range(n), key=lambda i: gen.det(8, 'long', n, i))
    elif k == 1: p = [(i + n // 3) % n for i in range(n)]
    elif k == 3: p = [(i + [1, n - 1, n // 2 + 1][n % 3]) % n for i in range(n)]
    elif k == 4:                # one cycle through everything in a scattered order, but for a few
        e = sorted(range(n), key=lambda i: gen.det(8, 'cycle', n, i))
        p = list(range(n))
        for i in range(n - 3): p[e[i]] = e[(i + 1) % (n - 3)]
    else: p = list(range(n - 1, -1, -1))
    check(s, p)
