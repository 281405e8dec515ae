"""Histories of calls of pure functions over few, recurring, easily confused arguments: an answer must not depend on what
was asked before, nor on what the caller did to earlier answers (the worker overwrites them)."""
from hypothesis import strategies as st

import gen
from core import need, show
from sut import Exc


@st.composite
def pool(draw, base, lo=None, n=4):
    """values of base and neighbours that agree with them in some way"""
    out = [draw(base)]
    for _ in range(draw(st.integers(1, n))):
        x = out[draw(st.integers(0, len(out) - 1))]
        k = draw(st.sampled_from(['new', 'low', 'low', 'neg', 'step', 'double', 'bit', 'digits', 'square']))
        if k == 'new': y = draw(base)
        elif k == 'low': y = x + (draw(st.integers(1, 3)) << draw(st.sampled_from([8, 16, 31, 32, 53, 63, 64, 128, 256])))
        elif k == 'neg': y = -x
        elif k == 'step': y = x + draw(st.integers(-2, 2))
        elif k == 'double': y = 2 * x
        elif k == 'bit': y = x ^ (1 << draw(st.integers(0, max(1, x.bit_length() - 1))))
        elif k == 'digits': y = int(str(abs(x))[::-1])
        else: y = x * x if x.bit_length() < 300 else x + 1
        if lo is None or y >= lo: out.append(y)
    return out


def run(s, calls, same=None):
    """calls: [module, function, args, expected, ...]; expected: a value, 'error', or a predicate on the result"""
    r = s.many([c[:3] for c in calls])
    need(not isinstance(r, Exc), lambda: str(r))
    for i, (c, x) in enumerate(zip(calls, r)):
        w = c[3]
        if isinstance(w, str) and w == 'error': ok = isinstance(x, Exc)
        elif callable(w): ok = w(x)
        else: ok = not isinstance(x, Exc) and x == w and isinstance(x, bytes) == isinstance(w, bytes)
        need(ok, lambda: 'call %d of %s: %s%s: got %s%s' % (i, show([c[1:3] for c in calls[:i + 1]], 900), c[1], show(tuple(c[2])), show(x),
                                                             '' if callable(w) else ', expected %s' % show(w)))
