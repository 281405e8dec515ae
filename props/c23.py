import sys
from fractions import Fraction

from hypothesis import strategies as st

import gen
import rpi
from core import sub, same, need, rejected
from sut import Exc

sys.set_int_max_str_digits(0)
MOD = 'fmath.pi'
RULE = 'one block of the digit string, or one fraction pi(d), compared with independently computed digits; no case is trivial'


def string(s):
    x = s.call('attr', MOD, 'pi_string')
    need(isinstance(x, bytes) and len(x) > 10, lambda: 'pi_string: %r' % (x,))
    return x


@sub(cases=lambda tier: [0] + list(range(1, 51)))
def digit_string(s, k):
    """block k of 1000 digits; block 0: form and length"""
    x = string(s)
    n = len(x) - 2
    if k == 0:
        need(x[:2] == b'3.' and x[2:].isdigit(), 'pi_string does not have the form 3.ddd')
        need(n >= 50000, 'pi_string has only %d digits' % n)
        return ['form']
    ref = str(rpi.digits(max(n, 50000) + 5))[1:]
    a, b = 1000 * (k - 1), 1000 * k
    if k == 50: b = n
    got, want = x[2 + a:2 + b].decode('latin-1'), ref[a:b]
    for i, (g, w) in enumerate(zip(got, want)): need(g == w, lambda: 'digit %d of pi is %s, expected %s' % (a + i + 1, g, w))
    same(got, want, 'digits %d to %d' % (a + 1, b))


def check(s, d, n):
    r = s.call('pi_frac', d)
    need(not isinstance(r, Exc), lambda: 'pi(%s) raised %s' % (d, r))
    k = n if d is None else d
    want = Fraction(int(str(rpi.digits(50005))[:k + 1]), 10 ** k)
    need(r[1] > 0 and r[0] * want.denominator == want.numerator * r[1], lambda: 'pi(%s) is not the fraction of the first %d decimals' % (d, k))


def ds(tier):
    top = 80 if tier == 'quick' else 600
    for d in range(1, top): yield [d]
    for d in (99, 100, 101, 499, 500, 501, 999, 1000, 1001, 1999, 2000, 4999, 5000, 5001, 9999, 10000): yield [d]
    if tier == 'thorough':
        for d in range(600, 3000, 11): yield [d]
        for d in (20000, 30000, 45000): yield [d]


@sub(cases=ds)
def fractions(s, c):
    check(s, c[0], None)


@sub(cases=lambda tier: [[None], [50000], [49999]], qs=3)
def all_digits(s, c):
    n = len(string(s)) - 2
    check(s, c[0], n)


@sub(strategy=lambda: st.one_of(st.integers(1, 3000), st.integers(1, 10000)), q=60, t=1500)
def random_accuracy(s, d):
    check(s, d, None)


@sub(cases=lambda tier: [1, 2, 3, 10, 50, 1000, 50000, 10 ** 6])
def too_many_digits(s, k):
    n = len(string(s)) - 2
    rejected(s.call('pi_frac', n + k), 'pi(%d) with %d stored digits' % (n + k, n))


@sub(strategy=lambda: st.lists(st.one_of(st.integers(1, 40), st.sampled_from([1, 10, 100, 1000, 999, 1001, 3000])), min_size=3, max_size=10), q=40, t=800)
def any_order_of_accuracies(s, l):
    for d in l: check(s, d, None)
