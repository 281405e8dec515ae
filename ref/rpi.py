"""pi by Machin's formula, in integers (independent of the library's digits)"""
import functools


def arctan_inv(x, unity):
    s = t = unity // x
    n = 3; x2 = x * x; sign = -1
    while t:
        t //= x2
        s += sign * (t // n)
        sign = -sign; n += 2
    return s


@functools.lru_cache(None)
def digits(n):
    """floor(pi * 10^n); 30 guard digits"""
    u = 10 ** (n + 30)
    v = 4 * (4 * arctan_inv(5, u) - arctan_inv(239, u))
    g = v % 10 ** 30
    assert 10 ** 10 < g < 10 ** 30 - 10 ** 10
    return v // 10 ** 30
