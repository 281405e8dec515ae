"""Elliptic curves, written from the group-law definitions; points are (x, y), the point at infinity is None.
User-defined test curves of known order: all curves over tiny fields (counted), supersingular curves, and curves with
complex multiplication by an order of class number one (orders follow from the norm equation, and are confirmed by
multiplying random points)."""
import functools
import hashlib
from math import isqrt, gcd

from rprime import is_prime, jacobi


def h(*tag):
    return int.from_bytes(hashlib.shake_128(repr(tag).encode()).digest(96), 'big')


def long_int(bits, seed):
    """a number of exactly that many bits: arbitrary, a power of two, or all ones"""
    if seed % 5 == 0: return 1 << (bits - 1)
    if seed % 5 == 1: return (1 << bits) - 1 - (seed // 5 % 3)
    v = int.from_bytes(hashlib.shake_128(b'long%d/%d' % (bits, seed)).digest((bits + 7) // 8), 'big')
    return v & ((1 << bits) - 1) | 1 << (bits - 1)


def sqrt_mod(a, p):
    """a root of a modulo the prime p, or None (Cipolla)"""
    a %= p
    if a == 0: return 0
    if p == 2: return a
    if jacobi(a, p) != 1: return None
    if p % 4 == 3: return pow(a, (p + 1) // 4, p)
    t = 0
    while jacobi(t * t - a, p) != -1:
        if (t * t - a) % p == 0: return t
        t += 1
    w = (t * t - a) % p
    def mul(x, y): return (x[0] * y[0] + x[1] * y[1] * w) % p, (x[0] * y[1] + x[1] * y[0]) % p
    r, b, e = (1, 0), (t, 1), (p + 1) // 2
    while e:
        if e & 1: r = mul(r, b)
        b = mul(b, b); e >>= 1
    assert r[1] == 0 and r[0] * r[0] % p == a
    return r[0]


def cubic_root(c2, c1, c0, p, seed=0):
    """a root of x^3 + c2 x^2 + c1 x + c0 modulo the prime p > 3, or None"""
    def mul(u, v, f):
        # modulo the monic f (lowest coefficient first)
        n = len(f) - 1
        r = [0] * (len(u) + len(v) - 1 if u and v else 0)
        for i, x in enumerate(u):
            for j, y in enumerate(v): r[i + j] += x * y
        r = [x % p for x in r]
        while len(r) > n:
            t = r.pop()
            for i in range(n): r[len(r) - n + i] = (r[len(r) - n + i] - t * f[i]) % p
        return trim(r)
    def trim(u):
        while u and not u[-1]: u.pop()
        return u
    def power(b, e, f):
        r = trim([1])
        for bit in bin(e)[2:]:
            r = mul(r, r, f)
            if bit == '1': r = mul(r, b, f)
        return r
    def monic(u):
        i = pow(u[-1], -1, p)
        return [x * i % p for x in u]
    def gcd_(u, v):
        while v:
            v = monic(v)
            u, v = v, mul(u, [1], v) if len(v) > 1 else []
        return monic(u)
    def minus(u, v):
        n = max(len(u), len(v))
        return trim([((u[i] if i < len(u) else 0) - (v[i] if i < len(v) else 0)) % p for i in range(n)])
    f = [c0 % p, c1 % p, c2 % p, 1]
    d = minus(power([0, 1], p, f), [0, 1])
    f = gcd_(f, d) if d else f
    i = 0
    while len(f) > 2:
        t = h('cz', p, seed, i) % p; i += 1
        d = minus(power([t, 1], (p - 1) // 2, f), [1])
        if not d: continue
        g = gcd_(f, d)
        if 1 < len(g) < len(f): f = g
    return -f[0] % p if len(f) == 2 else None


class Group:
    O = None

    def mul(self, k, P):
        if k < 0: k, P = -k, self.neg(P)
        R = self.O
        for b in bin(k)[2:]:
            R = self.add(R, R)
            if b == '1': R = self.add(R, P)
        return R

    def sub(self, P, Q): return self.add(P, self.neg(Q))

    def pts(self):
        """all points, the identity included (tiny fields)"""
        p = self.p
        r = [(x, y) for x in range(p) for y in range(p) if self.on(x, y)]
        return r if self.O is not None else [None] + r


class W(Group):
    kind = 'W'

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a % p, b % p

    def on(self, x, y): return (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def ok(self): return (4 * self.a ** 3 + 27 * self.b ** 2) % self.p != 0

    def neg(self, P): return P and (P[0], -P[1] % self.p)

    def add(self, P, Q):
        if P is None: return Q
        if Q is None: return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0: return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p)
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def lift(self, x):
        y = sqrt_mod(x ** 3 + self.a * x + self.b, self.p)
        return None if y is None else (x, y)

    def lift2(self, y):
        """a point with this other coordinate, or None"""
        x = cubic_root(0, self.a, self.b - y * y, self.p)
        return None if x is None else (x, y % self.p)

    def chord(self, P, l):
        """another point on the line of slope l through P, or None (the slope is then the one their addition uses)"""
        p, s2 = self.p, (self.a if self.kind == 'M' else 0)
        # x1 + x2 + x3 = l^2 - s2;  x1 x2 + x1 x3 + x2 x3 = s1 - 2 l (y1 - l x1)
        s1 = 1 if self.kind == 'M' else self.a
        S = (l * l - s2 - P[0]) % p
        D = (s1 - 2 * l * (P[1] - l * P[0]) - P[0] * S) % p
        r = sqrt_mod(S * S - 4 * D, p)
        if r is None: return None
        x = (S + r) * pow(2, -1, p) % p
        Q = (x, (P[1] + l * (x - P[0])) % p)
        return Q if x != P[0] and self.on(*Q) else None

    def rand(self, seed):
        """an affine point; about one in two has the larger y"""
        i = 0
        while True:
            v = h('pt', seed, i)
            P = self.lift(v % self.p)
            if P: return P if v >> 700 & 1 else (P[0], -P[1] % self.p)
            i += 1

    def spec(self, n=None, G=None):
        d = dict(p=self.p, a=self.a, b=self.b)
        if n is not None: d['n'] = n
        if G: d['xG'], d['yG'] = G
        if self.a == 0 and self.b % 2:      # as a Koblitz curve, whose class has a = 0
            del d['a']
            return ['K', d]
        return ['W', d]


class M(Group):
    kind = 'M'

    def __init__(self, p, a):
        self.p, self.a = p, a % p

    def on(self, x, y): return (y * y - x * x * x - self.a * x * x - x) % self.p == 0

    def ok(self): return (self.a ** 2 - 4) % self.p != 0

    neg = W.neg

    def add(self, P, Q):
        if P is None: return Q
        if Q is None: return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0: return None
            l = (3 * P[0] * P[0] + 2 * self.a * P[0] + 1) * pow(2 * P[1], -1, p)
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
        x = (l * l - self.a - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def lift(self, x):
        y = sqrt_mod(x ** 3 + self.a * x * x + x, self.p)
        return None if y is None else (x, y)

    def lift2(self, y):
        x = cubic_root(self.a, 1, -y * y, self.p)
        return None if x is None else (x, y % self.p)

    chord = W.chord
    rand = W.rand

    def spec(self, n=None, G=None):
        d = dict(p=self.p, a=self.a)
        if n is not None: d['n'] = n
        if G: d['xG'], d['yG'] = G
        return ['M', d]


class T(Group):
    """twisted Edwards; a = 1 also as Edwards"""
    O = (0, 1)

    def __init__(self, p, a, d, kind='T'):
        self.p, self.a, self.d, self.kind = p, a % p, d % p, kind
        assert kind == 'T' or a % p == 1

    def on(self, x, y): return (self.a * x * x + y * y - 1 - self.d * x * x * y * y) % self.p == 0

    def ok(self):
        """complete addition law"""
        return self.a != self.d and jacobi(self.a, self.p) == 1 and jacobi(self.d, self.p) == -1

    def neg(self, P): return -P[0] % self.p, P[1]

    def add(self, P, Q):
        p = self.p
        t = self.d * P[0] * Q[0] % p * P[1] * Q[1] % p
        i = pow((1 + t) * (1 - t), -1, p)
        return ((P[0] * Q[1] + Q[0] * P[1]) * i * (1 - t) % p, (P[1] * Q[1] - self.a * P[0] * Q[0]) * i * (1 + t) % p)

    def lift(self, y):
        # x^2 (a - d y^2) = 1 - y^2
        den = (self.a - self.d * y * y) % self.p
        if den == 0: return None
        x = sqrt_mod((1 - y * y) * pow(den, -1, self.p), self.p)
        return None if x is None else (x, y)

    def lift2(self, x):
        den = (1 - self.d * x * x) % self.p
        if den == 0: return None
        y = sqrt_mod((1 - self.a * x * x) * pow(den, -1, self.p), self.p)
        return None if y is None else (x % self.p, y)

    def chord(self, P, l): return None

    def rand(self, seed):
        i = 0
        while True:
            v = h('pt', seed, i)
            P = self.lift(v % self.p)
            if P: return P if v >> 700 & 1 else (-P[0] % self.p, P[1])
            i += 1

    def spec(self, n=None, G=None):
        d = dict(p=self.p, d=self.d)
        if self.kind == 'T': d['a'] = self.a
        if n is not None: d['n'] = n
        if G: d['xG'], d['yG'] = G
        return [self.kind, d]


def of_params(kind, r):
    """a published curve from its class attributes"""
    if kind in 'WK': return W(r['p'], r['a'], r['b'])
    if kind == 'M': return M(r['p'], r['a'])
    return T(r['p'], r['a'] if kind == 'T' else 1, r['d'], kind)


# ---------------------------------------------------------------- curves of known order
def cm_prime(D, bits, seed, res, mod):
    """p of this many bits and t with 4p = t^2 + |D| v^2, p = res modulo mod (res None: any)"""
    i = 0
    while True:
        x = h('cm', D, bits, seed, i); i += 1
        hb = max(2, bits // 2 + 1)
        t = x & ((1 << hb) - 1)
        v = (x >> hb) & ((1 << max(1, hb - D.bit_length() // 2)) - 1)
        n = t * t + D * v * v
        if v == 0 or n % 4: continue
        p = n // 4
        if p.bit_length() != bits or p < 11 or (res is not None and p % mod not in res): continue
        if is_prime(p): return p, t, v


def orders(p, D, t, v):
    ts = {t}
    if D == 4: ts |= {v * 2}                    # t = 2a, v = b, p = a^2 + b^2
    if D == 3: ts |= {(t + 3 * v) // 2, (t - 3 * v) // 2}
    return sorted({p + 1 + s * u for u in ts for s in (1, -1)})


def settle(g, cand, seed):
    """the candidate order that fits (and a few random points confirm)"""
    cand = [n for n in cand if n > 0]
    for i in range(40):
        P = g.rand(('order', seed, i))
        cand = [n for n in cand if g.mul(n, P) == g.O]
        if i >= 3 and len(cand) == 1: break
    return cand[0] if cand else None            # several left: each of them annihilates (probably) every point


JW = {7: -3375, 8: 8000, 11: -32768, 12: 54000, 16: 287496, 19: -884736, 27: -12288000, 28: 16581375, 43: -884736000,
      67: -147197952000, 163: -262537412640768000}


@functools.lru_cache(4096)
def w_curve(bits, seed):
    """-> (curve, order, label): short Weierstrass, any coefficients shape"""
    x = h('w', bits, seed)
    kind = x % 16
    c = x >> 16
    if kind == 0:
        p = supersingular_prime(bits, seed, 2, 3)
        g = W(p, 0, c % (p - 1) + 1); return g, p + 1, 'a=0, supersingular'
    if kind == 1:
        p = supersingular_prime(bits, seed, 3, 4)
        g = W(p, c % (p - 1) + 1, 0); return g, p + 1, 'b=0, supersingular'
    i = 0
    while True:
        i += 1
        D = {2: 3, 3: 3, 4: 4}.get(kind) or sorted(JW)[(x >> 8) % len(JW)]
        p, t, v = cm_prime(D, bits, (seed, i), None, 1)
        c = h('wc', bits, seed, i) % (p - 1) + 1
        if D == 3: g = W(p, 0, c)
        elif D == 4: g = W(p, c, 0)
        else:
            j = JW[D] % p
            if j == 0 or j == 1728 % p: continue
            k = j * pow(1728 - j, -1, p) % p
            g = W(p, 3 * k * c * c, 2 * k * c ** 3)
            if kind == 5 or kind == 6:                      # a = -3, when the class allows it
                s = sqrt_mod(-pow(k, -1, p), p)
                if s is not None: g = W(p, -3, 2 * k * s ** 3)
        if not g.ok(): continue
        o = D
        if D in (12, 27): o = 3; 
        if D == 16: o = 4
        if D == 28: o = 7
        t2, v2 = t, v * isqrt(D // o)
        n = settle(g, orders(p, D, t, v), seed)
        if n: return g, n, 'D=-%d' % D


@functools.lru_cache(4096)
def supersingular_prime(bits, seed, res, mod):
    i = 0
    while True:
        v = h('ss', bits, seed, res, mod, i) & ((1 << bits) - 1) | (1 << (bits - 1)) | 1; i += 1
        v += (res - v) % mod
        if v % 2 and v.bit_length() == bits and v > 3 and is_prime(v): return v


# Montgomery coefficient of the curve with complex multiplication by -D: (residues of p, function giving A)
MA = {4: lambda p: 0, 8: lambda p: ratio(2, sqrt_mod(2, p), 2, p), 12: lambda p: ratio(-2, sqrt_mod(-3, p), 1, p),
      16: lambda p: 6, 28: lambda p: ratio(-6, sqrt_mod(-7, p), 1, p), 7: lambda p: ratio(-21, inv(sqrt_mod(7, p), p), 4, p)}


def inv(x, p): return None if not x else pow(x, -1, p)


def ratio(a, r, d, p):
    return None if r is None else a * r * (2 if d == 2 else 1) * pow(4 if d == 4 else 2 if d == 2 else 1, -1, p) % p


@functools.lru_cache(4096)
def m_curve(bits, seed):
    x = h('m', bits, seed)
    if x % 8 == 0:
        p = supersingular_prime(bits, seed, 3, 4)
        return M(p, 0), p + 1, 'a=0, supersingular'
    D = sorted(MA)[(x >> 8) % len(MA)]
    i = 0
    while True:
        i += 1
        p, t, v = cm_prime(D, bits, (seed, i), None, 1)
        A = MA[D](p)
        if A is None: continue
        if x >> 20 & 1: A = -A % p
        g = M(p, A)
        if not g.ok(): continue
        n = settle(g, orders(p, D, t, v), seed)
        if n: return g, n, 'D=-%d' % D


@functools.lru_cache(4096)
def t_curve(bits, seed, kind):
    """complete (twisted) Edwards curve and its order"""
    x = h('t', bits, seed, kind)
    if x % 8 == 0:
        if kind == 'E':
            p = supersingular_prime(bits, seed, 3, 4); return T(p, 1, -1, 'E'), p + 1, 'd=-1, supersingular'
        p = supersingular_prime(bits, seed, 7, 8); c = h('tc', bits, seed) % (p - 1) + 1
        return T(p, 2 * c * c, -2 * c * c), p + 1, 'd=-a, supersingular'
    i = 0
    while True:
        i += 1
        D = sorted(MA)[h('td', bits, seed, i) % len(MA)]
        p, t, v = cm_prime(D, bits, (seed, i), None, 1)
        A = MA[D](p)
        if A is None: continue
        if h('ts', seed, i) & 1: A = -A % p
        if (A + 2) % p == 0 or (A - 2) % p == 0: continue
        c = h('tc', bits, seed, i) % (p - 1) + 1
        if kind == 'E': g = T(p, 1, (A - 2) * pow(A + 2, -1, p), 'E')
        else: g = T(p, (A + 2) * c * c, (A - 2) * c * c)
        if x >> 30 & 3 == 0 and kind == 'T':    # a = -1
            if p % 4 != 1: continue
            s = -pow(A + 2, -1, p) % p
            g = T(p, -1, (A - 2) * s)
        if not g.ok(): continue
        n = settle(g, orders(p, D, t, v), seed)
        if n: return g, n, 'D=-%d' % D


@functools.lru_cache(None)
def tiny(kind, p):
    """every curve of the kind over the field of p elements, with its points"""
    r = []
    if kind == 'W': gs = [W(p, a, b) for a in range(p) for b in range(p)]
    elif kind == 'M': gs = [M(p, a) for a in range(p)]
    elif kind == 'E': gs = [T(p, 1, d, 'E') for d in range(2, p)]
    else: gs = [T(p, a, d) for a in range(1, p) for d in range(1, p)]
    return [g for g in gs if g.ok()]


@functools.lru_cache(4096)
def tiny_exponent(kind, p, i):
    """exponent of the group and its order"""
    g = tiny(kind, p)[i]
    n = len(g.pts())
    return n
