from hypothesis import strategies as st

import gen
from core import sub, same, rejected, show
from sut import Exc

MODS = ['cipher.common', 'cipher.encoding', 'ecc.ecc']
FILES = ['cipher/common.py', 'cipher/encoding.py', 'ecc/ecc.py', 'ecc/numbertheory.py']
RULE = ('one value converted by all three copies with several paddings (or one pair of strings combined); '
        'trivial: the value 0 without padding, or two empty strings')


def minimal(v):
    return v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')


def mods(s):
    return [m for m in MODS if m != 'ecc.ecc' or s.has(m, 'int_to_string')]


def check_int(s, v, pads):
    m0 = minimal(v)
    items, want = [], []
    for mod in mods(s):
        items.append([mod, 'int_to_string', [v]]); want.append(m0)
        items.append([mod, 'string_to_int', [m0]]); want.append(v)
        for p in pads:
            ok = p >= len(m0)
            w = bytes(p - len(m0)) + m0 if ok else None
            items.append([mod, 'int_to_string', [v, p]]); want.append(w)
            items.append([mod, 'int_to_string', [v], {'padto': p}]); want.append(w)
            if ok: items.append([mod, 'string_to_int', [w]]); want.append(v)
        if v:
            items.append([mod, 'int_to_string', [-v]]); want.append(None)
            items.append([mod, 'int_to_string', [-v, len(m0) + 3]]); want.append(None)
    for it, w, x in zip(items, want, s.many(items)):
        what = '%s.%s(%s)' % (it[0], it[1], ', '.join(show(a, 60) for a in it[2]) + str(it[3] if len(it) > 3 else ''))
        if w is None: rejected(x, what)
        else: same(x, w, what)


@st.composite
def ints(draw):
    n = draw(st.sampled_from([8, 16, 24, 31, 32, 33, 63, 64, 65, 128, 160, 256, 384, 521, 1024, 2100]))
    v = draw(gen.bits(n))
    k = len(minimal(v))
    pads = [k + draw(st.sampled_from([0, 1, 2, 5, 16])), draw(st.integers(1, 80)), max(1, k - draw(st.integers(0, 3)))]
    return [v, pads]


@sub(strategy=ints, q=1500, t=40000, qs=3)
def integers(s, c):
    check_int(s, c[0], c[1])
    return ['octets<=%d' % (1 << len(minimal(c[0])).bit_length())]


def edges(tier):
    for v in range(0, 600): yield [v, [1, 2, 3, 4]]
    for k in range(0, 300 if tier == 'quick' else 1100):
        for d in (-1, 0, 1):
            v = (1 << k) + d
            n = len(minimal(v))
            yield [v, [max(1, n - 1), n, n + 1, n + 7]]
    for k in (2000, 4096, 8191, 8192, 20000): yield [(1 << k) + 1, [k // 8, k // 8 + 1, k // 8 + 2]]
    if tier == 'thorough':
        for v in range(600, 70000, 7): yield [v, [1, 2, 3]]


@sub(cases=edges)
def edge_integers(s, c):
    check_int(s, c[0], c[1])
    return ['trivial'] if c[0] == 0 else []


@sub(strategy=lambda: st.lists(st.builds(lambda z, b: bytes(z) + b, st.integers(0, 20), gen.octets(200, *FILES)), min_size=1, max_size=5), q=600, t=20000)
def octet_strings(s, bs):
    for mod in mods(s):
        items = [[mod, 'string_to_int', [b]] for b in bs]
        vals = s.many(items)
        for b, v in zip(bs, vals): same(v, int.from_bytes(b, 'big'), '%s.string_to_int of %d octets' % (mod, len(b)))
        back = s.many([[mod, 'int_to_string', [v, len(b)]] for b, v in zip(bs, vals)])
        for b, x in zip(bs, back):
            if b: same(x, b, '%s: octets -> integer -> octets' % mod)


@st.composite
def pairs(draw):
    a = draw(gen.octets(200, *FILES))
    k = draw(st.integers(0, 4))
    if k <= 1: b = draw(gen.fixed(len(a)))
    elif k == 2: b = a
    else: b = draw(gen.octets(200, *FILES))
    return [a, b]


@sub(strategy=pairs, q=1200, t=30000, qs=2)
def xor_helpers(s, c):
    a, b = c
    want = bytes(x ^ y for x, y in zip(a, b))
    for mod in ('cipher.common', 'cipher.aes_cmac', 'cipher.aes_siv', 'hash.hmac'):
        if mod != 'cipher.common' and not s.has(mod, 'xor'): continue
        for u, v in ((a, b), (b, a)):
            x = s.f(mod, 'xor', u, v)
            if len(a) == len(b): same(x, want, '%s.xor' % mod)
            else: rejected(x, '%s.xor of %d and %d octets' % (mod, len(u), len(v)))
    if s.has('cipher.common', 'xor_min'):
        for u, v in ((a, b), (b, a)): same(s.f('cipher.common', 'xor_min', u, v), want, 'xor_min of %d and %d octets' % (len(u), len(v)))
    return ['equal length' if len(a) == len(b) else 'unequal length'] + (['trivial'] if not a and not b else [])


def all_pairs(tier):
    for a in range(256): yield a


@sub(cases=all_pairs)
def xor_of_every_octet_pair(s, a):
    u = bytes([a]) * 256; v = bytes(range(256))
    w = bytes(a ^ i for i in range(256))
    same(s.f('cipher.common', 'xor', u, v), w, 'xor')
    same(s.f('cipher.common', 'xor_min', u, v + b'x'), w, 'xor_min')


@sub(cases=lambda tier: gen.longs(tier, 4097, 20011), qs=2)
def long_strings(s, n):
    b = gen.det(n, 'long')
    for t in (b, b'\0' * 9 + b, bytes(n), b'\xff' * n, b[:-8] + bytes(8)): 
        v = int.from_bytes(t, 'big')
        for mod in mods(s):
            same(s.f(mod, 'string_to_int', t), v, '%s.string_to_int of %d octets' % (mod, len(t)))
            same(s.f(mod, 'int_to_string', v, len(t)), t, '%s.int_to_string padded to %d' % (mod, len(t)))
            same(s.f(mod, 'int_to_string', v), minimal(v), '%s.int_to_string of %d octets' % (mod, len(t)))
            same(s.f(mod, 'int_to_string', v, 2 * n + 20), bytes(2 * n + 20 - len(minimal(v))) + minimal(v), '%s.int_to_string padded to %d' % (mod, 2 * n + 20))


@sub(cases=lambda tier: gen.longs(tier, 70001, 262145))
def xor_of_long_strings(s, n):
    a, b = gen.det(n, 'a'), gen.det(n, 'b')
    w = bytes(x ^ y for x, y in zip(a, b))
    for name in ('xor', 'xor_min'): same(s.f('cipher.common', name, a, b), w, '%s of %d octets' % (name, n))
    rejected(s.f('cipher.common', 'xor', a, b[:-1]), 'xor of %d and %d octets' % (n, n - 1))
    same(s.f('cipher.common', 'xor_min', a, b[:-300]), w[:-300], 'xor_min of %d and %d octets' % (n, n - 300))
