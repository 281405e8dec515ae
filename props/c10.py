import string

from hypothesis import strategies as st

import gen
import hist
from core import sub, same, need, rejected
from sut import Exc

MOD = 'cipher.encoding'
F = 'cipher/encoding.py'
RULE = 'one octet string encoded and decoded in all three bases with and without padding; trivial: the empty string'

B27 = b'ABCDEFGHJKMNPQRTWXYZ2346789'
B85 = (string.digits + string.ascii_uppercase + string.ascii_lowercase + '!#$%&()*+-;<=>?@^_`{|}~').encode()
B94 = bytes(range(33, 127))
assert len(B27) == 27 and len(B85) == 85 and len(B94) == 94
BASES = {'b27': B27, 'b85': B85, 'b94': B94}


def ref_encode(b, al):
    v = int.from_bytes(b, 'big'); o = bytearray()
    while v: v, r = divmod(v, len(al)); o.append(al[r])
    return bytes(o[::-1])


def ref_value(t, al):
    v = 0
    for ch in t: v = v * len(al) + al.index(ch)
    return v


def minimal(v): return v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')


def check(s, b, extra):
    v = int.from_bytes(b, 'big')
    m = minimal(v)
    items, want = [], []
    for n, al in BASES.items():
        t = ref_encode(b, al)
        items.append([MOD, n + 'encode', [b]]); want.append(t)
        items.append([MOD, n + 'decode', [t]]); want.append(m)
        items.append([MOD, n + 'decode', [t], {'padto': None}]); want.append(m)
        if b:
            items.append([MOD, n + 'decode', [t, len(b)]]); want.append(b)
            items.append([MOD, n + 'decode', [t], {'padto': len(b)}]); want.append(b)
        items.append([MOD, n + 'decode', [t, len(m) + extra]]); want.append(bytes(extra) + m)
        # leading zero digits do not change the value
        items.append([MOD, n + 'decode', [al[:1] * extra + t]]); want.append(m)
    for it, w, x in zip(items, want, s.many(items)):
        same(x, w, '%s of %s' % (it[1], ', '.join(str(a)[:80] for a in it[2])))


@sub(strategy=lambda: st.tuples(st.builds(lambda z, b: bytes(z) + b, st.sampled_from([0, 0, 0, 1, 2, 5, 16]), gen.octets(120, F)), st.integers(1, 9)), q=1500, t=40000, qs=3)
def octets(s, c):
    check(s, c[0], c[1])
    return ['trivial'] if not c[0] else ['leading zero' if c[0][0] == 0 else 'no leading zero']


def edges(tier):
    yield [b'', 1]
    for a in range(256): yield [bytes([a]), 1]
    for a in (0, 1, 26, 27, 28, 84, 85, 86, 93, 94, 95, 255):
        for b in range(256): yield [bytes([a, b]), 2]
    for n in range(0, 70): yield [bytes(n), 1]; yield [b'\xff' * (n + 1), 3]
    for base in (27, 85, 94):
        for k in range(1, 60 if tier == 'quick' else 200):
            for d in (-1, 0, 1): yield [minimal(base ** k + d), 1]
    for k in range(0, 130): yield [minimal(1 << k), 1]; yield [bytes(3) + minimal((1 << k) - 1), 2]
    for n in (200, 500, 1000): yield [gen.det(n, 'b'), 1]
    if tier == 'thorough':
        for a in range(65536): yield [bytes([a >> 8, a & 255]), 1]


@sub(cases=edges, qs=2)
def edge_values(s, c):
    check(s, c[0], c[1])
    return ['trivial'] if not c[0] else []


@st.composite
def texts(draw):
    n = draw(st.sampled_from(sorted(BASES)))
    al = BASES[n]
    t = bytes(draw(st.lists(st.sampled_from(list(al)), max_size=60)))
    bad = draw(st.integers(0, 2)) == 0
    if bad:
        ch = draw(st.one_of(st.sampled_from([0, 10, 32, 127, 128, 255, 34, 39, 44, 46, 47, 58, 91, 92, 93, 48, 49, 53, 73, 76, 79, 83, 85, 86]), st.integers(0, 255)))
        i = draw(st.integers(0, len(t)))
        t = t[:i] + bytes([ch]) + t[i:]
    return [n, t, draw(st.integers(1, 60))]


@sub(strategy=texts, q=1200, t=30000, qs=2)
def decode_texts(s, c):
    n, t, pad = c
    al = BASES[n]
    x, y = s.many([[MOD, n + 'decode', [t]], [MOD, n + 'decode', [t, pad]]])
    if any(ch not in al for ch in t):
        rejected(x, '%sdecode(%r)' % (n, t)); rejected(y, '%sdecode(%r, %d)' % (n, t, pad))
        return ['outside alphabet']
    m = minimal(ref_value(t, al))
    same(x, m, '%sdecode(%r)' % (n, t))
    if len(m) > pad: rejected(y, '%sdecode(%r, %d)' % (n, t, pad))
    else: same(y, bytes(pad - len(m)) + m, '%sdecode(%r, %d)' % (n, t, pad))
    z = s.f(MOD, n + 'encode', x)
    same(z, t.lstrip(al[:1]), '%s text -> octets -> text' % n)
    return ['trivial'] if not t else ['inside alphabet']


def chars(tier):
    for n in sorted(BASES):
        for ch in range(256): yield [n, ch]


@sub(cases=chars)
def every_character(s, c):
    n, ch = c
    al = BASES[n]
    for t in (bytes([ch]), al[1:4] + bytes([ch]), bytes([ch]) + al[2:9], al[3:4] + bytes([ch]) + al[5:6]):
        x = s.f(MOD, n + 'decode', t)
        if ch in al: same(x, minimal(ref_value(t, al)), '%sdecode(%r)' % (n, t))
        else: rejected(x, '%sdecode(%r)' % (n, t))
    return ['in' if ch in al else 'out']


@st.composite
def recurring(draw):
    """texts that are valid in several alphabets, the same octets in several bases, with several paddings"""
    v = [draw(gen.octets(12)) for _ in range(2)]
    v += [b'\0' + v[0], v[0] + b'\0', v[1][1:]]
    t = [ref_encode(v[0], B27), ref_encode(v[1], B27)[:6], b'AB', bytes(draw(st.lists(st.sampled_from(list(B27)), max_size=8)))]
    return [[n, f, draw(st.sampled_from(v if f == 'encode' else t)), draw(st.sampled_from([None, None, 8, 16, 20]))]
            for n, f in draw(st.lists(st.tuples(st.sampled_from(sorted(BASES)), st.sampled_from(['encode', 'decode', 'decode'])), min_size=3, max_size=14))]


@sub(strategy=recurring, q=400, t=12000)
def recurring_arguments(s, calls):
    l = []
    for n, f, x, pad in calls:
        al = BASES[n]
        if f == 'encode': l.append([MOD, n + f, [x], ref_encode(x, al)])
        else:
            m = minimal(ref_value(x, al))
            l.append([MOD, n + f, [x], m] if pad is None else [MOD, n + f, [x, pad], m.rjust(pad, b'\0') if len(m) <= pad else 'error'])
    hist.run(s, l)


@sub(cases=lambda tier: [[n, z] for n in (120, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1023, 1024, 1025, 1500) + ((2048, 3000, 4096, 4097) if tier == 'thorough' else ()) for z in (0, 3, n)], qs=4)
def long_strings(s, c):
    n, z = c
    check(s, bytes(z) + gen.det(n, 'long'), 5)
