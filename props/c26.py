import hashlib
import hmac

from hypothesis import strategies as st

import gen
import hist
from core import sub, same, need, rejected
from sut import Exc

F = 'hash/prf_dot11.py'
MOD = 'hash.prf_dot11'
RULE = 'one PRF output compared with the definition; trivial: 0 bits'


def ref(key, label, data, n):
    out = b''
    i = 0
    while len(out) < n:
        out += hmac.new(key, label + b'\0' + data + bytes([i]), 'sha1').digest(); i += 1
    return out[:n]


def check(s, key, label, data, bits):
    x = s.f(MOD, 'PRF', key, label, data, bits)
    w = 'PRF(%d-octet key, %d-octet label, %d-octet data, %d bits)' % (len(key), len(label), len(data), bits)
    if bits % 8: rejected(x, w)
    else: same(x, ref(key, label, data, bits // 8), w)


BITS = [0, 8, 120, 128, 152, 160, 168, 192, 256, 312, 320, 328, 384, 472, 480, 488, 512, 640, 768, 800, 1600, 20480, 20320, 40800, 40000]


@st.composite
def cases(draw):
    bits = draw(st.one_of(st.sampled_from(BITS[:20]), st.integers(0, 200).map(lambda v: 8 * v), st.integers(0, 5000).map(lambda v: 8 * v),
                          st.integers(0, 2000)))
    return [draw(gen.octets(200, F)), draw(st.one_of(gen.octets(60), gen.texts(30), st.sampled_from([b'Pairwise key expansion', b'Group key expansion', b'Init Counter', b'']))),
            draw(gen.octets(200, F)), bits]


@sub(strategy=cases, q=1500, t=40000, qs=3)
def random_inputs(s, c):
    check(s, *c)
    return ['trivial'] if c[3] == 0 else ['bits%8!=0' if c[3] % 8 else 'blocks=%s' % min(9, (c[3] + 159) // 160)]


def sweep(tier):
    for n in range(0, 2100 if tier == 'quick' else 9000): yield [b'key', b'label', b'data', n]
    for n in range(2048, 40001, 1600 if tier == 'quick' else 8): yield [gen.det(32, n), b'Pairwise key expansion', gen.det(76, n), n]
    for n in (39840, 39920, 40000, 20160, 20320, 20480, 20640, 40000): yield [gen.det(20, n), b'x', gen.det(9, n), n]
    for n in range(0, 140): yield [gen.det(n, 'k'), gen.det(n % 7, 'l'), gen.det(n % 11, 'd'), 512]
    for n in range(0, 70): yield [b'k', gen.det(n, 'l'), gen.det(70 - n, 'd'), 192]


@sub(cases=sweep, qs=2)
def all_lengths(s, c):
    check(s, *c)
    return ['trivial'] if c[3] == 0 else ['bits%8!=0' if c[3] % 8 else 'accepted']


@sub(strategy=lambda: st.tuples(gen.octets(100, F), gen.octets(50), gen.octets(100)), q=400, t=8000)
def named_lengths(s, c):
    ns = (128, 192, 256, 384, 512, 768)
    for n, x in zip(ns, s.many([[MOD, 'PRF_%d' % n, list(c)] for n in ns])):
        same(x, ref(c[0], c[1], c[2], n // 8), 'PRF_%d' % n)


@sub(strategy=lambda: st.tuples(gen.octets(70), gen.octets(30), gen.octets(90), st.integers(0, 300), st.integers(0, 300)), q=300, t=5000)
def shorter_outputs_are_prefixes(s, c):
    k, l, d, a, b = c
    a, b = sorted((a, b))
    x, y = s.many([[MOD, 'PRF', [k, l, d, 8 * a]], [MOD, 'PRF', [k, l, d, 8 * b]]])
    need(isinstance(x, bytes) and isinstance(y, bytes), lambda: 'PRF: %s / %s' % (x, y))
    same(x, y[:a], 'prefix of %d octets of %d' % (a, b))
    return ['trivial'] if a == 0 else []


@st.composite
def recurring(draw):
    """few keys, labels and data, several lengths; label and data that give the same or almost the same hash input"""
    ks, ls, ds = [draw(gen.relatives(st.one_of(gen.octets(30), gen.texts(20)), 2, keep=False)) for _ in range(3)]
    ks.append(ks[0] + b'\0'); ls.append(ls[0] + ds[0]); ds.append(b''); ls.append(ls[0] + b'\0' + ds[0][:1]); ds.append(ds[0][1:])
    ns = [8 * draw(st.integers(0, 100)) for _ in range(2)] + [draw(st.sampled_from([128, 160, 384]))]
    return [[draw(st.sampled_from(x)) for x in (ks, ls, ds, ns)] + [draw(st.booleans())] for _ in range(draw(st.integers(3, 12)))]


@sub(strategy=recurring, q=400, t=12000)
def recurring_arguments(s, calls):
    named = lambda n, f: f and n in (128, 192, 256, 384, 512, 768)
    hist.run(s, [[MOD, 'PRF_%d' % n, [k, l, d], ref(k, l, d, n // 8)] if named(n, f) else [MOD, 'PRF', [k, l, d, n], ref(k, l, d, n // 8)] for k, l, d, n, f in calls])


@sub(cases=lambda tier: [[n, w] for n in gen.longs(tier, 70001, 262145) for w in range(3)], qs=2)
def long_inputs(s, c):
    n, w = c
    x = [gen.det(20 if w != 0 else n, 'k'), gen.det(9 if w != 1 else n, 'l').replace(b'\0', b'0'), gen.det(30 if w != 2 else n, 'd')]
    check(s, *x, [128, 384, 512][n % 3])
