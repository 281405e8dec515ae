import hashlib
import hmac

from hypothesis import strategies as st

import gen
from core import sub, same, need, rejected
from sut import Exc

F = 'hash/hmac.py'
RULE = ('one program over HMAC objects (constructor forms, update, digest, reset, one-shot, setKey), every result compared with the model; '
        'trivial: no digest was taken')
HASHES = {'SHA1': ('sha1', 64), 'MD5': ('md5', 64), 'SHA256': ('sha256', 64), 'SHA384': ('sha384', 128), 'SHA512': ('sha512', 128)}


def mac(hn, key, data): return hmac.new(key, data, HASHES[hn][0]).digest()


def rfc2104(hn, key, data):
    """from the text of RFC 2104"""
    a, B = HASHES[hn]
    if len(key) > B: key = hashlib.new(a, key).digest()
    key = key + bytes(B - len(key))
    i = hashlib.new(a, bytes(x ^ 0x36 for x in key) + data).digest()
    return hashlib.new(a, bytes(x ^ 0x5c for x in key) + i).digest()


KEYLEN = [0, 1, 19, 20, 21, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 66, 79, 80, 81, 111, 112, 127, 128, 129, 130, 131, 200, 256, 257]


def keys():
    return st.one_of(st.sampled_from(KEYLEN).flatmap(gen.fixed), gen.octets(300, F), gen.octets(40))


@st.composite
def program(draw):
    n = draw(st.integers(1, 3))
    forms = []
    for _ in range(n):
        f = draw(st.sampled_from(['generic', 'generic', 'SHA1', 'MD5']))
        forms.append([f, draw(st.sampled_from(sorted(HASHES))) if f == 'generic' else f, draw(st.one_of(keys(), keys(), keys(), st.none()))])
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(['update', 'update', 'update', 'digest', 'digest', 'reset', 'call', 'hash', 'callmore', 'setKey']))
        v = draw(st.integers(0, n - 1))
        if k in ('update', 'call', 'hash', 'callmore'): ops.append([k, v, draw(gen.octets(150, F))])
        elif k == 'setKey': ops.append([k, v, draw(keys())])
        else: ops.append([k, v])
    return dict(objs=forms, ops=ops)


def check(s, c):
    prog = [['new', i, f, h, k] for i, (f, h, k) in enumerate(c['objs'])]
    model = [[h, k, b''] for f, h, k in c['objs']]
    r = s.call('hmac_prog', prog + c['ops'] + [['attrs', i] for i in range(len(prog))])
    for x in r[:len(prog)]: need(x is None, lambda: 'constructor: %s' % (x,))
    labels = ['trivial']
    hist = []
    for o, x in zip(c['ops'], r[len(prog):]):
        m = model[o[1]]
        hist.append(o[0] + (':%d' % len(o[2]) if len(o) > 2 else ''))
        w = '%s with a %s key, after %s' % (m[0], 'no' if m[1] is None else '%d-octet' % len(m[1]), ' '.join(hist))
        if o[0] == 'setKey':
            same(x, None, w)
            m[1] = o[2]; m[2] = b''
            continue
        if m[1] is None:
            rejected(x, 'without a key: ' + w)
            labels = [y for y in labels if y != 'trivial'] + ['unkeyed']
            continue
        if o[0] == 'update': same(x, None, w); m[2] += o[2]
        elif o[0] == 'reset': same(x, None, w); m[2] = b''
        elif o[0] == 'digest': same(x, mac(m[0], m[1], m[2]), w)
        else:
            m[2] += o[2]
            same(x, mac(m[0], m[1], m[2]), w)
            if o[0] != 'callmore': m[2] = b''
        if o[0] in ('digest', 'call', 'hash', 'callmore'):
            labels = [y for y in labels if y != 'trivial'] + [m[0]]
            if len(m[1]) > HASHES[m[0]][1]: labels.append('key longer than a block')
    for (h, _, _), x in zip(model, r[len(prog) + len(c['ops']):]):
        same(x, [hashlib.new(HASHES[h][0]).digest_size, HASHES[h][1], b'HMAC_' + h.encode()], 'attributes')
    return labels


@sub(strategy=program, q=1500, t=50000, qs=4)
def histories(s, c):
    return check(s, c)


@st.composite
def related(draw):
    n = draw(st.integers(2, 4))
    ks, ms = draw(gen.relatives(keys(), 4, keep=False)), draw(gen.relatives(gen.octets(150, F), 4, keep=False))
    objs = [[f, draw(st.sampled_from(sorted(HASHES))) if f == 'generic' else f, draw(st.sampled_from(ks + [None]))]
            for f in draw(st.lists(st.sampled_from(['generic', 'SHA1', 'MD5']), min_size=n, max_size=n))]
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        k, v = draw(st.sampled_from(['call', 'call', 'hash', 'update', 'digest', 'setKey', 'setKey', 'reset'])), draw(st.integers(0, n - 1))
        ops.append([k, v, draw(st.sampled_from(ks if k == 'setKey' else ms))] if k in ('call', 'hash', 'update', 'setKey') else [k, v])
    return dict(objs=objs, ops=ops)


@sub(strategy=related, q=600, t=20000, qs=2)
def related_keys_and_messages(s, c):
    return check(s, c)


def sweep(tier):
    for h in sorted(HASHES):
        for n in range(0, 300 if tier == 'thorough' else 150):
            yield [h, n, gen.det(n % 90, h, n)]
        for n in (255, 256, 257, 1000, 5000): yield [h, n, gen.det(200, h, n)]
        for n in range(0, 200, 1 if tier == 'thorough' else 7): yield [h, 20, gen.det(n, h)]


@sub(cases=sweep, qs=2)
def every_key_length(s, c):
    h, n, msg = c
    k = gen.det(n, 'key', h)
    want = rfc2104(h, k, msg)
    assert want == mac(h, k, msg)
    half = len(msg) // 2
    forms = ['generic'] + ([h] if h in ('SHA1', 'MD5') else [])
    for f in forms:
        r = s.call('hmac_prog', [['new', 'a', f, h, k], ['call', 'a', msg], ['new', 'b', f, h, None], ['setKey', 'b', k], ['update', 'b', msg[:half]],
                                 ['digest', 'b'], ['update', 'b', msg[half:]], ['digest', 'b'], ['digest', 'b']])
        w = '%s %s, %d-octet key' % (f, h, n)
        same(r[1], want, w)
        same(r[5], rfc2104(h, k, msg[:half]), w + ', first half')
        same(r[7], want, w + ', in two updates')
        same(r[8], want, w + ', digest again')
    return [h]


@sub(cases=lambda tier: [[h, n, k] for i, n in enumerate(gen.longs(tier, 70001, 262145)) for k in range(3) for h in sorted(HASHES)[(i + k) % 2::2]], qs=3)
def long_messages(s, c):
    """long messages in one call, in halves, and in very many updates; long keys"""
    h, n, k = c
    key, m = gen.det([20, 64, n][k], 'lk', h), gen.det(n, 'lm')
    step = [n, n // 2 + 1, max(1, n // 1200)][k]
    ops = [['call', 0, b'before'], ['call', 0, m]] + [['update', 0, m[i:i + step]] for i in range(0, n, step)] + [['digest', 0], ['update', 0, b'x'], ['digest', 0]]
    return check(s, dict(objs=[['generic', h, key]], ops=ops))
