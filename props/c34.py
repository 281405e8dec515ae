from hypothesis import strategies as st

import ecx
import gen
import rec
from core import sub, need, show
from sut import Exc

RULE = 'a few dozen keys made by one or several objects of one curve, or a key agreement of two parties; trivial: no curve'


def keys(s, spec, count, objects, size):
    r = s.call('private_keys', spec, count, objects)
    need(not isinstance(r, Exc), lambda: 'curve %s: new_private_key: %s' % (show(spec, 900), r))
    for k in r:
        need(type(k) is int and 0 <= k < 256 ** size, lambda: 'curve %s: new_private_key: got %s, expected an integer of at most %d octets' % (show(spec, 900), show(k), size))
    return r


def check(s, cv, objects, count=72):
    p = cv.g.p
    size = (p.bit_length() + 7) // 8
    ks = keys(s, cv.spec, count, objects, size)
    bits = min(p.bit_length(), cv.n.bit_length() if cv.n else 999) - 1
    if bits >= 63: need(len(set(ks)) == count, lambda: 'curve %s: the same private key twice in %d keys of %d objects' % (show(cv.spec, 900), count, objects))
    for b in range(bits):
        v = sum(k >> b & 1 for k in ks)
        need(0 < v < count, lambda: 'curve %s: bit %d of %d private keys is always %d' % (show(cv.spec, 900), b, count, v // count))
    # an octet is like no other: not one octet repeated, and not always next to the same one
    for i in range(bits // 8):
        for j in range(i):
            need(len({(k >> 8 * i & 255) ^ (k >> 8 * j & 255) for k in ks}) > 8, lambda: 'curve %s: octets %d and %d of private keys depend on each other' % (show(cv.spec, 900), j, i))
    # nor does a key follow from the one before it, made by the same object or by another
    for d in {1, objects}:
        for b in range(bits):
            v = sum((x ^ y) >> b & 1 for x, y in zip(ks, ks[d:]))
            need(0 < v < count - d, lambda: 'curve %s: bit %d of a private key always %s that of the key %d before it' % (show(cv.spec, 900), b, 'differs from' if v else 'is', d))
        for i in range(bits // 8):
            for j in range(bits // 8):
                need(len({(x >> 8 * i & 255) ^ (y >> 8 * j & 255) for x, y in zip(ks, ks[d:])}) > 8, lambda: 'curve %s: octet %d of a private key depends on octet %d of the key %d before it' % (show(cv.spec, 900), j, i, d))
    return ks


@sub(cases=lambda tier: [[n, o] for n in ecx.NAMES['WK'] for o in ((1, 3) if tier == 'quick' else (1, 2, 3, 24, 36))], qs=2)
def published_curves(s, c):
    cv = ecx.resolve(s, ['p', c[0]])
    if cv is None: return ['trivial']
    check(s, cv, c[1])
    return ['octets=%d' % ((cv.g.p.bit_length() + 7) // 8)]


@sub(strategy=lambda: st.tuples(ecx.curves('W', [11, 13, 17, 19, 23, 29, 31, 37]).map(list), st.sampled_from([1, 2, 3, 8])), q=120, t=2000, qs=2)
def own_curves(s, c):
    cv = ecx.resolve(s, c[0])
    if cv is None: return ['trivial']
    if cv.n is None: cv = ecx.Curve(cv.g.spec(cv.g.p), cv.g, cv.g.p, cv.label)       # about as many points; its keys are not used
    check(s, cv, c[1])
    return [cv.label]


@sub(cases=lambda tier: [[n, i] for n in ecx.NAMES['WK'] for i in range(1 if tier == 'quick' else 8)], qs=3)
def key_agreement(s, c):
    cv = ecx.resolve(s, ['p', c[0]])
    if cv is None: return ['trivial']
    size = (cv.g.p.bit_length() + 7) // 8
    a, b = keys(s, cv.spec, 2, 2, size)
    G = cv.gen
    r = s.call('ec', cv.spec, [['gen'], ['mul', [0], a], ['mul', [0], b], ['mul', [2], a], ['rmul', [1], b], ['oncurve', [1]], ['oncurve', [2]]])
    A, B, S = (ecx.out(cv.g.mul(k, G)) for k in (a % cv.n, b % cv.n, a * b % cv.n))
    for x, w, t in ((r[1], A, 'a*G'), (r[2], B, 'b*G'), (r[3], S, 'a*(b*G)'), (r[4], S, '(a*G)*b')):
        need(x == w, lambda: 'curve %s, private keys %d and %d: %s is %s, expected %s' % (c[0], a, b, t, show(x), show(w)))
    need(r[5] in (True, 1) and r[6] in (True, 1), 'curve %s: public keys of %d and %d are not on the curve' % (c[0], a, b))
    return ['size=%d' % size]
