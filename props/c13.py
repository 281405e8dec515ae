import hashlib
from math import isqrt

from hypothesis import strategies as st

import ecx
import rec
import rprime
from core import sub, need, same, show
from sut import Exc

RULE = ('one (curve, aspect) pair of the enumerated registry, or one multiple of a generator computed by the library and compared; '
        'trivial: an aspect the curve does not have (no seed, no cofactor)')
ASSUMES = ['the table ref/curves.json holds the standards\' values (SEC, NIST, Brainpool and SM2 rows were compared with OpenSSL; the invariants and '
           'seed relations are recomputed on every run)']
GOLD = {c['cls']: c for c in ecx.GOLD}
ASPECTS = ['values', 'identifiers', 'p prime', 'n prime', 'non-singular', 'generator', 'order', 'hasse', 'size', 'seed']
INTS = ['p', 'a', 'b', 'd', 'n', 'xG', 'yG', 'q', 'seed', 'seed_c', 'z', 'seed_p', 'seed_ab']


def text(v): return v.decode('latin-1') if isinstance(v, bytes) else v


def sha1_int(seed, L, width):
    v = (L - 1) // 160
    r = int.from_bytes(hashlib.sha1(seed.to_bytes(20, 'big')).digest(), 'big') & ((1 << width) - 1)
    for i in range(1, v + 1):
        r = r << 160 | int.from_bytes(hashlib.sha1(((seed + i) % 2 ** 160).to_bytes(20, 'big')).digest(), 'big')
    return r


def aspect(s, name, what, r):
    kind = r['__kind__'].decode()
    need(kind in 'WKETM', lambda: '%s: kind %s' % (name, kind))
    for k in ('p', 'n', 'h', 'xG', 'yG') + (('a', 'b') if kind in 'WK' else ('a',) if kind in 'MT' else ()) + (('d',) if kind in 'TE' else ()):
        need(isinstance(r.get(k), int), lambda: '%s.%s is %r' % (name, k, r.get(k)))
    p, n, h = r['p'], r['n'], r['h']
    key = '%s %s n=%#x' % (name, what, n)
    if what == 'values':
        g = GOLD[name]
        same(kind, g['kind'], '%s: family' % name)
        for k in INTS:
            if k not in g: continue
            want, got = int(g[k], 16), r.get(k)
            need(isinstance(got, int), lambda: '%s.%s: got %s, expected %#x' % (name, k, got, want))
            if k in ('a', 'b', 'd'): got %= p
            need(got == want, lambda: '%s.%s: got %#x, expected %#x' % (name, k, got, want))
        same(h, g['h'], '%s.h' % name)
    elif what == 'identifiers':
        g = GOLD[name]
        same(text(r.get('curveId')), g['curveId'], '%s.curveId' % name)
        if g['oid'] is None: need(not r.get('oid'), lambda: '%s.oid: got %s, expected none' % (name, r.get('oid')))
        else: same(list(r.get('oid') or []), g['oid'], '%s.oid' % name)
    elif what == 'p prime':
        need(rprime.is_prime(p), lambda: '%s.p is not prime' % name, key)
    elif what == 'n prime':
        need(rprime.is_prime(n), lambda: '%s.n is not prime' % name, key)
    elif what == 'non-singular':
        g = rec.of_params(kind, r)
        need(g.ok() if kind not in 'TE' else g.a != g.d and g.a and g.d, lambda: '%s is singular' % name)
        if kind in 'TE': need(g.ok(), lambda: '%s: addition law not complete' % name)
    elif what == 'generator':
        g = rec.of_params(kind, r)
        need(0 <= r['xG'] < p and 0 <= r['yG'] < p and g.on(r['xG'], r['yG']), lambda: '%s: generator not on the curve' % name)
        need(not isinstance(r.get('__inst__'), Exc), lambda: '%s cannot be instantiated: %s' % (name, r.get('__inst__')))
        same(r.get('__gen__'), [r['xG'], r['yG']], '%s: generator()' % name)
    elif what == 'order':
        g = rec.of_params(kind, r)
        need(g.mul(n, (r['xG'], r['yG'])) == g.O, lambda: '%s: n*G is not the identity' % name)
        for q in (2, 3, 5, 7):
            need(n % q or g.mul(n // q, (r['xG'], r['yG'])) != g.O, lambda: '%s: the order of G divides n/%d' % (name, q), key)
    elif what == 'hasse':
        need(abs(n * h - p - 1) <= isqrt(4 * p), lambda: '%s: n*h is outside the Hasse interval' % name, key)
    elif what == 'size':
        need(not isinstance(r.get('__inst__'), Exc), lambda: '%s cannot be instantiated: %s' % (name, r.get('__inst__')))
        same(r.get('__size__'), (p.bit_length() + 7) // 8, '%s: coordinate size' % name)
    elif what == 'seed':
        L = p.bit_length()
        if 'seed_c' in r:
            v = (L - 1) // 160
            c = sha1_int(r['seed'], L, L - 160 * v - 1)
            need((c * r['b'] ** 2 + 27) % p == 0, lambda: '%s: b does not follow from the seed' % name)
            need((r['seed_c'] * r['b'] ** 2 + 27) % p == 0 and r['seed_c'] in (c, sha1_int(r['seed'], L, L - 160 * v)),
                 lambda: '%s: seed_c does not follow from the seed' % name)
        elif 'seed_p' in r:
            v = (L - 1) // 160
            for k in range(20):
                x = sha1_int((r['seed_p'] + k) % 2 ** 160, L, L - 160 * v)
                x += (3 - x) % 4
                while not rprime.is_prime(x): x += 4
                if x == p: break
            need(x == p, lambda: '%s: p does not follow from its seed' % name)
            pos = {}
            for k in range(8000):
                x = sha1_int((r['seed_ab'] + k) % 2 ** 160, L, L - 160 * v - 1)
                if x == r['a']: pos['a'] = k
                if x == r['b']: pos['b'] = k
            need('a' in pos and 'b' in pos and pos['a'] < pos['b'] < pos['a'] + 50, lambda: '%s: a and b do not follow from their seed' % name)
        elif 'z' in r and name.endswith('t1'):
            o = s.call('curve_params', name[:-2] + 'r1')
            z = r['z']
            for k, e in (('a', 4), ('b', 6), ('xG', 2), ('yG', 3)):
                need((o[k] * z ** e - r[k]) % p == 0, lambda: '%s.%s is not that of the twist of %s' % (name, k, name[:-2] + 'r1'))
        else:
            return ['trivial']
    return [what, kind]


@sub(cases=lambda tier: [[c, w] for c in GOLD for w in ASPECTS], qs=2)
def every_curve_and_aspect(s, c):
    r = s.call('curve_params', c[0])
    need(isinstance(r, dict), lambda: 'curve %s: %s' % (c[0], r))
    return aspect(s, c[0], c[1], r)


@sub(cases=lambda tier: ['lists', 'unique', 'others'])
def registry(s, what):
    r = s.call('curve_registry')
    need(isinstance(r, dict), lambda: str(r))
    r = {k: [text(x) if not isinstance(x, list) else [text(y) for y in x] for x in v] for k, v in r.items()}
    base = sorted(set(r['base']))
    if what == 'lists':
        need(sorted(r['allCurves']) == base, lambda: 'allCurves: missing %s, extra or repeated %s' % (
            sorted(set(base) - set(r['allCurves'])), sorted(x for x in r['allCurves'] if x not in base or r['allCurves'].count(x) > 1)))
        gold = sorted(c for c in GOLD if not GOLD[c]['alias'])
        need(set(gold) <= set(base), lambda: 'curves missing from the module: %s' % sorted(set(gold) - set(base)))
        for lst, kind in (('smallWeierstrassCurves', 'W'), ('koblitzCurves', 'K'), ('twistedEdwardsCurves', 'T'), ('edwardsCurves', 'E'),
                          ('montgomeryCurves', 'M')):
            want = sorted(x for x in base if (GOLD[x]['kind'] if x in GOLD else s.call('curve_params', x)['__kind__'].decode()) == kind)
            need(sorted(r[lst]) == want, lambda: '%s: got %s, expected %s' % (lst, sorted(r[lst]), want))
    elif what == 'unique':
        names = base + [x[0] for x in r['sub']]
        ids = {}
        oids = {}
        for x in names:
            q = s.call('curve_params', x)
            ids.setdefault(text(q.get('curveId')), []).append(x)
            if q.get('oid') and x in base: oids.setdefault(tuple(q['oid']), []).append(x)
        for d in (ids, oids):
            for k, v in d.items(): need(len(v) == 1, lambda: 'identifier %s names %s' % (k, v))
    else:
        extra = [x for x in base if x not in GOLD]
        for x in extra:
            for w in ASPECTS[2:]: aspect(s, x, w, s.call('curve_params', x))
        if not extra: return ['trivial']
    return [what]


@sub(cases=lambda tier: [[c, j] for c in GOLD if not GOLD[c]['alias'] for j in range(1 if tier == 'quick' else 6)], qs=4)
def order_by_the_library(s, c):
    """(n-1)G + G is the identity and jG + (n-j)G too, by the library's own arithmetic"""
    name, j = c
    r = s.call('curve_params', name)
    need(isinstance(r, dict), lambda: 'curve %s: %s' % (name, r))
    n = r['n']
    j = 1 if j == 0 else rec.h('ord', name, j) % n
    x = s.call('ec', name, [['gen'], ['mul', [0], n - j], ['mul', [0], j], ['add', [1], [2]], ['id'], ['eq', [3], [4]], ['mul', [0], n], ['eq', [6], [4]]])
    need(not isinstance(x, Exc) and not isinstance(x[5], Exc) and x[5][0] is True, lambda: '%s: (n-%d)G + %dG: %s' % (name, j, j, show(x)))
    need(not isinstance(x[7], Exc) and x[7][0] is True, lambda: '%s: nG: %s' % (name, show(x)))
    return ['order']
