from hypothesis import strategies as st

import gen
import rdot11
from core import sub, same, need, rejected
from sut import Exc

MOD, TM = 'hash.michael', 'hash.tkip_mic'
FILES = ['hash/michael.py', 'hash/tkip_mic.py']
RULE = 'one program of keyed MICs compared with the reference; trivial: no message'




@st.composite
def program(draw):
    n = draw(st.integers(1, 3))
    ks = draw(gen.relatives(gen.fixed(8), 3))
    ms = draw(gen.relatives(gen.octets(150, *FILES), 3, keep=False))
    objs = [draw(st.one_of(st.sampled_from(ks), st.sampled_from(ks), st.none())) for _ in range(n)]
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        v = draw(st.integers(0, n - 1))
        k = draw(st.sampled_from(['hash', 'hash', 'call', 'callmore', 'setKey', 'badKey']))
        if k == 'setKey': ops.append([k, v, draw(st.sampled_from(ks))])
        elif k == 'badKey': ops.append([k, v, draw(st.sampled_from([0, 1, 4, 7, 9, 12, 16]).flatmap(gen.fixed))])
        else: ops.append([k, v, draw(st.sampled_from(ms))])
    return dict(objs=objs, ops=ops)


@sub(strategy=program, q=1200, t=40000, qs=3)
def histories(s, c):
    prog = []
    keys = list(c['objs'])
    for i, k in enumerate(keys): prog.append(['new', i, MOD, 'Michael', [] if k is None else [k], {}])
    for k, v, d in c['ops']:
        if k in ('setKey', 'badKey'): prog.append(['meth', v, 'setKey', [d], {}])
        elif k == 'hash': prog.append(['meth', v, 'hash', [d], {}])
        elif k == 'call': prog.append(['call', v, [d], {}])
        else: prog.append(['call', v, [d], {'more': 1}])
    r = s.call('objs', prog)
    for x in r[:len(keys)]: same(x, None, 'constructor')
    labels = ['trivial']
    for (k, v, d), x in zip(c['ops'], r[len(keys):]):
        if k == 'setKey': same(x, None, 'setKey'); keys[v] = d
        elif k == 'badKey': rejected(x, 'setKey with %d octets' % len(d))
        elif keys[v] is None: rejected(x, 'MIC without a key')
        else:
            same(x, rdot11.michael(keys[v], d), 'Michael (%s) of %d octets' % (k, len(d)))
            labels = ['mic']
    return labels


def sweep(tier):
    for n in range(0, 140 if tier == 'quick' else 1000): yield [gen.det(8, n), gen.det(n, 'm')]
    for n in range(0, 20): yield [bytes(8), bytes(n)]; yield [b'\xff' * 8, b'\xff' * n]; yield [gen.det(8, n), b'\x5a' * n]
    for n in (255, 256, 257, 1500, 2304, 65535): yield [gen.det(8, n), gen.det(n, 'm')]
    for i in range(64):
        k = (1 << i).to_bytes(8, 'little')
        yield [k, b'']; yield [bytes(8), k]


@sub(cases=sweep)
def all_lengths(s, c):
    r = s.call('objs', [['new', 'a', MOD, 'Michael', [c[0]], {}], ['call', 'a', [c[1]], {}], ['meth', 'a', 'hash', [c[1]], {}],
                        ['new', 'b', MOD, 'Michael', [], {'key': c[0]}], ['meth', 'b', 'hash', [c[1]], {}]])
    w = rdot11.michael(*c)
    for i in (1, 2, 4): same(r[i], w, 'Michael of %d octets' % len(c[1]))


@sub(strategy=lambda: st.tuples(gen.word32(), gen.word32(), gen.octets(12)), q=1200, t=40000, qs=2)
def chosen_states(s, c):
    """the key is solved for so that the state before the last blocks is the given pair of words"""
    l, r, msg = c
    m = msg + b'\x5a' + bytes(4); m += bytes(-len(m) % 4)
    blocks = [int.from_bytes(m[i:i + 4], 'little') for i in range(0, len(m), 4)]
    for b in reversed(blocks[:len(blocks) - 1]):
        l, r = rdot11.unblock(l, r); l ^= b
    key = l.to_bytes(4, 'little') + r.to_bytes(4, 'little')
    x = s.call('objs', [['new', 'a', MOD, 'Michael', [key], {}], ['call', 'a', [msg], {}]])[1]
    same(x, rdot11.michael(key, msg), 'Michael of %s' % msg.hex())


@sub(cases=lambda tier: [n for n in list(range(0, 24)) + [64, 100] if n != 8])
def bad_keys(s, n):
    k = gen.det(n, 'bad')
    for mod, cls in ((MOD, 'Michael'), (TM, 'TKIP_MIC')):
        r = s.call('objs', [['new', 'a', mod, cls, [k], {}], ['new', 'b', mod, cls, [], {}], ['meth', 'b', 'setKey', [k], {}]])
        rejected(r[0], '%s with a %d-octet key' % (cls, n)); rejected(r[2], '%s.setKey with %d octets' % (cls, n))


@st.composite
def tkip(draw):
    ops = []
    addr, ks, ms = draw(gen.relatives(gen.fixed(6), 3)), draw(gen.relatives(gen.fixed(8), 2)), draw(gen.relatives(gen.octets(100, *FILES), 2, keep=False))
    for _ in range(draw(st.integers(1, 8))):
        bad = draw(st.integers(0, 7))
        pr = draw(st.integers(0, 15))
        a, b = draw(st.sampled_from(addr)), draw(st.sampled_from(addr))
        if bad == 0: pr = draw(st.sampled_from([-1, -2, 16, 17, 31, 255, 256, -16]))
        if bad == 1: a = draw(st.sampled_from([0, 1, 4, 5, 7, 8, 12]).flatmap(gen.fixed))
        if bad == 2: b = draw(st.sampled_from([0, 1, 4, 5, 7, 8, 12]).flatmap(gen.fixed))
        ops.append([draw(st.sampled_from(['hash', 'hash', 'hash', 'setKey'])), a, b, pr, draw(st.sampled_from(ms)), draw(st.sampled_from(ks))])
    return dict(key=ks[0], version=draw(st.sampled_from([None, 'D3', 'D2'])), ops=ops)


@sub(strategy=tkip, q=1200, t=40000, qs=3)
def tkip_mic(s, c):
    key = c['key']
    kw = {} if c['version'] is None else {'version': c['version']}
    prog = [['new', 'a', TM, 'TKIP_MIC', [key], kw]]
    for o in c['ops']:
        prog.append(['meth', 'a', 'setKey', [o[5]], {}] if o[0] == 'setKey' else ['meth', 'a', 'hash', o[1:5], {}])
    r = s.call('objs', prog)[1:]
    labels = set()
    for o, x in zip(c['ops'], r):
        if o[0] == 'setKey': key = o[5]; continue
        _, sa, da, pr, data, _ = o
        w = 'TKIP_MIC(%s, sa %d, da %d, priority %d, data %d)' % (c['version'], len(sa), len(da), pr, len(data))
        if len(sa) != 6 or len(da) != 6 or not 0 <= pr <= 15:
            rejected(x, w); labels.add('rejected')
        else:
            hdr = da + sa + (b'' if c['version'] == 'D2' else bytes([pr, 0, 0, 0]))
            same(x, rdot11.michael(key, hdr + data), w); labels.add('accepted')
    return sorted(labels) or ['trivial']


def tsweep(tier):
    for pr in range(-20, 40): yield [6, 6, pr]
    for a in range(0, 14):
        for b in range(0, 14): yield [a, b, (a + b) % 16]


@sub(cases=tsweep)
def priorities_and_addresses(s, c):
    a, b, pr = c
    key, sa, da, d = gen.det(8, c), gen.det(a, 'sa'), gen.det(b, 'da'), gen.det(pr % 9, 'd')
    for v in ('D3', 'D2'):
        x = s.call('objs', [['new', 'a', TM, 'TKIP_MIC', [key, v], {}], ['meth', 'a', 'hash', [sa, da, pr, d], {}]])[1]
        if a != 6 or b != 6 or not 0 <= pr <= 15: rejected(x, 'sa %d, da %d, priority %d' % (a, b, pr))
        else: same(x, rdot11.michael(key, da + sa + (bytes([pr, 0, 0, 0]) if v == 'D3' else b'') + d), 'TKIP_MIC %s priority %d' % (v, pr))


@sub(cases=lambda tier: gen.longs(tier, 100003, 262145) + [131073, 262141, 270001] + [600011] * (tier != 'quick'), qs=3)
def long_messages(s, n):
    k, m = gen.det(8, 'lk', n), gen.det(n, 'lm')
    r = s.call('objs', [['new', 'a', MOD, 'Michael', [k], {}], ['call', 'a', [m], {}], ['call', 'a', [bytes(n)], {}], ['call', 'a', [m[:-1]], {}], ['meth', 'a', 'hash', [m], {}],
                        ['new', 't', TM, 'TKIP_MIC', [k], {}], ['meth', 't', 'hash', [m[:6], m[6:12], n % 16, m], {}]])
    for i, x in ((1, m), (2, bytes(n)), (3, m[:-1]), (4, m)): same(r[i], rdot11.michael(k, x), 'Michael of %d octets' % len(x))
    same(r[6], rdot11.michael(k, m[6:12] + m[:6] + bytes([n % 16, 0, 0, 0]) + m), 'TKIP_MIC of %d octets' % n)


@sub(strategy=lambda: st.tuples(gen.fixed(8), gen.fixed(6), gen.fixed(6), st.integers(0, 15), gen.octets(60),
                                st.one_of(st.sampled_from([b'D1', b'D4', b'd3', b'd2', b'', b'D', b'D3 ', b'D33', b'3', b'D32']), gen.octets(4))), q=300, t=6000)
def unknown_versions(s, c):
    k, sa, da, pr, d, v = c
    if v in (b'D2', b'D3'): return ['trivial']
    r = s.call('objs', [['new', 'a', TM, 'TKIP_MIC', [k], {'version': v}], ['meth', 'a', 'hash', [sa, da, pr, d], {}]])
    rejected(r[1], 'TKIP_MIC of the version %r' % v)
    return ['unknown version']


@sub(strategy=lambda: st.tuples(gen.fixed(8), gen.octets(40), st.booleans()), q=100, t=2000)
def no_incremental_use(s, c):
    """update, digest and final are refused and leave the key in place"""
    k, m, early = c
    prog = [['new', 'a', MOD, 'Michael', [k], {}]] + [['meth', 'a', 'hash', [m], {}]] * early
    n = len(prog)
    prog += [['meth', 'a', 'update', [m], {}], ['meth', 'a', 'digest', [], {}], ['meth', 'a', 'final', [m], {}], ['meth', 'a', 'hash', [m], {}]]
    r = s.call('objs', prog)[n:]
    for i, w in enumerate(['update', 'digest', 'final']): rejected(r[i], 'Michael.' + w)
    same(r[3], rdot11.michael(k, m), 'Michael after update, digest and final')
