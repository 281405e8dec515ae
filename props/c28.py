from hypothesis import strategies as st

import gen
import rdot11
from core import sub, same, need, rejected
from sut import Exc

MOD = 'hash.tkip_key_mixing'
F = 'hash/tkip_key_mixing.py'
RULE = ('one history of newKey/setKey/setTA/setPnBytes calls on one or two mixers, every per-packet key compared with the two-phase reference; '
        'trivial: no key was produced')


def mutate(pn, how, x):
    """packet numbers that share part of the previous one"""
    p = bytearray(pn)
    v = int.from_bytes(pn, 'little')
    if how == 'same': return pn
    if how == 'next': return ((v + 1) % (1 << 48)).to_bytes(6, 'little')
    if how == 'prev': return ((v - 1) % (1 << 48)).to_bytes(6, 'little')
    if how == 'low': p[0] = x & 255; p[1] = x >> 8 & 255; return bytes(p)
    if how == 'high': p[2 + x % 4] ^= 1 << (x >> 4) % 8; return bytes(p)
    if how == 'bit': p[x % 6] ^= 1 << (x >> 4) % 8; return bytes(p)
    if how == 'rev': return bytes(reversed(pn))
    if how == 'carry': return (((v >> 16) + 1) % (1 << 32) << 16 | (x & 1)).to_bytes(6, 'little')
    if how == 'swap': return pn[2:6] + pn[:2]
    return gen.det(6, x)


HOW = ['same', 'next', 'prev', 'low', 'low', 'high', 'high', 'bit', 'carry', 'rev', 'swap', 'new']


@st.composite
def history(draw):
    n = draw(st.integers(1, 3))
    objs = []
    tks, tas = draw(gen.relatives(gen.fixed(16), 3)), draw(gen.relatives(gen.fixed(6), 2))
    for _ in range(n):
        objs.append(dict(tk=draw(st.sampled_from(tks + [None])), ta=draw(st.sampled_from(tas + [None])), pn=draw(st.one_of(gen.fixed(6), st.none()))))
    pn = draw(gen.fixed(6))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(['newKey'] * 6 + ['setKey', 'setKey', 'setTA', 'setTA', 'setPnBytes', 'bad']))
        v = draw(st.integers(0, n - 1))
        if k in ('newKey', 'setPnBytes'):
            pn = mutate(pn, draw(st.sampled_from(HOW)), draw(st.integers(0, 65535)))
            ops.append([k, v, pn])
        elif k == 'setKey': ops.append([k, v, draw(st.sampled_from(tks))])
        elif k == 'setTA': ops.append([k, v, draw(st.sampled_from(tas))])
        else:
            m = draw(st.sampled_from(['newKey', 'setKey', 'setTA', 'setPnBytes']))
            good = {'setKey': 16}.get(m, 6)
            ops.append(['bad', v, m, draw(st.sampled_from([x for x in (0, 1, 4, 5, 6, 7, 8, 10, 15, 16, 17, 32) if x != good]).flatmap(gen.fixed))])
    return dict(objs=objs, ops=ops)


def check(s, c):
    prog = []
    st_ = []
    for i, o in enumerate(c['objs']):
        kw = {}
        if o['tk'] is not None: kw['tk1'] = o['tk']
        if o['ta'] is not None: kw['transmitterAddress'] = o['ta']
        if o['pn'] is not None: kw['pnBytes'] = o['pn']
        prog.append(['new', i, MOD, 'TKIP_Mixer', [], kw]); st_.append([o['tk'], o['ta']])
    n = len(prog)
    for o in c['ops']:
        prog.append(['meth', o[1], o[2], [o[3]], {}] if o[0] == 'bad' else ['meth', o[1], o[0], [o[2]], {}])
    r = s.call('objs', prog)
    for x in r[:n]: same(x, None, 'constructor')
    labels = ['trivial']
    hist = []
    for o, x in zip(c['ops'], r[n:]):
        m = st_[o[1]]
        hist.append('%s%s' % (o[0], ' ' + o[2].hex() if o[0] == 'newKey' else ''))
        if o[0] == 'bad': rejected(x, '%s with %d octets' % (o[2], len(o[3])))
        elif o[0] == 'setKey': same(x, None, 'setKey'); m[0] = o[2]
        elif o[0] == 'setTA': same(x, None, 'setTA'); m[1] = o[2]
        elif o[0] == 'setPnBytes': same(x, None, 'setPnBytes')
        elif None in m: rejected(x, 'newKey without key or address')
        else:
            same(x, rdot11.tkip(m[0], m[1], o[2]), 'newKey after ' + ', '.join(hist))
            labels = ['keys']
    return labels


@sub(strategy=history, q=2000, t=60000, qs=4)
def histories(s, c):
    return check(s, c)


@sub(strategy=lambda: st.tuples(gen.fixed(16), gen.fixed(6), gen.fixed(6)), q=1500, t=50000, qs=2)
def fresh_mixers(s, c):
    tk, ta, pn = c
    r = s.call('objs', [['new', 'a', MOD, 'TKIP_Mixer', [tk, ta], {}], ['meth', 'a', 'newKey', [pn], {}],
                        ['new', 'b', MOD, 'TKIP_Mixer', [tk, ta, pn], {}], ['meth', 'b', 'newKey', [pn], {}]])
    for i in (1, 3): same(r[i], rdot11.tkip(tk, ta, pn), 'newKey(%s)' % pn.hex())


def sweep(tier):
    tk, ta = gen.det(16, 't'), gen.det(6, 't')
    for i in range(48): yield [tk, ta, (1 << i).to_bytes(6, 'little')]; yield [tk, ta, ((1 << 48) - 1 - (1 << i)).to_bytes(6, 'little')]
    for i in range(128): yield [(1 << i).to_bytes(16, 'little'), bytes(6), bytes(6)]
    for i in range(48): yield [bytes(16), (1 << i).to_bytes(6, 'little'), bytes(6)]
    for v in range(0, 65536, 97 if tier == 'quick' else 1): yield [tk, ta, v.to_bytes(2, 'little') + gen.det(4, v % 5)]


@sub(cases=sweep)
def single_bits_and_low_counters(s, c):
    x = s.call('objs', [['new', 'a', MOD, 'TKIP_Mixer', [c[0], c[1]], {}], ['meth', 'a', 'newKey', [c[2]], {}]])[1]
    same(x, rdot11.tkip(*c), 'newKey(%s)' % c[2].hex())


def walks(tier):
    for i in range(6 if tier == 'quick' else 80): yield [gen.det(16, 'w', i), gen.det(6, 'w', i), (0xfff0 + (i << 16) if i % 2 else (1 << 48) - 200 if i == 2 else i * 65521), 120]


@sub(cases=walks)
def counting_up(s, c):
    """one mixer over consecutive packet numbers, across a carry into the upper octets"""
    tk, ta, start, n = c
    pns = [((start + i) % (1 << 48)).to_bytes(6, 'little') for i in range(n)]
    r = s.call('objs', [['new', 'a', MOD, 'TKIP_Mixer', [tk, ta], {}]] + [['meth', 'a', 'newKey', [p], {}] for p in pns])[1:]
    for p, x in zip(pns, r): same(x, rdot11.tkip(tk, ta, p), 'newKey(%s) while counting up' % p.hex())
