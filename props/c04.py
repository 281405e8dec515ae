from hypothesis import strategies as st

import gen
import rchacha
from core import sub, same, need
from sut import Exc

F = 'cipher/chacha_poly.py'
MOD = 'cipher.chacha_poly'
RULE = ('one encryption through the detached and the combined interface compared with the reference; '
        'trivial: no plaintext and no additional data')


@st.composite
def cases(draw):
    split = draw(st.sampled_from([4, 4, 4, 0, 1, 8, 11, 12]))
    n = draw(st.integers(1, 4))
    nonce = draw(gen.fixed(12))
    ops = []
    for _ in range(n):
        ops.append([nonce[split:] if draw(st.integers(0, 3)) == 0 else draw(gen.fixed(12 - split)),
                    draw(gen.octets(300, F)), draw(gen.octets(300, F))])
    return dict(key=draw(gen.fixed(32)), constant=nonce[:split], ops=ops)


def run(s, c):
    prog = [['new', 'd', MOD, 'ChaCha20_AEAD', [c['key'], c['constant']], {}],
            ['new', 'c', MOD, 'ChaCha_Poly_AEAD', [c['key'], c['constant']], {}]]
    for iv, aad, pt in c['ops']:
        prog.append(['meth', 'd', 'encrypt', [aad, iv, pt], {}])
        prog.append(['meth', 'c', 'encrypt', [aad, iv, pt], {}])
    r = s.call('objs', prog)
    need(r[0] is None and r[1] is None, lambda: 'constructor: %s %s' % (r[0], r[1]))
    labels = ['trivial']
    for k, (iv, aad, pt) in enumerate(c['ops']):
        ct, tag = rchacha.aead_encrypt(c['key'], c['constant'] + iv, aad, pt)
        w = 'aad %d, plaintext %d octets, operation %d' % (len(aad), len(pt), k)
        same(r[2 + 2 * k], [ct, tag], 'detached encryption, ' + w)
        same(r[3 + 2 * k], iv + ct + tag, 'combined encryption, ' + w)
        if pt or aad: labels = ['ops=%d' % len(c['ops']), 'constant=%d' % len(c['constant'])]
    return labels


@sub(strategy=cases, q=800, t=30000, qs=4)
def random_inputs(s, c):
    return run(s, c)


def sweep(tier):
    top = 19 if tier == 'quick' else 70
    for a in range(0, top):
        for p in (range(0, top) if tier == 'thorough' else list(range(0, top, 2)) + [a]):
            yield dict(key=gen.det(32, a, p), constant=gen.det(4, a), ops=[[gen.det(8, p), gen.det(a, 'a', p), gen.det(p, 'p', a)]])
    for n in (31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 4096):
        for a, p in ((n, 5), (5, n), (n, n)):
            yield dict(key=gen.det(32, a, p), constant=gen.det(4, a), ops=[[gen.det(8, p), gen.det(a, 'a', p), gen.det(p, 'p', a)]])


@sub(cases=sweep, qs=2)
def all_length_pairs(s, c):
    return run(s, c)


def large(tier):
    ls = [(65535, 2), (65536, 20), (65537, 0), (7, 65536), (65552, 65551), (131072 + 5, 1), (0, 99999)]
    if tier == 'thorough': ls += [(16, 1 << 18), (1 << 20, 1 << 17), ((1 << 20) + 1, 3), ((1 << 24) + 9, 0), (65536, 65536), (70000, 262150)]
    for a, p in ls:
        yield dict(key=gen.det(32, a, p), constant=gen.det(4, a), ops=[[gen.det(8, p), gen.det(a, 'a', p), gen.det(p, 'p', a)]])


@sub(cases=large, qs=4)
def lengths_beyond_16_bits(s, c):
    return run(s, c)


@sub(strategy=lambda: st.tuples(gen.relatives(gen.fixed(32), 3), gen.relatives(gen.fixed(12), 3)).map(lambda t: [[k, n] for k in t[0] for n in t[1]]), q=100, t=3000)
def key_generation(s, c):
    r = s.many([[MOD, 'poly1305_key_gen', [k, n]] for k, n in c])
    for (k, n), x in zip(c, r):
        same(x, rchacha.block(k, 0, n)[:32], 'poly1305_key_gen')


@st.composite
def several(draw):
    # few different values, so that the same key, iv, data or text recurs in other combinations
    keys, csts = draw(gen.relatives(gen.fixed(32), 3)), draw(gen.relatives(gen.fixed(4), 2))
    ivs, texts = draw(gen.relatives(gen.fixed(8), 2)), draw(gen.relatives(gen.octets(90), 4, keep=False))
    k = [[draw(st.sampled_from(keys)), draw(st.sampled_from(csts)), draw(st.booleans())] for _ in range(draw(st.integers(2, 4)))]
    ops = draw(st.lists(st.tuples(st.integers(0, len(k) - 1), st.sampled_from(ivs), st.sampled_from(texts), st.sampled_from(texts)), min_size=2, max_size=10))
    return dict(objs=k, ops=[list(o) for o in ops])


@sub(strategy=several, q=400, t=12000, qs=2)
def objects_are_independent(s, c):
    prog = [['new', 'o%d' % i, MOD, 'ChaCha_Poly_AEAD' if comb else 'ChaCha20_AEAD', [k, cst], {}] for i, (k, cst, comb) in enumerate(c['objs'])]
    for i, iv, aad, pt in c['ops']: prog.append(['meth', 'o%d' % i, 'encrypt', [aad, iv, pt], {}])
    r = s.call('objs', prog)[len(c['objs']):]
    for (i, iv, aad, pt), x in zip(c['ops'], r):
        k, cst, comb = c['objs'][i]
        ct, tag = rchacha.aead_encrypt(k, cst + iv, aad, pt)
        same(x, iv + ct + tag if comb else [ct, tag], 'object %d' % i)
