from hypothesis import strategies as st

import gen
import rchacha
from core import sub, same, need
from sut import Exc

F = 'cipher/chacha_poly.py'
MOD = 'cipher.chacha_poly'
RULE = ('one history of encrypt/decrypt calls over one or more objects, every output compared with a model that keeps a '
        'block position per object; trivial: fewer than two calls with data')


@st.composite
def history(draw):
    nobj = draw(st.integers(1, 3))
    same_key = draw(st.booleans())
    objs = []
    ks, ns = draw(gen.relatives(gen.fixed(32), 3)), draw(gen.relatives(gen.fixed(12), 3))
    for _ in range(nobj):
        ctr = draw(st.one_of(st.integers(0, 3), gen.bits(32).map(lambda v: min(v, (1 << 32) - 200)),
                             st.sampled_from([250, 255, 65530, 65535, (1 << 31) - 2])))
        objs.append([ks[0] if same_key else draw(st.sampled_from(ks)), draw(st.sampled_from(ns)), ctr if draw(st.booleans()) or not objs else objs[0][2]])
    ln = st.one_of(st.sampled_from([0, 64, 128, 192]), st.integers(0, 200), gen.lengths(520, F))
    ops = draw(st.lists(st.tuples(st.integers(0, nobj - 1), st.booleans(),
                                  st.builds(gen.expand, ln, st.sampled_from([6, 7, 0, 1, 2]), gen.SEED)), min_size=1, max_size=12))
    # when the objects come into being: all first, or each before its first use
    return dict(objs=objs, ops=[list(o) for o in ops], lazy=draw(st.booleans()))


@sub(strategy=history, q=700, t=30000, qs=4)
def histories(s, c):
    prog = []
    made = set()

    def make(i):
        k, n, ctr = c['objs'][i]
        prog.append(['new', 'o%d' % i, MOD, 'ChaCha', [k], dict(counter=ctr, nonce=n)]); made.add(i)
    if not c['lazy']:
        for i in range(len(c['objs'])): make(i)
    where = []
    for i, enc, data in c['ops']:
        if i not in made: make(i)
        where.append(len(prog))
        prog.append(['meth', 'o%d' % i, 'encrypt' if enc else 'decrypt', [data], {}])
    r = s.call('objs', prog)
    pos = [o[2] for o in c['objs']]
    for (i, enc, data), w in zip(c['ops'], where):
        k, n, _ = c['objs'][i]
        same(r[w], rchacha.encrypt(k, pos[i], n, data), 'call %d (object %d, %d octets, block %d)' % (w, i, len(data), pos[i]))
        pos[i] += (len(data) + 63) // 64
    calls = sum(1 for o in c['ops'] if o[2])
    return ['trivial'] if calls < 2 else ['objects=%d' % len(c['objs'])]


@st.composite
def chunking(draw):
    chunks = draw(st.lists(st.integers(0, 6), min_size=1, max_size=8))
    last = draw(st.integers(0, 130))
    n = 64 * sum(chunks) + last
    return dict(key=draw(gen.fixed(32)), nonce=draw(gen.fixed(12)), counter=draw(st.integers(0, 1000)), chunks=chunks,
                msg=gen.expand(n, draw(st.sampled_from([6, 7, 0, 1])), draw(gen.SEED)))


@sub(strategy=chunking, q=300, t=8000, qs=2)
def chunks_equal_one_call_and_decrypt_inverts(s, c):
    a = dict(counter=c['counter'], nonce=c['nonce'])
    prog = [['new', v, MOD, 'ChaCha', [c['key']], a] for v in ('one', 'many', 'dec')]
    prog.append(['meth', 'one', 'encrypt', [c['msg']], {}])
    p = 0
    for k in c['chunks']:
        prog.append(['meth', 'many', 'encrypt', [c['msg'][p:p + 64 * k]], {}]); p += 64 * k
    prog.append(['meth', 'many', 'encrypt', [c['msg'][p:]], {}])
    r = s.call('objs', prog)
    need(not [x for x in r if isinstance(x, Exc)], lambda: 'failed: %s' % [x for x in r if isinstance(x, Exc)][0])
    whole = r[3]
    same(b''.join(r[4:]), whole, 'chunks %s + %d octets' % (c['chunks'], len(c['msg']) - p))
    same(s.call('objs', prog[2:3] + [['meth', 'dec', 'decrypt', [whole], {}]])[1], c['msg'], 'decryption with a fresh object')
    return ['trivial'] if len(c['msg']) <= 64 else []


@st.composite
def nonce_case(draw):
    return dict(key=draw(gen.fixed(32)), count=draw(st.integers(64, 90)), msg=draw(gen.octets(150)) + b'x')


@sub(strategy=nonce_case, q=12, t=200, qs=1)
def random_nonces(s, c):
    r = s.call('chacha_nonces', c['key'], c['count'], c['msg'])
    need(not isinstance(r, Exc), lambda: str(r))
    seen = set()
    nonces = []
    if not all(len(w) == 3 for w, _ in r): return ['trivial']        # the object does not show its nonce
    for words, ct in r:
        need(len(words) == 3 and all(0 <= w < 1 << 32 for w in words), 'nonce words %r' % (words,))
        n = b''.join(w.to_bytes(4, 'little') for w in words)
        need(n not in seen, 'two objects got the same nonce %s' % n.hex())
        seen.add(n); nonces.append(n)
        back = s.call('objs', [['new', 'o', MOD, 'ChaCha', [c['key']], dict(nonce=n)], ['meth', 'o', 'decrypt', [ct], {}]])
        same(back[1], c['msg'], 'decryption with nonce %s of an object made without nonce' % n.hex())
    for i in range(12):
        # a constant octet over 64 random nonces: probability 2^-504
        need(len(set(n[i] for n in nonces)) > 1, 'octet %d of %d fresh nonces is constant' % (i, len(nonces)))


@sub(strategy=lambda: st.tuples(gen.fixed(32), gen.octets(130), st.integers(0, 5)), q=100, t=1000)
def random_nonce_differs_between_objects(s, c):
    key, msg, ctr = c
    msg = msg + bytes(16)
    prog = []
    for i in range(6):
        form = [[key], {}] if i % 3 == 0 else [[key, ctr], {}] if i % 3 == 1 else [[key], dict(counter=ctr, nonce=None)]
        prog += [['new', 'o%d' % i, MOD, 'ChaCha', form[0], form[1]], ['meth', 'o%d' % i, 'encrypt', [msg], {}]]
    r = s.call('objs', prog)
    outs = r[1::2]
    for x in outs: need(isinstance(x, bytes) and len(x) == len(msg), 'encrypt: %r' % (x,))
    need(len(set(outs)) == len(outs), 'two objects without given nonce share a keystream')


@sub(cases=lambda tier: [[n, k, j] for j, n in enumerate(gen.longs(tier, 20011, 140000)) for k in (0, 1)] +
     [[n, k, c] for k, n, c in [(0, 262144 + 64, 1 << 24), (1, 270001, (1 << 31) - 4000), (1, 524288 + 130, (1 << 32) - 8600), (0, 300000, (1 << 16) - 4096), (0, 262144, 77)]], qs=4)
def long_chunks(s, c):
    """histories with long calls: a long one, a short one, another long one, and one octet"""
    n, k, j = c
    key, nonce, ctr = gen.det(32, n), gen.det(12, n), [0, 1, 255, 65500, (1 << 32) - 70000][j % 5] if j < 70 else j
    sizes = [[n, 64, n // 2 + 3 if n < 200000 else 65, 1, 65], [100, n, 128, 63, 1]][k]
    data = [gen.det(m, i, n) for i, m in enumerate(sizes)]
    r = s.call('objs', [['new', 'o', MOD, 'ChaCha', [key], dict(counter=ctr, nonce=nonce)]] + [['meth', 'o', ['encrypt', 'decrypt'][i & 1], [d], {}] for i, d in enumerate(data)])
    pos = ctr
    for d, x in zip(data, r[1:]):
        same(x, rchacha.encrypt(key, pos, nonce, d), '%d octets at block %d, calls of %s octets' % (len(d), pos, sizes))
        pos += (len(d) + 63) // 64
