from hypothesis import strategies as st

import gen
import raes
from core import sub, same, need
from sut import Exc

F = 'cipher/aes_siv.py'
MOD = 'cipher.aes_siv'
RULE = ('one encryption (several times) and decryption with a list of associated data, compared with the reference; '
        'trivial: empty plaintext and empty list')


def check(s, key, pt, ads, again=1, forms=(0, 1)):
    want = raes.siv_encrypt(key, pt, ads)
    for f in forms:
        w = '%s, %d-octet key, %d-octet plaintext, data %s' % (('function', 'class')[f], len(key), len(pt), [len(a) for a in ads])
        r = s.call('siv_lists', bool(f), key, pt, ads, again)
        need(not isinstance(r, Exc), lambda: '%s: raised %s' % (w, r))
        outs, after, back = r
        for o in outs: same(o, want, 'encryption, ' + w)
        same(after, list(ads), "caller's list after encryption and decryption, " + w)
        same(back, pt, 'decryption, ' + w)


def ads(maxlen=120):
    small = st.lists(st.one_of(gen.octets(maxlen, F), gen.octets(20), st.just(b'')), max_size=4)
    return st.one_of(small, small, small, st.lists(gen.octets(20), max_size=12),
                     st.builds(lambda n, x: [x] * n, st.integers(0, 30), gen.octets(33)))


@st.composite
def cases(draw):
    return dict(key=draw(st.sampled_from([16, 24, 32]).flatmap(lambda n: gen.fixed(2 * n))), pt=draw(gen.octets(200, F)), ads=draw(ads()))


@sub(strategy=cases, q=700, t=25000, qs=4)
def random_inputs(s, c):
    check(s, c['key'], c['pt'], c['ads'])
    return ['ads=%d' % min(len(c['ads']), 5)] + (['trivial'] if not c['pt'] and not c['ads'] else [])


def sweep(tier):
    for n in (32, 48, 64):
        for m in range(0, 70 if tier == 'quick' else 300):
            yield dict(key=gen.det(n, m), pt=gen.det(m, n), ads=[gen.det((m * 7 + i) % 40, i, m) for i in range(m % 4)])
        for a in range(0, 40 if tier == 'quick' else 200):
            yield dict(key=gen.det(n, 'a', a), pt=gen.det(a % 20, n), ads=[gen.det(a, n)])
        for k in (1, 2, 5, 17, 64, 100, 125, 126):
            yield dict(key=gen.det(n, 'n', k), pt=gen.det(k, n), ads=[gen.det(i % 19, i) for i in range(k)])
        for m in (255, 256, 257, 1000, 4096, 4097):
            yield dict(key=gen.det(n, 'l', m), pt=gen.det(m, n), ads=[gen.det(m, 'ad')])


@sub(cases=sweep, qs=2)
def all_lengths(s, c):
    check(s, c['key'], c['pt'], c['ads'], 0)
    return ['ads=%d' % min(len(c['ads']), 5)] + (['trivial'] if not c['pt'] and not c['ads'] else [])


# synthetic IVs that exercise the counter: carries out of the low 31, 32, 63, 64 bits, cleared bits, leading zeros
def special_ivs():
    out = []
    for tail in ('7fffffff', 'ffffffff', '7ffffffe', 'fffffffe', '80000000', '00000000', '7fffff00', '7fffffff'):
        for mid in ('7fffffff', 'ffffffff', '80000000', '00000000'):
            for head in ('0000000000000000', 'ffffffffffffffff', '0000000000000001', '00ffffffffffffff'):
                out.append(bytes.fromhex(head + mid + tail))
    return out


def ivs(tier):
    for i, iv in enumerate(special_ivs()):
        yield dict(key=gen.det((32, 48, 64)[i % 3], 'iv', i), iv=iv, head=gen.det(16 * (i % 5), i), ads=[gen.det(i % 18, i)] * (i % 3))
    for i in range(0 if tier == 'quick' else 400):
        iv = special_ivs()[i % len(special_ivs())]
        yield dict(key=gen.det((32, 48, 64)[i % 3], 'iv2', i), iv=iv, head=gen.det(16 * (i % 9), i, 2), ads=[gen.det(i % 48, i)] * (i % 4))


@sub(cases=ivs)
def chosen_synthetic_ivs(s, c):
    """a plaintext is computed whose synthetic IV is the given one (last block solved for)"""
    pt = raes.siv_pt_for_iv(c['key'], c['head'], c['ads'], c['iv'])
    assert raes.siv_encrypt(c['key'], pt, c['ads'])[:16] == c['iv']
    check(s, c['key'], pt, c['ads'], 0)
    return ['blocks=%d' % (len(pt) // 16)]


@st.composite
def random_ivs(draw):
    key = draw(st.sampled_from([16, 24, 32]).flatmap(lambda n: gen.fixed(2 * n)))
    iv = (draw(gen.bits(64)) << 64 | draw(gen.bits(32)) << 32 | draw(gen.bits(32))).to_bytes(16, 'big')
    return dict(key=key, iv=iv, head=draw(st.integers(0, 6).flatmap(lambda k: gen.fixed(16 * k))), ads=draw(ads(40)))


@sub(strategy=random_ivs, q=200, t=8000)
def random_synthetic_ivs(s, c):
    pt = raes.siv_pt_for_iv(c['key'], c['head'], c['ads'], c['iv'])
    check(s, c['key'], pt, c['ads'], 0)


@st.composite
def s2v_case(draw):
    key = draw(st.sampled_from([16, 24, 32]).flatmap(gen.fixed))
    return [key, draw(st.lists(st.one_of(gen.octets(60), st.just(b'')), max_size=5))]


@sub(strategy=s2v_case, q=400, t=10000)
def s2v(s, c):
    if not s.has(MOD, 's2v'): return ['trivial']
    same(s.f(MOD, 's2v', c[0], c[1]), raes.s2v(c[0], c[1]), 's2v of %s' % [len(x) for x in c[1]])
    return ['n=%d' % len(c[1])]


@sub(strategy=lambda: st.lists(st.one_of(gen.fixed(16), gen.bits(128).map(lambda v: v.to_bytes(16, 'big'))), min_size=1, max_size=20), q=200, t=5000)
def dbl(s, vs):
    if not s.has(MOD, 'dbl'): return ['trivial']
    for v, x in zip(vs, s.many([[MOD, 'dbl', [v]] for v in vs])): same(x, raes.dbl(v), 'dbl of %s' % v.hex())


@st.composite
def history(draw):
    ks = draw(gen.relatives(st.sampled_from([16, 24, 32]).flatmap(lambda n: gen.fixed(2 * n)), 2))
    pts = st.sampled_from(draw(gen.relatives(gen.octets(40), 2, keep=False)) + [b''])
    lists = [draw(st.lists(gen.octets(20), max_size=3)) for _ in range(2)]
    lists += [lists[0][::-1], lists[0] + lists[1], lists[0] + [b''], [b''.join(lists[0])]]
    if lists[0]: lists.append([draw(gen.relatives(st.just(a), 1, keep=False))[1] if i == 0 else a for i, a in enumerate(lists[0])])
    ops = []
    for _ in range(draw(st.integers(2, 10))):       # few values, so that they recur in other combinations
        ops.append([draw(st.integers(0, len(ks) - 1)), draw(st.sampled_from(['enc', 'dec', 'bad'])), draw(pts), draw(st.sampled_from(lists))])
    return dict(keys=ks, ops=ops)


@sub(strategy=history, q=400, t=10000, qs=2)
def objects_have_no_memory(s, c):
    prog = [['new', 'o%d' % i, MOD, 'AES_SIV', [k], {}] for i, k in enumerate(c['keys'])]
    for i, op, pt, a in c['ops']:
        m = raes.siv_encrypt(c['keys'][i], pt, a)
        if op == 'enc': prog.append(['meth', 'o%d' % i, 'encrypt', [pt, a], {}])
        elif op == 'dec': prog.append(['meth', 'o%d' % i, 'decrypt', [m, a], {}])
        else: prog.append(['meth', 'o%d' % i, 'decrypt', [m[:-1] + bytes([m[-1] ^ 1]), a], {}])
    r = s.call('objs', prog)[len(c['keys']):]
    for (i, op, pt, a), x in zip(c['ops'], r):
        if op == 'enc': same(x, raes.siv_encrypt(c['keys'][i], pt, a), 'encrypt in a history')
        elif op == 'dec': same(x, pt, 'decrypt in a history')
        else: need(isinstance(x, Exc), 'altered message accepted in a history')


@sub(cases=lambda tier: [[n, w] for n in gen.longs(tier, 20011, 262145) for w in ('pt', 'ad', 'both', 'many')], qs=4)
def long_messages(s, c):
    """long plaintexts and associated data; many associated data strings, up to the limit of 126"""
    n, w = c
    key = gen.det((32, 48, 64)[n % 3], 'long', n)
    pt = gen.det(n if w in ('pt', 'both') else 21, 'lp')
    ads = {'pt': [b'ad'], 'ad': [b'x', gen.det(n, 'la'), b''], 'both': [gen.det(n + 1, 'lb')], 'many': [gen.det(i * 7 % 50, i) for i in range(n % 127)]}[w]
    check(s, key, pt, ads, 0)
    return [w]
