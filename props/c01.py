from hypothesis import strategies as st

import gen
import rchacha
from core import sub, same, rejected, need
from sut import Exc

F = 'cipher/chacha_poly.py'
MOD = 'cipher.chacha_poly'
RULE = ('one encryption of a distinct (key, nonce, counter, message) compared octet by octet with the reference; '
        'trivial: an empty message.  Quarter-round and block cases always count')

NAMES = [['encrypt', 'decrypt']]


def counters(nblocks):
    top = (1 << 32) - max(1, nblocks)
    return st.one_of(st.integers(0, 3), gen.bits(32).map(lambda v: min(v, top)), st.integers(0, 5).map(lambda d: top - d),
                     st.integers(-3, 3).map(lambda d: (1 << 31) + d), st.sampled_from([255, 256, 257, 65535, 65536, 65537]))


@st.composite
def cases(draw):
    msg = draw(gen.octets(700, F))
    return dict(key=draw(gen.fixed(32)), nonce=draw(gen.fixed(12)), counter=draw(counters((len(msg) + 63) // 64)), msg=msg,
                how=draw(st.integers(0, 3)))


def run(s, c):
    key, nonce, ctr, msg = c['key'], c['nonce'], c['counter'], c['msg']
    how = c.get('how', 0)
    args, kw = ([key, ctr, nonce], {}) if how & 1 else ([key], dict(counter=ctr, nonce=nonce))
    r = s.call('objs', [['new', 'o', MOD, 'ChaCha', args, kw],
                        ['meth', 'o', 'encrypt' if how & 2 else 'decrypt', [msg], {}]])
    need(r[0] is None, lambda: 'ChaCha(...) failed: %s' % r[0])
    same(r[1], rchacha.encrypt(key, ctr, nonce, msg), 'output for %d octets at counter %d' % (len(msg), ctr))
    return ['trivial'] if not msg else ['len%%64=%s' % ('0' if len(msg) % 64 == 0 else 'part'),
                                        'blocks=%s' % min((len(msg) + 63) // 64, 4)]


@sub(strategy=cases, q=1500, t=60000, qs=4)
def random_inputs(s, c):
    return run(s, c)


def sweep_cases(tier):
    top = 340 if tier == 'quick' else 1300
    ls = list(range(1, top)) + [511, 512, 513, 575, 576, 577, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097]
    if tier == 'thorough': ls += [8191, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072]
    for n in sorted(set(ls)):
        yield dict(key=gen.det(32, 'k', n), nonce=gen.det(12, 'n', n), counter=n % 7, msg=gen.det(n, 'm', n), how=n % 4)


@sub(cases=sweep_cases, qs=2)
def every_length(s, c):
    return run(s, c)


def bitcases(tier):
    """each single bit of key, nonce and counter, alone"""
    for i in range(256): yield dict(key=(1 << i).to_bytes(32, 'little'), nonce=bytes(12), counter=0, msg=bytes(64))
    for i in range(96): yield dict(key=bytes(32), nonce=(1 << i).to_bytes(12, 'little'), counter=0, msg=bytes(64))
    for i in range(32): yield dict(key=bytes(32), nonce=bytes(12), counter=1 << i, msg=bytes(64))
    for i in range(1, 33): yield dict(key=bytes(32), nonce=bytes(12), counter=(1 << i) - 1, msg=bytes(128 if i < 32 else 64))
    yield dict(key=bytes(32), nonce=bytes(12), counter=(1 << 32) - 40, msg=bytes(40 * 64))


@sub(cases=bitcases, qs=2)
def single_bits(s, c):
    return run(s, c)


@sub(strategy=lambda: st.tuples(gen.fixed(32), gen.fixed(12), gen.octets(200, F)), q=60, t=1500)
def counter_omitted(s, c):
    key, nonce, msg = c
    r = s.call('objs', [['new', 'o', MOD, 'ChaCha', [key], {'nonce': nonce}], ['meth', 'o', 'encrypt', [msg], {}]])
    need(r[0] is None, lambda: 'ChaCha(...) failed: %s' % r[0])
    same(r[1], rchacha.encrypt(key, 0, nonce, msg), 'output for %d octets without a counter' % len(msg))
    return ['trivial'] if not msg else ['omitted']


@st.composite
def big_cases(draw):
    n = draw(st.one_of(st.integers(1000, 20000), st.sampled_from([4096, 8192, 16384, 16385, 65535, 65536, 65537])))
    nb = (n + 63) // 64
    return dict(key=draw(gen.fixed(32)), nonce=draw(gen.fixed(12)), counter=draw(counters(nb)),
                msg=gen.expand(n, draw(st.sampled_from([0, 1, 6, 7])), draw(gen.SEED)), how=draw(st.integers(0, 3)))


@sub(strategy=big_cases, q=24, t=400, qs=4)
def long_messages(s, c):
    return run(s, c)


@sub(strategy=lambda: st.lists(st.tuples(*[gen.word32()] * 4), min_size=1, max_size=40), q=200, t=4000)
def quarter_round_words(s, c):
    if not s.has(MOD, 'chacha_q_round'): return ['trivial']
    r = s.many([[MOD, 'chacha_q_round', list(w)] for w in c])
    for w, x in zip(c, r):
        same(x, list(rchacha.qr(*w)), 'chacha_q_round%r' % (tuple(w),))


@st.composite
def qstate(draw):
    ix = draw(st.permutations(range(16)))[:4]
    return dict(state=draw(st.lists(gen.word32(), min_size=16, max_size=16)), ix=list(ix))


@sub(strategy=qstate, q=300, t=6000)
def quarter_round_on_state(s, c):
    if not s.has(MOD, 'quarter_round'): return ['trivial']
    want = list(c['state'])
    i = c['ix']
    v = rchacha.qr(*[want[k] for k in i])
    for k, x in zip(i, v): want[k] = x
    same(s.call('quarter_state', c['state'], *i), want, 'quarter_round(state, %r)' % (i,))


@st.composite
def blocks(draw):
    return dict(key=draw(gen.fixed(32)), nonce=draw(gen.fixed(12)), counter=draw(gen.bits(32)))


@sub(strategy=blocks, q=300, t=10000)
def block_function(s, c):
    r = s.call('objs', [['new', 'o', MOD, 'ChaCha', [c['key'], c['counter'], c['nonce']], {}],
                        ['meth', 'o', 'chacha20_block', [], {}], ['meth', 'o', 'chacha20_block', [], {}]])
    want = rchacha.block(c['key'], c['counter'], c['nonce'])
    if isinstance(r[1], Exc) and r[1].startswith('AttributeError'): return ['trivial']
    same(r[1], want, 'block function')
    # the block function alone does not advance the state
    same(r[2], want, 'block function, again')


def badsizes(tier):
    for n in list(range(0, 32)) + list(range(33, 70)) + [96, 128, 256]: yield dict(key=n, nonce=12)
    for n in list(range(1, 12)) + list(range(13, 30)) + [32, 64]: yield dict(key=32, nonce=n)


@sub(cases=badsizes)
def wrong_sizes_are_rejected(s, c):
    key, nonce = gen.det(c['key'], 'bk'), gen.det(c['nonce'], 'bn')
    r = s.call('objs', [['new', 'o', MOD, 'ChaCha', [key, 1, nonce], {}]])
    rejected(r[0], 'ChaCha with a key of %d and a nonce of %d octets' % (len(key), len(nonce)))
    r = s.call('objs', [['new', 'o', MOD, 'ChaCha', [key], dict(nonce=nonce)]])
    rejected(r[0], 'ChaCha with a key of %d and a nonce of %d octets' % (len(key), len(nonce)))
