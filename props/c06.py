from hypothesis import strategies as st

import gen
import hist
import raes
from core import sub, same, need
from sut import Exc

F = 'cipher/aes_cmac.py'
MOD = 'cipher.aes_cmac'
RULE = 'one MAC (or pair of subkeys) compared with the reference; trivial: empty message only'

# (key length, n): det(key length, 'cmac', n) has one or two leading zero octets in E(0), K1 or K2
RARE = [(16, k) for k in (184, 195, 353, 137932, 232501)] + [(24, k) for k in (142, 215, 300, 109174, 147425, 159697)] \
    + [(32, k) for k in (152, 418, 556, 12838, 146227)]


def rare_key(i):
    n, k = RARE[i % len(RARE)]
    return gen.det(n, 'cmac', k)


@st.composite
def keys(draw):
    k = draw(st.integers(0, 9))
    if k == 0: return rare_key(draw(st.integers(0, len(RARE) - 1)))
    n = draw(st.sampled_from([16, 24, 32]))
    if k == 1: return draw(gen.fixed(8)) * (n // 8)
    return draw(gen.fixed(n))


@st.composite
def cases(draw):
    ks = [draw(keys()) for _ in range(draw(st.integers(1, 2)))]
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append([ks[draw(st.integers(0, len(ks) - 1))], draw(gen.octets(400, F))])
    return ops


def check(s, ops):
    r = s.many([[MOD, 'aes_cmac', [k, m]] for k, m in ops])
    for i, ((k, m), x) in enumerate(zip(ops, r)):
        same(x, raes.cmac(k, m), 'aes_cmac, %d-octet key, %d-octet message (call %d)' % (len(k), len(m), i))


@sub(strategy=cases, q=1500, t=40000, qs=4)
def random_inputs(s, ops):
    check(s, ops)
    return ['key=%d' % len(k) for k, m in ops] + (['trivial'] if not any(m for k, m in ops) else [])


def sweep(tier):
    for n in (16, 24, 32):
        for m in range(0, 130 if tier == 'quick' else 700):
            yield [[gen.det(n, 'k', m), gen.det(m, n)], [gen.det(n, 'k', m), b'\x80' + bytes(m)], [gen.det(n, 'j', m), bytes(m)]]
        for m in (255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536) + ((1 << 20, (1 << 20) + 1) if tier == 'thorough' else ()):
            yield [[gen.det(n, 'k', m), gen.det(m, n)]]
    for i in range(len(RARE)):
        yield [[rare_key(i), gen.det(m, i)] for m in (0, 1, 15, 16, 17, 31, 32, 33, 48, 100)]


@sub(cases=sweep, qs=2)
def all_lengths(s, ops):
    check(s, ops)
    return ['key=%d' % len(k) for k, m in ops]


def rare_and_random(tier):
    for i in range(len(RARE)): yield [rare_key(i)]
    for j in range(12 if tier == 'quick' else 400):
        for n in (16, 24, 32): yield [gen.det(n, 'sub', j, i) for i in range(50)]


@sub(cases=rare_and_random)
def subkeys(s, ks):
    r = s.many([[MOD, 'subkey', [k]] for k in ks])
    lab = []
    for k, x in zip(ks, r):
        a, b = raes.subkeys(k)
        same(x, [a, b], 'subkey')
        if a[0] == 0: lab.append('K1 leading zero')
        if b[0] == 0: lab.append('K2 leading zero')
        if a[0] & 128: lab.append('K1 high bit')
    return lab


def related(tier):
    for n in (16, 24, 32):
        for j in range(4 if tier == 'quick' else 60):
            yield [n, j]


@sub(cases=related)
def block_structured_messages(s, c):
    """messages whose last block or chaining value takes extreme values: last block equal to K1, padded block equal to K2, etc."""
    n, j = c
    k = gen.det(n, 'rel', j)
    k1, k2 = raes.subkeys(k)
    L = raes.encrypt(k, bytes(16))
    ms = [k1, k2, L, bytes(16), b'\xff' * 16, k1 + k1, bytes(16) + k1, raes.encrypt(k, bytes(16)) + k1,
          bytes(16) + raes.xor(L, k1), b'\x80' + bytes(15), b'\x80', b'\x80' + bytes(14), b'', bytes(15), bytes(32), bytes(31)]
    # chaining value zero before the last block
    x = gen.det(16, 'cv', j)
    ms.append(x + raes.encrypt(k, x) + gen.det(j % 17, j))
    check(s, [[k, m] for m in ms])


@st.composite
def recurring(draw):
    """few keys and messages in turns; keys and messages that continue each other, MACs and subkeys mixed"""
    ks = [draw(keys()) for _ in range(2)]
    ks.append((ks[0] + ks[1] + bytes(16))[:draw(st.sampled_from([16, 24, 32]))])
    ks += draw(gen.relatives(st.just(ks[0]), 3))
    ms = draw(gen.relatives(gen.octets(60), 3, keep=False))
    ms += [ms[0][:16], ms[0] + b'\x80', ks[0], ms[0][16:]]
    return [[draw(st.sampled_from(['aes_cmac', 'aes_cmac', 'subkey'])), draw(st.sampled_from(ks)), draw(st.sampled_from(ms))] for _ in range(draw(st.integers(3, 12)))]


@sub(strategy=recurring, q=300, t=10000)
def recurring_arguments(s, calls):
    hist.run(s, [[MOD, f, [k, m], raes.cmac(k, m)] if f == 'aes_cmac' else [MOD, f, [k], (lambda w: lambda x: x == w)(list(raes.subkeys(k)))] for f, k, m in calls])


@sub(cases=lambda tier: [[gen.det((16, 24, 32)[i % 3], 'lk', n), n] for i, n in enumerate(gen.longs(tier, 70001, 262145))], qs=4)
def long_messages(s, c):
    check(s, [[c[0], gen.det(c[1], 'lm')], [c[0], bytes(c[1])]])
