from hypothesis import strategies as st

import gen
import hist
import rchacha
from core import sub, same

F = 'cipher/chacha_poly.py'
MOD = 'cipher.chacha_poly'
P = rchacha.P1305
RULE = 'one (key, message) pair whose tag is compared with the reference; trivial: r = 0 after clamping and s = 0'


def run(s, c):
    same(s.f(MOD, 'poly1305_mac', c['msg'], c['key']), rchacha.poly1305(c['msg'], c['key']),
         'tag of a %d-octet message' % len(c['msg']))
    r = int.from_bytes(c['key'][:16], 'little') & rchacha.CLAMP
    if r == 0 and not any(c['key'][16:]): return ['trivial']
    return ['r=0' if r == 0 else 'r>0', 'partial' if len(c['msg']) % 16 else 'whole']


@st.composite
def keys(draw):
    r = draw(st.one_of(gen.fixed(16), gen.bits(128).map(lambda v: v.to_bytes(16, 'little')),
                       st.integers(0, 8).map(lambda v: v.to_bytes(16, 'little'))))
    return r + draw(st.one_of(gen.fixed(16), gen.bits(128).map(lambda v: v.to_bytes(16, 'little'))))


@sub(strategy=lambda: st.builds(lambda k, m: dict(key=k, msg=m), keys(), gen.octets(600, F)), q=4000, t=150000, qs=4)
def random_inputs(s, c):
    return run(s, c)


@st.composite
def targeted(draw):
    """the accumulator after a chosen block is a chosen value near the modulus, a power of two, or such that adding s
    lands exactly on or around 2^128"""
    r = draw(st.one_of(gen.rnd(128), gen.bits(128))) & rchacha.CLAMP
    if r == 0: r = 4
    rinv = pow(r, -1, P)
    nb = draw(st.integers(0, 3))
    head = gen.expand(16 * nb, draw(st.sampled_from([6, 7, 1])), draw(gen.SEED))
    a = 0
    for i in range(0, len(head), 16): a = (a + int.from_bytes(head[i:i + 16] + b'\1', 'little')) * r % P
    base = draw(st.sampled_from([0, 0, 0, P, 1 << 128, 1 << 129, 3 << 128, 1 << 127, 1 << 64, 1 << 96, 1 << 32]))
    sign = draw(st.sampled_from([1, 1, -1]))
    off = draw(st.one_of(st.integers(0, 5), st.integers(0, 40)))
    t = (base + sign * off) % P
    size = draw(st.sampled_from([16, 16, 16, 15, 12, 8, 1]))
    seed = draw(gen.SEED)
    blk = None
    single = nb == 0 and size == 16 and draw(st.booleans())
    for k in range(60):             # one block more, and the one that leads to the target; it exists for one in four
        if single:
            if k: r = (int.from_bytes(gen.det(16, 'r', seed, k), 'little') & rchacha.CLAMP) or 4
            n = t * pow(r, -1, P) % P
            if not 1 << 128 <= n < 2 << 128: continue
            blk = (n - (1 << 128)).to_bytes(16, 'little')
            break
        x = gen.det(size, 'last', seed, k)
        if size == 16:
            x, y = None, x
            n = (t * rinv - (a + int.from_bytes(y + b'\1', 'little')) * r) % P
        else:
            n = ((t * rinv - int.from_bytes(x + b'\1', 'little')) * rinv - a) % P
        if not 1 << 128 <= n < 2 << 128: continue
        n = (n - (1 << 128)).to_bytes(16, 'little')
        blk = y + n if x is None else n + x
        break
    else:
        blk = gen.det(16 + size, 'none', seed)
        t = a
        for i in range(0, len(blk), 16): t = (t + int.from_bytes(blk[i:i + 16] + b'\1', 'little')) * r % P
    tail = gen.expand(draw(st.sampled_from([0, 0, 0, 1, 16, 17])), 6, draw(gen.SEED)) if size == 16 else b''
    msg = head + blk + tail
    for i in range(0, len(tail), 16): t = (t + int.from_bytes(tail[i:i + 16] + b'\1', 'little')) * r % P
    sk = draw(st.one_of(gen.bits(128), st.integers(-3, 3).map(lambda d: ((1 << 128) - t + d) % (1 << 128))))
    # bits that clamping clears may be set in the key
    noise = draw(gen.rnd(128)) & ~rchacha.CLAMP & ((1 << 128) - 1) if draw(st.booleans()) else 0
    return dict(key=(r | noise).to_bytes(16, 'little') + sk.to_bytes(16, 'little'), msg=msg)


@sub(strategy=targeted, q=3000, t=100000, qs=4)
def accumulator_edges(s, c):
    return run(s, c)


@st.composite
def related(draw):
    ks = draw(gen.relatives(keys(), 4))
    ms = draw(gen.relatives(gen.octets(100, F), 4, keep=False))
    return [[draw(st.sampled_from(ms)), draw(st.sampled_from(ks))] for _ in range(draw(st.integers(2, 10)))]


@sub(strategy=related, q=500, t=16000, qs=2)
def recurring_arguments(s, calls):
    hist.run(s, [[MOD, 'poly1305_mac', c, rchacha.poly1305(*c)] for c in calls])


def sweep(tier):
    for n in range(0, 330 if tier == 'quick' else 1100):
        yield dict(key=gen.det(32, 'pk', n), msg=gen.det(n, 'pm', n))
    for n in range(0, 100):
        yield dict(key=b'\xff' * 32, msg=b'\xff' * n)
    for n in (1024, 4096, 4097, 16384, 65535, 65536):
        yield dict(key=gen.det(32, 'pk', n), msg=gen.det(n, 'pm', n))
    for i in range(256):
        yield dict(key=(1 << i).to_bytes(32, 'little'), msg=b'\xff' * 33)


@sub(cases=sweep)
def every_length_and_key_bit(s, c):
    return run(s, c)


@sub(cases=lambda tier: [dict(key=k, msg=m) for n in gen.longs(tier, 70001, 262145) for k in (gen.det(32, 'long', n), b'\xff' * 32)
                         for m in (gen.det(n, 'lm'), b'\xff' * n)], qs=2)
def long_messages(s, c):
    return run(s, c)
