"""Strategies.  Large data is described by (length, kind, seed) and expanded, so that generation stays cheap and
shrinking works on the description; cases always carry the expanded values."""
import functools
import hashlib
import os
import re

from hypothesis import strategies as st

from sut import REPO


@functools.lru_cache(None)
def constants(*files):
    """Integer literals of the library's current source: guides generation, never an oracle."""
    out = set()
    for f in files:
        try:
            with open(os.path.join(REPO, f), encoding='utf-8', errors='replace') as h: s = h.read()
        except OSError:
            continue
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[lL]?(?![\w.])', s):
            try:
                out.add(int(m.group(1), 0 if m.group(1)[:2] in ('0x', '0X') else 10))
            except ValueError:
                pass
    return tuple(sorted(out))


def expand(length, kind, seed):
    if length <= 0: return b''
    k = kind % 8
    if k == 0: return b'\0' * length
    if k == 1: return b'\xff' * length
    if k == 2: return bytes([seed & 0xff]) * length
    r = hashlib.shake_128(b'%d' % seed).digest(length)
    if k == 3:                      # mostly zero
        b = bytearray(length); b[seed % length] = r[0] | 1
        return bytes(b)
    if k == 4:                      # mostly 0xff
        b = bytearray(b'\xff' * length); b[seed % length] = r[0] & 0xfe
        return bytes(b)
    if k == 5: return bytes((x & 0x80) for x in r) if seed & 1 else bytes((x | 0x80) for x in r)
    return r


SEED = st.integers(0, (1 << 24) - 1)


def fixed(n):
    """octet strings of exactly n octets, edge-biased"""
    return st.builds(expand, st.just(n), st.sampled_from([6, 7, 6, 7, 0, 1, 2, 3, 4, 5]), SEED)


EDGE_LENGTHS = [0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 81, 95, 96, 97, 127, 128, 129,
                191, 192, 193, 255, 256, 257, 319, 320, 321, 511, 512, 513]


def lengths(maxlen, *files):
    pool = [x for x in EDGE_LENGTHS if x <= maxlen]
    dic = sorted({y for x in constants(*files) for y in (x - 1, x, x + 1) if 0 <= y <= maxlen}) or [0]
    return st.one_of(st.integers(0, min(40, maxlen)), st.sampled_from(pool), st.integers(0, maxlen), st.sampled_from(dic))


def octets(maxlen, *files):
    return st.builds(expand, lengths(maxlen, *files), st.sampled_from([6, 7, 6, 7, 6, 7, 0, 1, 2, 3, 4, 5]), SEED)


def rnd(n):
    """n arbitrary bits from a seed"""
    return SEED.map(lambda s: int.from_bytes(hashlib.shake_128(b'r%d' % s).digest((n + 7) // 8), 'big') & ((1 << n) - 1))


@functools.lru_cache(None)
def bits(n):
    """integers 0 .. 2^n-1 with structure: powers of two and neighbours, runs, sparse, small, arbitrary"""
    top = (1 << n) - 1

    def cut(v): return v & top if v >= 0 else 0
    run = st.builds(lambda a, b: cut(((1 << (a % n + 1)) - 1) << (b % n)), st.integers(0, 1 << 12), st.integers(0, 1 << 12))
    near = st.builds(lambda k, d: cut((1 << k) + d), st.integers(0, n), st.integers(-3, 3))
    sparse = st.lists(st.integers(0, n - 1), max_size=4).map(lambda l: functools.reduce(lambda x, y: x | (1 << y), l, 0))
    dense = st.lists(st.integers(0, n - 1), max_size=4).map(lambda l: top ^ functools.reduce(lambda x, y: x | (1 << y), l, 0))
    alt = st.builds(lambda w, s: cut(functools.reduce(lambda x, i: x | ((((1 << w) - 1)) << (i * 2 * w)), range(n // w + 1), 0) << s),
                    st.integers(1, 8), st.integers(0, 8))
    return st.one_of(rnd(n), rnd(n), st.integers(0, min(top, 300)), near, run, sparse, dense, alt,
                     st.integers(0, 64).map(lambda d: max(0, top - d)))


def below(m):
    """0 .. m-1, edge-biased"""
    n = m.bit_length()
    return st.one_of(bits(n).map(lambda v: v % m), st.integers(0, min(m - 1, 20)), st.integers(1, min(m, 20)).map(lambda d: m - d),
                     st.integers(-3, 3).map(lambda d: (m // 2 + d) % m), rnd(n + 16).map(lambda v: v % m))


def word32():
    return st.one_of(bits(32), st.sampled_from([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xffff, 0x10000]))


def det(n, *tag):
    """deterministic octets for enumerated cases"""
    return hashlib.shake_128(repr(tag).encode()).digest(n)


def detint(n, *tag):
    return int.from_bytes(det((n + 7) // 8, *tag), 'big') & ((1 << n) - 1)


@st.composite
def relatives(draw, base, n=4, keep=True):
    """byte strings of base and ones that agree with them in most respects; keep: all of the same length"""
    out = [draw(base)]
    for _ in range(draw(st.integers(1, n))):
        x = out[draw(st.integers(0, len(out) - 1))]
        k = draw(st.sampled_from(['new', 'bit', 'bit', 'first', 'last', 'half', 'half', 'swap', 'rotate', 'reverse', 'quarter'] +
                                 ([] if keep else ['cut', 'extend', 'zero', 'lead', 'double'])))
        y = bytearray(x)
        if k == 'new' or not x: y = draw(base)
        elif k == 'bit':
            i = draw(st.integers(0, 8 * len(x) - 1)); y[i // 8] ^= 1 << (i % 8)
        elif k == 'first': y[0] ^= draw(st.integers(1, 255))
        elif k == 'last': y[-1] ^= draw(st.integers(1, 255))
        elif k == 'half':
            h = len(x) // 2
            y = x[:h] + expand(len(x) - h, 6, draw(SEED)) if draw(st.booleans()) else expand(h, 6, draw(SEED)) + x[h:]
        elif k == 'quarter':
            h = len(x) // 4; i = draw(st.integers(0, 3)) * h
            y = x[:i] + expand(h, 6, draw(SEED)) + x[i + h:]
        elif k == 'swap': y = x[len(x) // 2:] + x[:len(x) // 2]
        elif k == 'rotate': y = x[1:] + x[:1]
        elif k == 'reverse': y = x[::-1]
        elif k == 'cut': y = x[:-1]
        elif k == 'extend': y = x + expand(1, 6, draw(SEED))
        elif k == 'zero': y = x + b'\0' * draw(st.integers(1, 3))
        elif k == 'lead': y = b'\0' + x
        else: y = x + x
        out.append(bytes(y))
    return out


def texts(maxlen):
    """octet strings with what text handling likes to drop or change: blanks, line ends, NUL, case, digits, high octets"""
    bits = st.sampled_from([b' ', b'\n', b'\r\n', b'\t', b'\0', b'a', b'A', b'0', b'00', b'0x', b'%', b'\x7f', b'\x80', b'\xff', b'\xc3\xa9', b'abc', b'\\', b'"', b"'", b'-', b'+', b'L'])
    return st.lists(bits, max_size=12).map(lambda l: b''.join(l)[:maxlen])


def crc32(b):
    c = 0
    for x in b:
        c ^= x
        for _ in range(8): c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
    return c


def alike(block):
    """octet strings of the same length that agree with block in what is cheaper to compare than the octets: their sum, their exclusive or, the set
    of them, their words, a checksum, a hash value of the language, the visible characters, a floating point number"""
    b, n, out = list(block), len(block), []
    def put(*ch):
        y = list(b)
        for i, v in ch: y[i] = v
        if all(0 <= v < 256 for v in y): out.append(bytes(y))
    for i in range(n - 1):
        put((i, b[i + 1]), (i + 1, b[i]))                      # exchanged
        put((i, b[i] + 1), (i + 1, b[i + 1] - 1)); put((i, b[i] - 1), (i + 1, b[i + 1] + 1))       # the same sum
        put((i, b[i] + 1), (i + 1, b[i + 1] - 31)); put((i, b[i] - 1), (i + 1, b[i + 1] + 31))     # the same hash value in Java
        for m in (1, 0x80, 0xff): put((i, b[i] ^ m), (i + 1, b[i + 1] ^ m))                        # the same exclusive or
    for i in range(n - 2):
        put((i, b[i] + 1), (i + 1, b[i + 1] - 2), (i + 2, b[i + 2] + 1)); put((i, b[i] - 1), (i + 1, b[i + 1] + 2), (i + 2, b[i + 2] - 1))     # the same Adler checksum
    for w in (2, 4, 8):
        words = [bytes(b[i:i + w]) for i in range(0, n, w)]
        out += [b''.join(words[::-1]), b''.join(words[1:] + words[:1]), b''.join(w[::-1] for w in words)]
        for m in (1, 0x80):
            for i in range(0, n - w, w): put((i, b[i] ^ m), (i + w, b[i + w] ^ m)); put((i + w - 1, b[i + w - 1] ^ m), (i + 2 * w - 1, b[i + 2 * w - 1] ^ m))
    poly = int.from_bytes(bytes(b), 'little')
    for i in range(8 * n - 32): out.append((poly ^ 0x1DB710641 << i).to_bytes(n, 'little'))     # the same CRC-32
    out += [bytes(sorted(b)), bytes(b[::-1]), bytes(x & 0x7f for x in b), bytes(x ^ 0x80 for x in b), bytes(b).swapcase(), bytes([0x3f] * n), bytes(x if x < 128 else 0x3f for x in b)]
    out += [bytes([b[0]] * n), bytes(b[:n // 2] * 2), bytes(b[n // 2:] * 2), bytes(n), bytes([255] * n)]
    return [y for y in dict.fromkeys(out) if y != bytes(b)]


LONG = [700, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10007, 16383, 16384, 16385, 20011, 32767, 32768, 32769,
        50021, 65535, 65536, 65537, 70001, 100003, 131071, 131072, 131073, 200003, 262143, 262144, 262145]


def longs(tier, top, more=None):
    """lengths far beyond the usual, around the sizes at which buffers and counters turn over"""
    return [n for n in LONG if n <= (top if tier == 'quick' else more or 2 * top)]
