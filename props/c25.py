import hashlib
import hmac

from hypothesis import strategies as st

import gen
from core import sub, same, need, rejected
from sut import Exc

F = 'hash/pbkdf2.py'
RULE = 'one derived key compared with the reference; trivial: key size 0'
ALG = {None: 'sha1', 'HMAC_SHA1': 'sha1', 'HMAC_MD5': 'md5', 'SHA1': 'sha1', 'MD5': 'md5', 'SHA256': 'sha256', 'SHA384': 'sha384', 'SHA512': 'sha512'}


def ref(alg, password, salt, it, n):
    """RFC 2898, 5.2"""
    out = b''
    i = 0
    while len(out) < n:
        i += 1
        u = hmac.new(password, salt + i.to_bytes(4, 'big'), alg).digest()
        f = int.from_bytes(u, 'big')
        for _ in range(it - 1):
            u = hmac.new(password, u, alg).digest()
            f ^= int.from_bytes(u, 'big')
        out += f.to_bytes(len(u), 'big')
    return out[:n]


SIZES = [0, 1, 2, 15, 16, 17, 19, 20, 21, 31, 32, 33, 39, 40, 41, 59, 60, 61, 63, 64, 65, 80, 100, 128, 255, 256, 257]


@st.composite
def cases(draw):
    big = draw(st.integers(0, 9)) == 0
    it = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
    size = draw(st.one_of(st.sampled_from(SIZES), st.integers(0, 130)))
    if big: size, it = draw(st.integers(200, 1500)), draw(st.integers(1, 2))
    pw = draw(st.one_of(gen.octets(63, F), gen.texts(63), st.sampled_from([0, 1, 8, 62, 63]).flatmap(gen.fixed)))
    return [draw(st.sampled_from([None, None, None, 'HMAC_SHA1', 'HMAC_MD5', 'SHA1', 'MD5', 'SHA256', 'SHA384', 'SHA512'])), pw,
            draw(st.one_of(gen.octets(120, F), gen.octets(120, F), gen.texts(40))), it, size]


def check(s, c):
    prf, pw, salt, it, n = c
    want = ref(ALG[prf], pw, salt, it, n)
    x = s.f('hash.pbkdf2', 'pbkdf2', pw, salt, it, n) if prf is None else s.call('pbkdf2_prf', prf, pw, salt, it, n)
    same(x, want, 'pbkdf2(%s, %d-octet password, %d-octet salt, %d iterations, %d octets)' % (prf, len(pw), len(salt), it, n))
    return ['trivial'] if n == 0 else ['prf=%s' % prf]


@sub(strategy=cases, q=1000, t=30000, qs=4)
def random_inputs(s, c):
    return check(s, c)


def sweep(tier):
    for n in range(0, 90 if tier == 'quick' else 400): yield [None, gen.det(8 + n % 50, 'p', n), gen.det(n % 20, 's'), 1 + n % 3, n]
    for n in range(0, 64): yield [None, gen.det(n, 'q'), b'salt', 2, 25]
    for n in (0, 1, 4, 8, 51, 52, 55, 56, 60, 61, 63, 64, 65, 119, 120, 200, 1000): yield [None, b'password', gen.det(n, 'z'), 2, 41]
    for it in list(range(1, 40)) + [100, 255, 256, 257, 999, 1000, 1001] + ([4095, 4096, 4097, 10000] if tier == 'thorough' else []):
        yield [None, b'password', b'NaCl', it, 20]
    for n in (5099, 5100, 5101, 5119, 5120, 5121, 5139, 5140, 9999, 10000): yield [None, gen.det(20, 'w', n), gen.det(8, n), 1, n]
    for n, it in ((5121, 2), (5140, 3), (10000, 2)): yield [None, gen.det(20, 'w', n), gen.det(8, n), it, n]
    for n in (4095, 4096, 4097, 10000): yield ['SHA512', gen.det(20, 'w', n), gen.det(8, n), 1, n]
    for n in (4096, 10000): yield ['HMAC_MD5', gen.det(20, 'w', n), gen.det(8, n), 1, n]


@sub(cases=sweep, qs=2)
def all_sizes(s, c):
    return check(s, c)


def psk(tier):
    out = [[b'password', b'IEEE'], [b'ThisIsAPassword', b'ThisIsASSID'], [b'a' * 32, b'Z' * 32], [gen.det(63, 1), gen.det(32, 2)], [gen.det(8, 3), b'']]
    # characters and octets that text handling likes to drop or change
    for p in (b'passphrase\n', b' leading blank', b'trailing blank ', b'nul\0inside', b'\0\0leading', b'tab\tand\r\n', b'UPPERlower', b'12345678', b'0x123456', b'%s%d%%%n', b'pass\xc3\xa9word', b'\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8', b'        '):
        out.append([p, b'ssid'])
    for x in (b'ssid\n', b' ssid ', b'ss\0id', b'\0', b'SSID', b'\xff' * 32, b'0', gen.det(33, 5), gen.det(64, 5)):
        out.append([b'passphrase', x])
    for i in range(0 if tier == 'quick' else 60): out.append([gen.det(8 + i % 56, i, 'pp'), gen.det(i % 33, i, 'ss')])
    return out


@sub(cases=psk, qs=5)
def passphrases(s, c):
    same(s.f('hash.pbkdf2', 'dot11PassPhraseToPSK', c[0], c[1]), hashlib.pbkdf2_hmac('sha1', c[0], c[1], 4096, 32),
         'dot11PassPhraseToPSK, %d-character passphrase, %d-octet SSID' % (len(c[0]), len(c[1])))


def rejects(tier):
    for n in list(range(0, 8)) + [64, 65, 66, 100, 127, 128, 1000]: yield ['psk', n]
    for n in (64, 65, 66, 80, 100, 128, 200, 1000): yield ['pw', n]
    for n in (10001, 10002, 10020, 20000, 65536, 1 << 31, 1 << 32): yield ['size', n]


@sub(cases=rejects)
def rejections(s, c):
    k, n = c
    if k == 'psk': rejected(s.f('hash.pbkdf2', 'dot11PassPhraseToPSK', gen.det(n, 'r'), b'ssid'), '%d-character passphrase' % n)
    elif k == 'pw':
        rejected(s.f('hash.pbkdf2', 'pbkdf2', gen.det(n, 'r'), b'salt', 1, 20), '%d-octet password' % n)
        rejected(s.f('hash.pbkdf2', 'pbkdf2', gen.det(n, 'r'), b'', 2, 1), '%d-octet password' % n)
    else: rejected(s.f('hash.pbkdf2', 'pbkdf2', b'password', b'salt', 1, n), 'key size %d' % n)
    return [k]


@st.composite
def relations(draw):
    return [draw(gen.octets(63, F)), draw(gen.octets(40)), draw(st.integers(1, 5)), draw(st.integers(0, 120)), draw(st.integers(0, 120))]


@sub(strategy=relations, q=200, t=5000)
def shorter_keys_are_prefixes(s, c):
    pw, salt, it, a, b = c
    a, b = sorted((a, b))
    x, y = s.many([['hash.pbkdf2', 'pbkdf2', [pw, salt, it, a]], ['hash.pbkdf2', 'pbkdf2', [pw, salt, it, b]]])
    need(isinstance(x, bytes) and isinstance(y, bytes), lambda: 'pbkdf2: %s / %s' % (x, y))
    same(y[:a], x, 'the first %d of %d octets' % (a, b))
    return ['trivial'] if a == 0 else []


@st.composite
def recurring(draw):
    pws = draw(gen.relatives(gen.octets(30), 3, keep=False))
    salts = draw(gen.relatives(gen.octets(20), 3, keep=False))
    pws.append(pws[0] + salts[0][:1]); salts.append(salts[0][1:]); salts.append(pws[0])
    pws = [p[:63] for p in pws]
    its, ns = [draw(st.integers(1, 6)) for _ in range(2)], [draw(st.integers(0, 70)) for _ in range(2)] + [20]
    return [[draw(st.sampled_from([None, None, None, 'HMAC_SHA1', 'HMAC_MD5', 'SHA256']))] + [draw(st.sampled_from(x)) for x in (pws, salts, its, ns)] for _ in range(draw(st.integers(3, 10)))]


@sub(strategy=recurring, q=250, t=8000, qs=2)
def recurring_arguments(s, calls):
    for c in calls: check(s, c)
