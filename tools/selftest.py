#!/usr/bin/env python3-vt
"""setup_cmd: the tools are there, the worker starts, and the reference implementations reproduce published vectors.
Nothing is built: the checks run the library's sources as they are in the working tree."""
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'harness'), os.path.join(V, 'ref')]
H = bytes.fromhex


def chacha():
    import rchacha as r
    assert r.qr(0x11111111, 0x01020304, 0x9b8d6f43, 0x01234567) == (0xea2a92f4, 0xcb1cf8ce, 0x4581472e, 0x5881c4bb)
    k = bytes(range(32))
    msg = (b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, "
           b"sunscreen would be it.")
    ct = r.encrypt(k, 1, H('000000000000004a00000000'), msg)
    assert ct[:16] == H('6e2e359a2568f98041ba0728dd0d6981') and ct[-10:] == H('b40b8eedf2785e42874d'), ct.hex()
    assert r.block(k, 1, H('000000090000004a00000000'))[:16] == H('10f1e7e4d13b5915500fdd1fa32071c4')
    tag = r.poly1305(b'Cryptographic Forum Research Group',
                     H('85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b'))
    assert tag == H('a8061dc1305136c6c22b8baf0c0127a9')
    # RFC 8439 A.3 vectors 7-11: carries at 2^130-5
    z = bytes(15)
    for key, m, t in (('02' + '00' * 31, 'ff' * 16, '03'), ('02' + '00' * 15 + 'ff' * 16, '02' + '00' * 15, '03'),
                      ('01' + '00' * 31, 'ff' * 16 + 'f0' + 'ff' * 15 + '11' + '00' * 15, '05'),
                      ('01' + '00' * 31, 'ff' * 16 + 'fb' + 'fe' * 15 + '01' * 16, '00')):
        assert r.poly1305(H(m), H(key)) == H(t) + z, (key, m)
    k = bytes(range(0x80, 0xa0))
    ct, tag = r.aead_encrypt(k, H('070000004041424344454647'), H('50515253c0c1c2c3c4c5c6c7'), msg)
    assert ct[:8] == H('d31a8d34648e60db') and tag == H('1ae10b594f09e26a7e902ecbd0600691')


def aes():
    import raes as r
    pt = H('00112233445566778899aabbccddeeff')
    for n, c in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'), (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'),
                 (32, '8ea2b7ca516745bfeafc49904b496089')):
        k = bytes(range(n))
        assert r.encrypt(k, pt) == H(c) and r.decrypt(k, H(c)) == pt
    k = H('2b7e151628aed2a6abf7158809cf4f3c')
    m = H('6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411'
          'e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710')
    for n, c in ((0, 'bb1d6929e95937287fa37d129b756746'), (16, '070a16b46b4d4144f79bdd9dd04a287c'),
                 (40, 'dfa66747de9ae63030ca32611497c827'), (64, '51f0bebf7e3b9d92fc49741779363cfe')):
        assert r.cmac(k, m[:n]) == H(c)
    assert [x.hex() for x in r.subkeys(k)] == ['fbeed618357133667c85e08f7236a8de', 'f7ddac306ae266ccf90bc11ee46d513b']
    for k, n, c in (('8e73b0f7da0e6452c810f32b809079e562f8ead2522c6b7b', 40, '8a1de5be2eb31aad089a82e6ee908b0e'),
                    ('603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4', 40,
                     'aaf3d8f1de5640c232f5b169b9c911e6')):
        assert r.cmac(H(k), m[:n]) == H(c)
    k = H('fffefdfcfbfaf9f8f7f6f5f4f3f2f1f0f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff')
    out = r.siv_encrypt(k, H('112233445566778899aabbccddee'), [H('101112131415161718191a1b1c1d1e1f2021222324252627')])
    assert out == H('85632d07c6e8f37f950acd320a2ecc9340c02b9690c4dc04daef7f6afe5c')
    k = H('7f7e7d7c7b7a79787776757473727170404142434445464748494a4b4c4d4e4f')
    ads = [H('00112233445566778899aabbccddeeffdeaddadadeaddadaffeeddccbbaa99887766554433221100'),
           H('102030405060708090a0'), H('09f911029d74e35bd84156c5635688c0')]
    out = r.siv_encrypt(k, b'this is some plaintext to encrypt using SIV-AES', ads)
    assert out == H('7bdb6e3b432667eb06f4d14bff2fbd0fcb900f2fddbe404326601965c889bf17'
                    'dba77ceb094fa663b7a3f748ba8af829ea64ad544a272e9c485b62a3fd5c0d')


def sm4():
    import rsm4
    t = list(rsm4.sm4())
    assert sorted(t) == list(range(256)) and t[:4] == [0xd6, 0x90, 0xe9, 0xfe] and t[0xef] == 0x84 and t[255] == 0x48


def dot11():
    import rdot11 as r
    key = bytes(8)
    for m, want in ((b'', '82925c1ca1d130b8'), (b'M', '434721ca40639b3f'), (b'Mi', 'e8f9becae97e5d29'),
                    (b'Mic', '90038fc6cf13c1db'), (b'Mich', 'd55e100510128986'), (b'Michael', '0a942b124ecaa546')):
        key = r.michael(key, m)                     # IEEE 802.11i: each result is the key of the next line
        assert key == H(want), (m, key.hex())
    tk, ta, pn = bytes(range(16)), H('102233445566'), H('000000000000')
    assert r.tkip(tk, ta, pn) == H('00200033ea8d2f60ca6d1374234a660b')
    assert r.tkip(tk, ta, H('010000000000')) == H('00200190ffdc314389a9d9d074fd20aa')


def pi():
    import rpi
    d = str(rpi.digits(1000))[1:]
    assert d.startswith('14159265358979323846264338327950288419716939937510'), d
    assert d.endswith('2164201989'), d[980:]


def primes():
    import rprime as r
    assert sum(r.is_prime(n) for n in range(100000)) == 9592
    for n in (3215031751, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461,
              3317044064679887385961981, 5459, 5777, 10877, 561, 41041, 825265):
        assert not r.is_prime(n), n
    for e in (61, 89, 107, 127, 521, 607): assert r.is_prime(2 ** e - 1)
    assert r.next_prime(10 ** 12) == 10 ** 12 + 39
    assert [r.jacobi(a, 15) for a in range(8)] == [0, 1, 1, 0, 1, 0, 0, -1]


def groups():
    import rec
    for kind in 'WMT':
        gs = [rec.tiny(kind, p) for p in (7, 11, 13)]
        for g in [x for y in gs for x in (y[:6] if isinstance(y, list) else [y])]:
            g = g[0] if isinstance(g, tuple) else g
            pts = list(g.pts())
            for a in pts:
                for b in pts:
                    ab = g.add(a, b)
                    assert ab == g.add(b, a) and ab in pts
                    for c in pts[::3]:
                        assert g.add(ab, c) == g.add(a, g.add(b, c))
    p = 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1
    g = rec.W(p, -3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b)
    G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
         0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
    assert g.mul(2, G)[0] == 0x7cf27b188d034f7e8a52380304b51ac3c08969e277f21b35a60b48fc47669978
    n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
    assert g.mul(n, G) is None and g.mul(n - 1, G) == g.neg(G)
    for b in (24, 96):
        for f in (lambda: rec.w_curve(b, 5), lambda: rec.m_curve(b, 5), lambda: rec.t_curve(b, 5, 'T')): f()


def worker():
    import hypothesis  # noqa: F401
    from sut import Sut
    s = Sut()
    try:
        r = s.f('ecc.numbertheory', 'gcd', 12, 18)
        assert r == 6, r
    finally:
        s.close()


bad = 0
for f in (chacha, aes, sm4, dot11, pi, primes, groups, worker):
    try:
        f()
        print('ok   %s' % f.__name__)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('FAIL %s: %r' % (f.__name__, e))
        bad = 1
sys.exit(bad)
