from hypothesis import strategies as st

import gen
import raes
from core import sub, same, need, rejected
from sut import Exc

F = 'cipher/aes_siv.py'
MOD = 'cipher.aes_siv'
RULE = ('one batch of altered messages offered to decryption; the reference recomputes the synthetic IV and decides which are genuine; '
        'trivial: no alteration changed anything')


def flip(b, n):
    if not b: return b
    n %= 8 * len(b)
    b = bytearray(b); b[n // 8] ^= 1 << (n % 8)
    return bytes(b)


def siv_genuine(key, blob, ads):
    """plaintext, or None"""
    if len(blob) < 16: return None
    h = len(key) // 2
    pt = raes.siv_ctr(key[h:], blob[:16], blob[16:])
    return pt if raes.s2v(key[:h], list(ads) + [pt]) == blob[:16] else None


KINDS = ['bit', 'bit-iv', 'bit-ct', 'bit-ad', 'bit-key', 'swap-ads', 'drop-ad', 'add-ad', 'dup-ad', 'empty-ad', 'rotate', 'reverse', 'merge',
         'split', 'pad-ad', 'strip-ad', 'cut', 'cut-front', 'extend', 'extend0', 'short', 'empty', 'zero-iv', 'other-iv', 'iv-octet', 'iv-prefix',
         'iv-suffix', 'swap-keys', 'key-half', 'swap-blocks', 'pt-as-ad', 'ad-as-pt', 'bit31', 'bit63', 'two-bits', 'other-msg', 'ct-all', 'iv-rot']


@st.composite
def cases(draw):
    c = dict(key=draw(st.sampled_from([16, 24, 32]).flatmap(lambda n: gen.fixed(2 * n))), pt=draw(gen.octets(120, F)),
             ads=draw(st.one_of(st.lists(gen.octets(40), max_size=4), st.lists(gen.octets(5), min_size=2, max_size=8))))
    c['alt'] = [[draw(st.sampled_from(KINDS)), draw(st.integers(0, 1 << 16)), draw(st.integers(0, 1 << 16))] for _ in range(draw(st.integers(1, 5)))]
    return c


def alter(key, pt, ads, blob, kind, u, v):
    ads = list(ads)
    iv, ct = blob[:16], blob[16:]
    h = len(key) // 2
    n = len(ads)
    if kind == 'bit': blob = flip(blob, u)
    elif kind == 'bit-iv': blob = flip(iv, u) + ct
    elif kind == 'bit-ct': blob = iv + flip(ct, u)
    elif kind == 'bit-ad' and n: ads[v % n] = flip(ads[v % n], u)
    elif kind == 'bit-key': key = flip(key, u)
    elif kind == 'swap-ads' and n: i, j = u % n, v % n; ads[i], ads[j] = ads[j], ads[i]
    elif kind == 'drop-ad' and n: del ads[u % n]
    elif kind == 'add-ad': ads.insert(u % (n + 1), gen.det(v % 20, u))
    elif kind == 'dup-ad' and n: ads.insert(v % (n + 1), ads[u % n])
    elif kind == 'empty-ad': ads.insert(u % (n + 1), b'')
    elif kind == 'rotate' and n: ads = ads[1:] + ads[:1]
    elif kind == 'reverse': ads.reverse()
    elif kind == 'merge' and n > 1: i = u % (n - 1); ads[i:i + 2] = [ads[i] + ads[i + 1]]
    elif kind == 'split' and n: i = u % n; a = ads[i]; k = v % (len(a) + 1); ads[i:i + 1] = [a[:k], a[k:]]
    elif kind == 'pad-ad' and n: ads[u % n] += (b'\0', b'\x80', b'\x80' + bytes(15))[v % 3]
    elif kind == 'strip-ad' and n: ads[u % n] = ads[u % n][:-1]
    elif kind == 'cut': blob = blob[:len(blob) - 1 - u % len(blob)]
    elif kind == 'cut-front': blob = blob[1 + u % len(blob):]
    elif kind == 'extend': blob += gen.det(1 + u % 20, v)
    elif kind == 'extend0': blob += bytes(1 + u % 20)
    elif kind == 'short': blob = blob[:u % 17]
    elif kind == 'empty': blob = b''
    elif kind == 'zero-iv': blob = bytes(16) + ct
    elif kind == 'other-iv': blob = gen.det(16, u) + ct
    elif kind == 'iv-octet': i = u % 16; blob = iv[:i] + bytes([v & 255]) + iv[i + 1:] + ct
    elif kind == 'iv-prefix': i = u % 16; blob = iv[:i] + gen.det(16 - i, v) + ct
    elif kind == 'iv-suffix': i = u % 16; blob = gen.det(16 - i, v) + iv[16 - i:] + ct
    elif kind == 'swap-keys': key = key[h:] + key[:h]
    elif kind == 'key-half': key = key[:h] + flip(key[h:], u) if v & 1 else flip(key[:h], u) + key[h:]
    elif kind == 'swap-blocks' and len(ct) >= 32:
        b = [ct[i:i + 16] for i in range(0, len(ct), 16)]
        i, j = u % len(b), v % len(b); b[i], b[j] = b[j], b[i]; blob = iv + b''.join(b)
    elif kind == 'pt-as-ad': ads.append(pt)
    elif kind == 'ad-as-pt' and n:
        # the synthetic IV of the shorter list, over another plaintext
        blob = raes.s2v(key[:h], ads) + raes.siv_ctr(key[h:], raes.s2v(key[:h], ads), pt)
    elif kind == 'bit31': blob = flip(iv, 8 * 12 + 7) + ct
    elif kind == 'bit63': blob = flip(iv, 8 * 8 + 7) + ct
    elif kind == 'two-bits': blob = flip(flip(blob, u), v)
    elif kind == 'other-msg': blob = iv + gen.det(len(ct), u)
    elif kind == 'ct-all': blob = iv + bytes(x ^ (v & 255) for x in ct)
    elif kind == 'iv-rot': i = u % 16; blob = iv[i:] + iv[:i] + ct
    return key, ads, blob


@sub(strategy=cases, q=1200, t=40000, qs=4)
def alterations(s, c):
    key, pt, ads = c['key'], c['pt'], c['ads']
    blob = raes.siv_encrypt(key, pt, ads)
    wants = []
    labels = set()
    for kind, u, v in c['alt']:
        k2, a2, b2 = alter(key, pt, ads, blob, kind, u, v)
        if (k2, a2, b2) != (key, ads, blob): labels.add(kind)
        w = siv_genuine(k2, b2, a2)
        wants.append((kind, u, v, w, k2, a2, b2))
    fr = s.many([[MOD, 'siv_decrypt', [k2, b2, a2]] for _, _, _, _, k2, a2, b2 in wants])
    prog = []
    for _, _, _, _, k2, a2, b2 in wants:
        prog += [['new', 'o', MOD, 'AES_SIV', [k2], {}], ['meth', 'o', 'decrypt', [b2, a2], {}]]
    orr = s.call('objs', prog)[1::2]
    for (kind, u, v, w, k2, a2, b2), x, y in zip(wants, fr, orr):
        for name, g in (('function', x), ('class', y)):
            what = '%s decryption after %s(%d,%d) of a message of %d octets with %d data strings' % (name, kind, u, v, len(pt), len(ads))
            if w is None: rejected(g, what)
            else: same(g, w, what)
    return sorted(labels) or ['trivial']


def bits(tier):
    sizes = ((0, 0, 32), (1, 1, 48), (16, 2, 64), (33, 1, 32), (48, 3, 32)) if tier == 'quick' else \
        [(n, a, k) for n in range(0, 70, 3) for a in (0, 1, 2, 5) for k in (32, 48, 64)]
    for n, a, k in sizes:
        base = dict(key=gen.det(k, n, a), pt=gen.det(n, k), ads=[gen.det(3 + 7 * i, i, n) for i in range(a)])
        for lo in range(0, 8 * (16 + n), 64): yield dict(base, what='message', bits=list(range(lo, min(lo + 64, 8 * (16 + n)))))
        for i in range(a): yield dict(base, what=i, bits=list(range(8 * len(base['ads'][i]))))
        yield dict(base, what='key', bits=list(range(0, 8 * k, 1 if tier == 'thorough' else 5)))


@sub(cases=bits, qs=2)
def every_single_bit(s, c):
    key, pt, ads = c['key'], c['pt'], c['ads']
    blob = raes.siv_encrypt(key, pt, ads)
    items = []
    for b in c['bits']:
        k2, a2, b2 = key, list(ads), blob
        if c['what'] == 'message': b2 = flip(blob, b)
        elif c['what'] == 'key': k2 = flip(key, b)
        else: a2[c['what']] = flip(ads[c['what']], b)
        items.append([MOD, 'siv_decrypt', [k2, b2, a2]])
    items.append([MOD, 'siv_decrypt', [key, blob, ads]])
    r = s.many(items)
    for b, it, x in zip(c['bits'], items, r):
        # with an empty plaintext the second half of the key plays no part (RFC 5297): the reference tells
        if c['what'] == 'key' and siv_genuine(*it[2]) is not None: same(x, pt, 'decryption with an equivalent key')
        else: rejected(x, 'decryption with bit %d of %s flipped' % (b, c['what']))
    same(r[-1], pt, 'decryption of the genuine message')


def orders(tier):
    import itertools
    for n in range(1, 4 if tier == 'quick' else 6):
        for j in range(4):
            yield dict(key=gen.det(32, n, j), pt=gen.det(5 * j, n), ads=[gen.det((0, 3, 16, 20)[(i + j) % 4], i, j) for i in range(n)])


@sub(cases=orders)
def every_other_list(s, c):
    """every list made of the same strings with repetition and omission, up to one longer, except the right one"""
    import itertools
    key, pt, ads = c['key'], c['pt'], c['ads']
    blob = raes.siv_encrypt(key, pt, ads)
    items = []
    for n in range(len(ads) + 2):
        for a in itertools.product(ads + [b''], repeat=n):
            if list(a) != ads: items.append([MOD, 'siv_decrypt', [key, blob, list(a)]])
    items = items[:1500]
    for it, x in zip(items, s.many(items)): rejected(x, 'decryption with data lengths %s instead of %s' % ([len(z) for z in it[2][2]], [len(z) for z in ads]))


@st.composite
def histories(draw):
    k = [draw(st.sampled_from([16, 24, 32]).flatmap(lambda n: gen.fixed(2 * n)))]
    k.append(draw(st.sampled_from([k[0], draw(gen.relatives(st.just(k[0]), 1))[-1], gen.det(len(k[0]), 2)])))
    a = draw(st.lists(gen.octets(20), max_size=3))
    msgs = [[draw(gen.octets(40)), a], [draw(gen.octets(40)), draw(st.sampled_from([a, a[:-1], a + [b''], a[::-1]]))]]
    kinds = st.one_of(st.sampled_from(['good', 'good', 'other-ads', 'other-iv', 'other-ct']), st.sampled_from([x for x in KINDS if 'key' not in x]))
    return dict(keys=k, msgs=msgs, seq=[[draw(kinds)] + [draw(st.integers(0, 1)) for _ in range(3)] + [draw(st.integers(0, 1 << 16)), draw(st.integers(0, 1 << 16))]
                                         for _ in range(draw(st.integers(2, 9)))])


@sub(strategy=histories, q=500, t=16000, qs=3)
def histories_of_good_and_bad(s, c):
    """two objects (the keys may be equal), two messages that may share their data: neither an accepted nor a refused message
    changes what either object, or the function, accepts later"""
    prog = [['new', 'o%d' % i, MOD, 'AES_SIV', [k], {}] for i, k in enumerate(c['keys'])]
    wants = []
    for kind, w, i, f, u, v in c['seq']:
        (pt, ads), (pt2, ads2) = c['msgs'][w], c['msgs'][1 - w]
        key = c['keys'][0]
        blob, blob2 = raes.siv_encrypt(key, pt, ads), raes.siv_encrypt(key, pt2, ads2)
        if kind == 'other-ads': ads = ads2
        elif kind == 'other-iv': blob = blob2[:16] + blob[16:]
        elif kind == 'other-ct': blob = blob[:16] + blob2[16:]
        elif kind != 'good': _, ads, blob = alter(key, pt, ads, blob, kind, u, v)
        use = c['keys'][i]
        wants.append(siv_genuine(use, blob, ads))
        prog.append(['meth', 'o%d' % i, 'decrypt', [blob, ads], {}] if f else ['func', MOD, 'siv_decrypt', [use, blob, ads], {}])
    r = s.call('objs', prog)[2:]
    for n, (w, x) in enumerate(zip(wants, r)):
        what = 'decryption %d of a history' % n
        if w is None: rejected(x, what)
        else: same(x, w, what)


@sub(cases=lambda tier: [[n, k] for n in gen.longs(tier, 10007, 140000) for k in range(3)], qs=4)
def long_messages(s, c):
    """single octets of long messages and associated data altered, the last block of each included"""
    n, k = c
    key, pt, ads = gen.det((32, 48, 64)[k], n), gen.det(n, 'pt'), [b'short', gen.det(n // (k + 1), 'ad')]
    blob = raes.siv_encrypt(key, pt, ads)
    items = [[MOD, 'siv_decrypt', [key, blob, ads]]]
    spots = sorted({-1, -2, -16, -17, 0, 15, 16, 17} | {gen.detint(40, n, k, j) for j in range(6)} | {16 + 1024 * j for j in range(8)})
    for j in spots:
        items.append([MOD, 'siv_decrypt', [key, flip(blob, 8 * (j % len(blob)) + j % 8), ads]])
        items.append([MOD, 'siv_decrypt', [key, blob, [ads[0], flip(ads[1], 8 * (j % len(ads[1])) + j % 8)]]])
    items += [[MOD, 'siv_decrypt', [key, blob[:-1], ads]], [MOD, 'siv_decrypt', [key, blob[:-16], ads]], [MOD, 'siv_decrypt', [key, blob + b'\0', ads]],
              [MOD, 'siv_decrypt', [key, blob[:len(blob) // 2 // 16 * 16], ads]], [MOD, 'siv_decrypt', [key, blob, [ads[0], ads[1][:-1]]]],
              [MOD, 'siv_decrypt', [key, blob, [ads[0], ads[1] + b'\0']]]]
    r = s.many(items)
    same(r[0], pt, 'the genuine message of %d octets' % n)
    for i, (it, x) in enumerate(zip(items, r)):
        if i: rejected(x, 'alteration %d of a message of %d octets' % (i, n))


ENDS = [0, 9, 10, 13, 32, 255]


def special(tier):
    for end in (0, 1):
        for o in ENDS:
            for n in (0, 1, 15, 16, 17) if tier == 'quick' else range(0, 40):
                yield dict(end=end, octet=o, n=n)


@sub(cases=special, qs=2)
def synthetic_ivs_with_particular_ends(s, c):
    """the synthetic IV begins or ends with an octet that text and number handling treats as nothing: it is no less needed"""
    key, pt = gen.det(32, c['octet'], c['n']), gen.det(c['n'], c['end'])
    i = 0
    while 1:
        ads = [b'%d' % i]
        iv = raes.s2v(key[:16], ads + [pt])
        if iv[-c['end']] == c['octet']: break
        i += 1
    blob = raes.siv_encrypt(key, pt, ads)
    ct = blob[16:]
    edge = [bytes([o]) for o in range(256)]
    alt = [blob[1:], blob[:-1], iv[:-1] + ct, iv[1:] + ct, b'\0' + blob, b' ' + blob, blob + b' ', blob + b'\n', blob + b'\0', iv + b'\0' + ct, b'\0\0' + iv + ct,
           iv[1:] + iv[:1] + ct, iv.upper() + ct, iv.lower() + ct, iv.swapcase() + ct, iv.strip() + ct, iv.strip(b'\0') + ct]
    alt += [iv[:-1] + x + ct for x in edge] if c['end'] else [x + iv[1:] + ct for x in edge]
    items = [[MOD, 'siv_decrypt', [key, b, ads]] for b in alt]
    for b, x in zip(alt, s.many(items)):
        w = siv_genuine(key, b, ads)
        if w is None: rejected(x, 'decryption of %s instead of %s' % (b.hex(), blob.hex()))
        else: same(x, w, 'decryption of the genuine message')


@sub(cases=lambda tier: [[k, i] for k in (32, 48, 64) for i in range(3 if tier == 'quick' else 40)], qs=2)
def synthetic_ivs_that_look_alike(s, c):
    """synthetic IVs of the empty text other than the right one that agree with it in their sum, order-blind, word by word, in a checksum, a hash value"""
    k, i = c
    key, ads = gen.det(k, 'ak', c), [gen.det(i + j, 'aa', j) for j in range(i % 3)]
    iv = raes.siv_encrypt(key, b'', ads)
    alt = gen.alike(iv)
    for b, x in zip(alt, s.many([[MOD, 'siv_decrypt', [key, b, ads]] for b in alt])): rejected(x, 'decryption of %s instead of %s' % (b.hex(), iv.hex()))
    same(s.many([[MOD, 'siv_decrypt', [key, iv, ads]]])[0], b'', 'decryption of the genuine message')
