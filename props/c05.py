from hypothesis import strategies as st

import gen
import rchacha
from core import sub, same, need, rejected
from sut import Exc

F = 'cipher/chacha_poly.py'
MOD = 'cipher.chacha_poly'
RULE = ('one decryption of a genuine or altered message, both interfaces, against the reference tag; '
        'an alteration that leaves everything unchanged is trivial')


@st.composite
def genuine(draw):
    split = draw(st.sampled_from([4, 4, 4, 0, 1, 8, 11, 12]))
    return dict(key=draw(gen.fixed(32)), constant=draw(gen.fixed(split)), iv=draw(gen.fixed(12 - split)),
                aad=draw(gen.octets(200, F)), pt=draw(gen.octets(300, F)))


def det_dec(key, constant, aad, iv, ct):
    return [['new', 'd', MOD, 'ChaCha20_AEAD', [key, constant], {}], ['meth', 'd', 'decrypt', [aad, iv, ct], {}]]


def com_dec(key, constant, aad, blob):
    return [['new', 'c', MOD, 'ChaCha_Poly_AEAD', [key, constant], {}], ['meth', 'c', 'decrypt', [aad, blob], {}]]


@sub(strategy=genuine, q=800, t=30000, qs=3)
def round_trip(s, c):
    key, cst, iv, aad, pt = c['key'], c['constant'], c['iv'], c['aad'], c['pt']
    ct, tag = rchacha.aead_encrypt(key, cst + iv, aad, pt)
    # the library's own output, and the reference's
    r = s.call('objs', [['new', 'd', MOD, 'ChaCha20_AEAD', [key, cst], {}], ['new', 'c', MOD, 'ChaCha_Poly_AEAD', [key, cst], {}],
                        ['meth', 'd', 'encrypt', [aad, iv, pt], {}], ['meth', 'c', 'encrypt', [aad, iv, pt], {}]])
    need(isinstance(r[2], list) and len(r[2]) == 2, lambda: 'encrypt: %r' % (r[2],))
    need(isinstance(r[3], bytes), lambda: 'combined encrypt: %r' % (r[3],))
    prog = [['new', 'd', MOD, 'ChaCha20_AEAD', [key, cst], {}], ['new', 'c', MOD, 'ChaCha_Poly_AEAD', [key, cst], {}],
            ['meth', 'd', 'decrypt', [aad, iv, r[2][0]], {}], ['meth', 'c', 'decrypt', [aad, r[3]], {}],
            ['meth', 'd', 'decrypt', [aad, iv, ct], {}], ['meth', 'c', 'decrypt', [aad, iv + ct + tag], {}],
            ['meth', 'd', 'decrypt', [aad, iv, ct], {}], ['meth', 'c', 'decrypt', [aad, iv + ct + tag], {}]]
    x = s.call('objs', prog)
    same(x[2], [pt, r[2][1]], 'detached decryption of what encrypt returned')
    same(x[3], pt, 'combined decryption of what encrypt returned')
    for k in (4, 6): same(x[k], [pt, tag], 'detached decryption of a standard message')
    for k in (5, 7): same(x[k], pt, 'combined decryption of a standard message')
    return ['trivial'] if not pt else []


ALTER = ['flip-ct', 'flip-tag', 'flip-iv', 'flip-aad', 'flip-key', 'flip-const', 'cut-end', 'cut-front', 'cut-any', 'extend', 'extend-front',
         'extend-aad', 'cut-aad', 'move-aad-to-ct', 'move-ct-to-aad', 'zero-tag', 'tag-of-pt', 'other-tag', 'swap', 'pad-aad', 'pad-ct',
         'short', 'two-flips', 'tag-octet', 'tag-prefix']


@st.composite
def altered(draw):
    g = draw(genuine())
    g['alt'] = [[draw(st.sampled_from(ALTER)), draw(st.integers(0, 1 << 16)), draw(st.integers(0, 1 << 16))] for _ in range(draw(st.integers(1, 4)))]
    return g


def flip(b, n):
    if not b: return b
    n %= 8 * len(b)
    b = bytearray(b); b[n // 8] ^= 1 << (n % 8)
    return bytes(b)


def alter(g, kind, u, v):
    """-> key, constant, aad, blob (iv||ct||tag)"""
    key, cst, iv, aad, pt = g['key'], g['constant'], g['iv'], g['aad'], g['pt']
    ct, tag = rchacha.aead_encrypt(key, cst + iv, aad, pt)
    blob = iv + ct + tag
    if kind == 'flip-ct': ct = flip(ct, u)
    elif kind == 'flip-tag': tag = flip(tag, u)
    elif kind == 'flip-iv': iv = flip(iv, u)
    elif kind == 'flip-aad': aad = flip(aad, u)
    elif kind == 'flip-key': key = flip(key, u)
    elif kind == 'flip-const': cst = flip(cst, u)
    elif kind == 'extend-aad': aad = aad + bytes([v & 255] * (u % 20))
    elif kind == 'cut-aad': aad = aad[:len(aad) - u % 20] if u % 20 else aad
    elif kind == 'move-aad-to-ct': k = u % (len(aad) + 1); aad, ct = aad[:len(aad) - k], aad[len(aad) - k:] + ct
    elif kind == 'move-ct-to-aad': k = u % (len(ct) + 1); aad, ct = aad + ct[:k], ct[k:]
    elif kind == 'zero-tag': tag = bytes(16)
    elif kind == 'tag-of-pt': tag = rchacha.aead_tag(key, cst + iv, aad, pt)
    elif kind == 'other-tag': tag = gen.det(16, u)
    elif kind == 'pad-aad': aad = aad + rchacha.pad16(aad)
    elif kind == 'pad-ct': ct = ct + rchacha.pad16(ct)
    elif kind == 'two-flips': ct = flip(flip(ct, u), v)
    elif kind == 'tag-octet': i = u % 16; tag = tag[:i] + bytes([v & 255]) + tag[i + 1:]
    elif kind == 'tag-prefix': i = u % 16; tag = tag[:i] + gen.det(16 - i, v)
    elif kind == 'swap' and len(ct) >= 32:
        b = [ct[i:i + 16] for i in range(0, len(ct), 16)]
        i, j = u % len(b), v % len(b); b[i], b[j] = b[j], b[i]; ct = b''.join(b)
    if kind in ('cut-end', 'cut-front', 'cut-any', 'extend', 'extend-front', 'short'):
        if kind == 'cut-end': blob = blob[:len(blob) - 1 - u % 40] if len(blob) > u % 40 else b''
        elif kind == 'cut-front': blob = blob[1 + u % 40:]
        elif kind == 'cut-any': i = u % max(1, len(blob)); blob = blob[:i] + blob[i + 1 + v % 20:]
        elif kind == 'extend': blob = blob + gen.det(1 + u % 20, v)
        elif kind == 'extend-front': blob = gen.det(1 + u % 20, v) + blob
        else: blob = blob[:u % 28]
        return key, cst, aad, blob
    return key, cst, aad, iv + ct + tag


@sub(strategy=altered, q=1200, t=50000, qs=4)
def tampering(s, c):
    key, cst, iv, aad, pt = c['key'], c['constant'], c['iv'], c['aad'], c['pt']
    ct, tag = rchacha.aead_encrypt(key, cst + iv, aad, pt)
    labels = ['trivial']
    for kind, u, v in c['alt']:
        k2, c2, a2, blob = alter(c, kind, u, v)
        changed = (k2, c2, a2, blob) != (key, cst, aad, iv + ct + tag)
        r = s.call('objs', com_dec(k2, c2, a2, blob))
        need(r[0] is None, lambda: 'constructor: %s' % r[0])
        n = 12 - len(c2)
        # a collision of the reference tag itself has probability below 2^-100
        if len(blob) >= n + 16:
            iv2, ct2, tag2 = blob[:n], blob[n:-16], blob[-16:]
            want = rchacha.aead_tag(k2, c2 + iv2, a2, ct2)
            valid = want == tag2
            d = s.call('objs', det_dec(k2, c2, a2, iv2, ct2))
            same(d[1], [rchacha.encrypt(k2, 1, c2 + iv2, ct2), want], 'detached decryption after %s' % kind)
        else:
            valid = False
        if valid:
            same(r[1], rchacha.encrypt(k2, 1, c2 + blob[:n], blob[n:-16]), 'combined decryption of a valid message')
        else:
            rejected(r[1], 'combined decryption after %s (%d,%d)' % (kind, u, v))
        if changed: labels = [x for x in labels if x != 'trivial'] + [kind]
    return labels


def every_bit(tier):
    for n, a in ((0, 0), (1, 0), (16, 3), (33, 17), (64, 0), (70, 5)) if tier == 'quick' else [(n, a) for n in range(0, 80, 3) for a in (0, 1, 16, 20)]:
        g = dict(key=gen.det(32, n), constant=gen.det(4, n), iv=gen.det(8, a), aad=gen.det(a, 'x'), pt=gen.det(n, 'y'))
        total = 8 * (8 + n + 16)
        for lo in range(0, total, 64):
            yield dict(g, bits=list(range(lo, min(lo + 64, total))), what='blob')
        if a: yield dict(g, bits=list(range(8 * a)), what='aad')
        yield dict(g, bits=list(range(0, 256, 5)), what='key')


@sub(cases=every_bit, qs=2)
def every_single_bit(s, c):
    key, cst, iv, aad, pt = c['key'], c['constant'], c['iv'], c['aad'], c['pt']
    ct, tag = rchacha.aead_encrypt(key, cst + iv, aad, pt)
    blob = iv + ct + tag
    prog = []
    for b in c['bits']:
        k2, a2, m2 = key, aad, blob
        if c['what'] == 'blob': m2 = flip(blob, b)
        elif c['what'] == 'aad': a2 = flip(aad, b)
        else: k2 = flip(key, b)
        prog += com_dec(k2, cst, a2, m2)
    prog += com_dec(key, cst, aad, blob)
    r = s.call('objs', prog)
    for b, x in zip(c['bits'], r[1::2]): rejected(x, 'combined decryption with bit %d of the %s flipped' % (b, c['what']))
    same(r[-1], pt, 'combined decryption of the genuine message afterwards')


@st.composite
def mixed(draw):
    """one object of each interface, two messages that share parts, and a sequence of genuine and altered uses in any order"""
    g = draw(genuine())
    h = dict(iv=draw(st.sampled_from([g['iv'], gen.det(len(g['iv']), 1)])), aad=draw(st.sampled_from([g['aad'], g['aad'] + b'x', b''])),
             pt=draw(st.sampled_from([g['pt'], g['pt'][::-1], g['pt'] + b'\0'])))
    g['second'] = h
    kinds = st.one_of(st.sampled_from(['good', 'good', 'enc']), st.sampled_from([k for k in ALTER if k not in ('flip-key', 'flip-const')]),
                      st.sampled_from(['flip-aad', 'cut-aad', 'extend-aad', 'other-aad', 'other-text', 'other-iv', 'flip-tag', 'flip-ct']))
    g['seq'] = [[draw(kinds), draw(st.integers(0, 1)), draw(st.integers(0, 1 << 16)), draw(st.integers(0, 1 << 16))] for _ in range(draw(st.integers(2, 9)))]
    return g


@sub(strategy=mixed, q=600, t=20000, qs=3)
def histories_of_good_and_bad(s, c):
    """neither an accepted nor a refused message changes what the object does later"""
    key, cst = c['key'], c['constant']
    both = [c, dict(c['second'], key=key, constant=cst)]
    prog = [['new', 'c', MOD, 'ChaCha_Poly_AEAD', [key, cst], {}], ['new', 'd', MOD, 'ChaCha20_AEAD', [key, cst], {}]]
    wants = []
    for k, w, u, v in c['seq']:
        g, o = both[w], both[1 - w]
        iv, aad, pt = g['iv'], g['aad'], g['pt']
        ct, tag = rchacha.aead_encrypt(key, cst + iv, aad, pt)
        if k == 'enc':
            prog += [['meth', 'c', 'encrypt', [aad, iv, pt], {}], ['meth', 'd', 'encrypt', [aad, iv, pt], {}]]
            wants += [iv + ct + tag, [ct, tag]]
            continue
        blob = iv + ct + tag
        if k == 'other-aad': aad = o['aad']
        elif k == 'other-text':
            c2, t2 = rchacha.aead_encrypt(key, cst + o['iv'], o['aad'], o['pt'])
            blob = iv + c2 + tag
        elif k == 'other-iv': blob = o['iv'] + ct + tag
        elif k != 'good': _, _, aad, blob = alter(g, k, u, v)
        prog.append(['meth', 'c', 'decrypt', [aad, blob], {}])
        n = 12 - len(cst)
        if len(blob) < n + 16:
            wants.append(None)
            continue
        iv, ct, tag = blob[:n], blob[n:-16], blob[-16:]
        t = rchacha.aead_tag(key, cst + iv, aad, ct)
        p = rchacha.encrypt(key, 1, cst + iv, ct)
        wants.append(p if t == tag else None)
        prog.append(['meth', 'd', 'decrypt', [aad, iv, ct], {}])
        wants.append([p, t])
    r = s.call('objs', prog)[2:]
    for i, (step, w, x) in enumerate(zip(prog[2:], wants, r)):
        what = 'call %d of a history (%s of the %s object)' % (i, step[2], 'combined' if step[1] == 'c' else 'detached')
        if w is None: rejected(x, what)
        else: same(x, w, what)


@st.composite
def related(draw):
    keys, csts = draw(gen.relatives(gen.fixed(32), 2)), draw(gen.relatives(gen.fixed(4), 1))
    ivs, texts = draw(gen.relatives(gen.fixed(8), 1)), draw(gen.relatives(gen.octets(70), 3, keep=False))
    objs = [[draw(st.sampled_from(keys)), draw(st.sampled_from(csts))] for _ in range(draw(st.integers(2, 3)))]
    msg = st.tuples(st.integers(0, len(objs) - 1), st.sampled_from(ivs), st.sampled_from(texts), st.sampled_from(texts)).map(list)
    return dict(objs=objs, msgs=draw(st.lists(msg, min_size=1, max_size=3)),
                seq=draw(st.lists(st.tuples(st.integers(0, len(objs) - 1), st.integers(0, 2), st.sampled_from(texts + [None, None])).map(list), min_size=2, max_size=10)))


@sub(strategy=related, q=400, t=14000, qs=2)
def related_objects(s, c):
    """messages of one object offered to others whose keys or constants are nearly the same"""
    prog = [['new', 'o%d' % i, MOD, 'ChaCha_Poly_AEAD', [k, cst], {}] for i, (k, cst) in enumerate(c['objs'])]
    wants = []
    for j, m, other in c['seq']:
        i, iv, aad, pt = c['msgs'][m % len(c['msgs'])]
        k, cst = c['objs'][i]
        ct, tag = rchacha.aead_encrypt(k, cst + iv, aad, pt)
        if other is not None: aad = other
        k2, cst2 = c['objs'][j]
        wants.append(rchacha.encrypt(k2, 1, cst2 + iv, ct) if rchacha.aead_tag(k2, cst2 + iv, aad, ct) == tag else None)
        prog.append(['meth', 'o%d' % j, 'decrypt', [aad, iv + ct + tag], {}])
    r = s.call('objs', prog)[len(c['objs']):]
    for n, (w, x) in enumerate(zip(wants, r)):
        what = 'decryption %d of a history over related objects' % n
        if w is None: rejected(x, what)
        else: same(x, w, what)
    return ['accepted'] * any(w is not None for w in wants) + ['rejected'] * any(w is None for w in wants)


def large(tier):
    for a, p in ((65536, 17), (65537, 64), (20, 65536), (65555, 65537)) + (((1 << 18) + 3, 5), (5, (1 << 17) + 1), ((1 << 24) + 1, 0)) * (tier == 'thorough'):
        yield dict(key=gen.det(32, a, p), constant=gen.det(4, a), iv=gen.det(8, p), aad=gen.det(a, 'x'), pt=gen.det(p, 'y'))


@sub(cases=large, qs=4)
def lengths_beyond_16_bits(s, c):
    """the genuine message, one with a lost or added octet, one with a bit flipped far from the start, one whose length fields agree modulo 2^16"""
    key, cst, iv, aad, pt = c['key'], c['constant'], c['iv'], c['aad'], c['pt']
    ct, tag = rchacha.aead_encrypt(key, cst + iv, aad, pt)
    r = s.call('objs', det_dec(key, cst, aad, iv, ct) + com_dec(key, cst, aad, iv + ct + tag))
    same(r[1], [pt, tag], 'detached decryption')
    same(r[3], pt, 'combined decryption')
    bad = [(aad, ct, flip(tag, 77)), (flip(aad, 8 * len(aad) - 3), ct, tag), (aad, flip(ct, 8 * len(ct) - 9), tag)]
    if len(aad) > 65536: bad.append((aad[:-65536], ct, tag))
    bad.append((aad[:-1], ct, tag))
    for a2, c2, t2 in bad:
        rejected(s.call('objs', com_dec(key, cst, a2, iv + c2 + t2))[1], 'combined decryption, altered (%d, %d octets)' % (len(a2), len(c2)))


def special(tier):
    for end in (0, 1):
        for o in (0, 9, 10, 13, 32, 255):
            for n in (0, 1, 16) if tier == 'quick' else range(0, 34):
                yield dict(end=end, octet=o, n=n)


@sub(cases=special)
def tags_with_particular_ends(s, c):
    """the tag begins or ends with an octet that text and number handling treats as nothing: it is no less needed"""
    key, cst, aad, pt = gen.det(32, c['octet'], c['n']), gen.det(4, c['n']), gen.det(c['octet'], 'a'), gen.det(c['n'], c['end'])
    i = 0
    while 1:
        iv = b'%08d' % i
        ct, tag = rchacha.aead_encrypt(key, cst + iv, aad, pt)
        if tag[-c['end']] == c['octet']: break
        i += 1
    head = iv + ct
    blob = head + tag
    alt = [blob[:-1], blob[1:], head + tag[1:], head + b'\0' + tag, head + tag + b'\0', head + tag + b' ', head + tag + b'\n', head + tag.upper(), head + tag.lower(),
           head + tag.swapcase(), head + tag.strip(), head + tag[1:] + tag[:1], head + tag[::-1], head]
    alt += [head + (tag[:-1] + bytes([x]) if c['end'] else bytes([x]) + tag[1:]) for x in range(256)]
    alt = [b for b in alt if b != blob]
    prog = [['new', 'c', MOD, 'ChaCha_Poly_AEAD', [key, cst], {}]] + [['meth', 'c', 'decrypt', [aad, b], {}] for b in alt + [blob]]
    r = s.call('objs', prog)[1:]
    for b, x in zip(alt, r): rejected(x, 'combined decryption of %s instead of %s' % (b.hex(), blob.hex()))
    same(r[-1], pt, 'combined decryption of the genuine message')


@sub(cases=lambda tier: [[n, i] for n in (0, 1, 16, 35) for i in range(3 if tier == 'quick' else 40)], qs=2)
def tags_that_look_alike(s, c):
    """tags other than the right one that agree with it in their sum, order-blind, word by word, in a checksum, a hash value, the case of letters"""
    n, i = c
    key, cst, aad, pt, iv = gen.det(32, 'ak', c), gen.det(4, 'ac', c), gen.det(i % 20, 'aa'), gen.det(n, 'ap'), gen.det(8, 'ai', c)
    ct, tag = rchacha.aead_encrypt(key, cst + iv, aad, pt)
    alt = gen.alike(tag)
    prog = [['new', 'c', MOD, 'ChaCha_Poly_AEAD', [key, cst], {}]] + [['meth', 'c', 'decrypt', [aad, iv + ct + t], {}] for t in alt + [tag]]
    r = s.call('objs', prog)[1:]
    for t, x in zip(alt, r): rejected(x, 'combined decryption with the tag %s instead of %s' % (t.hex(), tag.hex()))
    same(r[-1], pt, 'combined decryption of the genuine message')


@sub(cases=lambda tier: [[n, i] for n in range(1, 13) for i in range(1 if tier == 'quick' else 8)], qs=2)
def tag_over_the_end_of_the_iv(s, c):
    """messages one octet too short whose last 16 octets are the tag of the empty text under the iv in front, which they overlap"""
    n, i = c
    key, cst, aad = gen.det(32, 'ok', c), gen.det(12 - n, 'oc', c), gen.det(i, 'oa')
    j = 0
    while 1:
        iv = gen.det(n, 'ov', i, j) if n > 1 else bytes([j % 256])
        if n == 1 and j % 256 == 255: key = gen.det(32, 'ok', c, j)
        tag = rchacha.aead_tag(key, cst + iv, aad, b'')
        if tag[0] == iv[-1]: break
        j += 1
    r = s.call('objs', [['new', 'c', MOD, 'ChaCha_Poly_AEAD', [key, cst], {}], ['meth', 'c', 'decrypt', [aad, iv + tag[1:]], {}],
                        ['meth', 'c', 'decrypt', [aad, iv + tag], {}]])
    rejected(r[1], 'combined decryption of %d octets' % (n + 15))
    same(r[2], b'', 'combined decryption of a valid message without text')
    return ['iv of %d octets' % n]
