""" Jython worker: executes requests from the Python 3 harness against the library under test.

    jython -B -Dpython.cachedir.skip=true worker.py REPO

    One request per line on stdin, one reply per line on stdout (format: see enc/dec below).  The library is imported
    from REPO, as package 'cryptopy'; nothing is written there.  What the library prints goes to stderr.
"""
import sys, types, binascii, os, __builtin__

OUT = sys.stdout
HEX, UNHEX = binascii.hexlify, binascii.unhexlify
sys.stdout = sys.stderr
sys.dont_write_bytecode = True
REPO = sys.argv[1]

# ---------------------------------------------------------------- wire format
class Exc(object):
    def __init__(self, text):
        self.text = text

def enc(v, out):
    if v is None: out.append('N')
    elif v is True: out.append('T')
    elif v is False: out.append('F')
    elif isinstance(v, (int, long)): out.append('I%x' % v)
    elif isinstance(v, unicode): out.append('S' + HEX(v.encode('utf-8')))
    elif isinstance(v, str): out.append('B' + HEX(v))
    elif isinstance(v, float): out.append('D' + repr(v))
    elif isinstance(v, (list, tuple)):
        out.append('L%x' % len(v))
        for x in v: enc(x, out)
    elif isinstance(v, dict):
        out.append('M%x' % len(v))
        for k in v:
            enc(k, out); enc(v[k], out)
    elif isinstance(v, Exc): out.append('X' + HEX(v.text))
    else:
        out.append('O' + HEX(type(v).__name__))

SAME = {}       # see presentation()
LONG = False
TUPLES = False
NEGATIVE = 0

def presentation(line):
    """ The same values come in several guises, chosen by the request itself, so that a replay repeats the choice: equal
        octet strings as one object or as several, small integers as int or long, sequences as list or tuple where
        the library itself uses both, coefficients of user-defined curves as 0..p-1 or as negative numbers. """
    global SAME, LONG, TUPLES, NEGATIVE
    h = binascii.crc32(line)
    SAME = None
    if h & 1: SAME = {}
    LONG = bool(h & 2)
    TUPLES = bool(h & 4)
    NEGATIVE = (h >> 3) & 7
    if h & 64: NEGATIVE = 0

def dec(toks):
    t = toks.next()
    c = t[0]
    if c == 'I':
        if LONG: return long(t[1:], 16)
        return int(t[1:], 16)
    if c == 'B' or c == 'S':
        v = UNHEX(t[1:])
        if SAME is not None: v = SAME.setdefault(v, v)
        return v
    if c == 'L': return [dec(toks) for _ in xrange(int(t[1:], 16))]
    if c == 'N': return None
    if c == 'T': return True
    if c == 'F': return False
    if c == 'D': return float(t[1:])
    if c == 'M':
        d = {}
        for _ in xrange(int(t[1:], 16)):
            k = dec(toks); d[k] = dec(toks)
        return d
    raise ValueError('bad token ' + t)

def exc_text():
    e = sys.exc_info()
    try:
        name = getattr(e[0], '__name__', None) or str(e[0])
    except:
        name = '?'
    try:
        s = '%s: %s' % (name, e[1])
    except:
        s = name
    if isinstance(s, unicode): s = s.encode('utf-8')
    return s[:300]

# ---------------------------------------------------------------- imports
def pkg(name, path=None):
    m = types.ModuleType(name)
    m.__path__ = path or []
    sys.modules[name] = m
    return m

if len(sys.argv) > 2 and sys.argv[2] == '--debug':
    import traceback
    _et = exc_text
    def exc_text():
        traceback.print_exc()
        return _et()

pkg('cryptopy', [REPO])
for _p in ('cipher', 'ecc', 'fmath', 'hash', 'analysis'):
    # 'analysis' has no __init__.py; the others do, but an alias serves alike
    setattr(sys.modules['cryptopy'], _p, pkg('cryptopy.' + _p, [REPO + '/' + _p]))

# --- stand-ins for the modules the library imports but does not contain
def make_AES():
    from javax.crypto import Cipher
    from javax.crypto.spec import SecretKeySpec
    from java.lang import String
    import jarray
    m = types.ModuleType('Crypto.Cipher.AES')
    class AESCipher(object):
        block_size = 16
        key_size = 0
        def __init__(self, key):
            if len(key) not in (16, 24, 32):
                raise ValueError('AES key must be either 16, 24, or 32 bytes long')
            self.c = Cipher.getInstance('AES/ECB/NoPadding')
            self.c.init(Cipher.ENCRYPT_MODE, SecretKeySpec(to_bytes(key), 'AES'))
            self.d = None
            self.key = key
        def encrypt(self, data):
            if len(data) % 16:
                raise ValueError('Input strings must be a multiple of 16 in length')
            if not data: return ''
            return self.c.doFinal(to_bytes(data)).tostring()
        def decrypt(self, data):
            if len(data) % 16:
                raise ValueError('Input strings must be a multiple of 16 in length')
            if not data: return ''
            if self.d is None:
                self.d = Cipher.getInstance('AES/ECB/NoPadding')
                self.d.init(Cipher.DECRYPT_MODE, SecretKeySpec(to_bytes(self.key), 'AES'))
            return self.d.doFinal(to_bytes(data)).tostring()
    def to_bytes(s):
        return jarray.array([(ord(ch) ^ 0x80) - 0x80 for ch in s], 'b')
    def new(key, mode=1, IV=None, **kw):
        if mode != 1: raise ValueError('stand-in supports ECB only')
        return AESCipher(key)
    m.new = new
    m.MODE_ECB = 1
    m.block_size = 16
    m.key_size = (16, 24, 32)
    return m

def make_crypto_tree():
    import hashlib
    for n in ('crypto', 'crypto.hash', 'crypto.cipher', 'crypto.keyedHash'):
        pkg(n)
    sys.modules['crypto'].hash = sys.modules['crypto.hash']
    sys.modules['crypto'].cipher = sys.modules['crypto.cipher']
    sys.modules['crypto'].keyedHash = sys.modules['crypto.keyedHash']

    class Hash(object):
        """ the calling convention of crypto.hash.hash """
        def hash(self, data, more=None):
            self.update(data)
            d = self.digest()
            if more is None: self.reset()
            return d
        def __call__(self, data, more=None):
            return self.hash(data, more)
    m = types.ModuleType('crypto.hash.hash'); m.Hash = Hash
    sys.modules[m.__name__] = m

    def make(clsname, algo, raw, size):
        class H(Hash):
            def __init__(self):
                self.name = clsname
                self.blocksize = 1
                self.raw_block_size = raw
                self.digest_size = size
                self.reset()
            def reset(self): self.h = hashlib.new(algo)
            def update(self, data): self.h.update(data)
            def digest(self): return self.h.copy().digest()
        H.__name__ = clsname
        return H
    hs = {}
    for clsname, algo, raw, size in (('SHA1', 'sha1', 64, 20), ('MD5', 'md5', 64, 16), ('SHA256', 'sha256', 64, 32),
                                     ('SHA512', 'sha512', 128, 64), ('SHA384', 'sha384', 128, 48)):
        hs[clsname] = make(clsname, algo, raw, size)
    m = types.ModuleType('crypto.hash.sha1Hash'); m.SHA1 = hs['SHA1']; sys.modules[m.__name__] = m
    m = types.ModuleType('crypto.hash.md5Hash'); m.MD5 = hs['MD5']; sys.modules[m.__name__] = m
    # AES S-box, computed from its definition (FIPS 197, 5.1.1)
    def gmul(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            a <<= 1
            if a & 0x100: a ^= 0x11b
            b >>= 1
        return r
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gmul(a, b) == 1:
                inv[a] = b
                break
    box = []
    for a in range(256):
        x = inv[a]; r = 0x63
        for k in range(5):
            r ^= ((x << k) | (x >> (8 - k))) & 0xff
        box.append(r)
    m = types.ModuleType('crypto.cipher.rijndael'); m.Sbox = tuple(box); sys.modules[m.__name__] = m
    m = types.ModuleType('binascii_plus')
    for k in ('a2b_hex', 'b2a_hex', 'hexlify', 'unhexlify', 'crc32', 'a2b_base64', 'b2a_base64'):
        setattr(m, k, getattr(binascii, k))
    m.a2b_p = lambda s: UNHEX(''.join(s.split()))
    m.b2a_p = lambda s, frnt='': HEX(s)
    m.b2a_pter = m.b2a_p
    sys.modules['binascii_plus'] = m
    return hs

HASHES = {}
def ensure(modname):
    """ put in place what this module of the library imports from elsewhere """
    if modname.startswith('hash.') and not HASHES:
        HASHES.update(make_crypto_tree())
    if modname in ('cipher.aes_cmac', 'cipher.aes_siv') and 'Crypto' not in sys.modules:
        pkg('Crypto'); c = pkg('Crypto.Cipher')
        sys.modules['Crypto'].Cipher = c
        c.AES = make_AES()
        sys.modules['Crypto.Cipher.AES'] = c.AES
    need = {'hash.pbkdf2': (('crypto.keyedHash.hmacHash', 'hash.hmac'), ('crypto.common', 'cipher.common')),
            'hash.tkip_mic': (('crypto.keyedHash.michael', 'hash.michael'),)}.get(modname, ())
    for alias, real in need:
        if alias not in sys.modules:
            sys.modules[alias] = lib(real)

def lib(modname):
    """ the library's module 'cipher.encoding' etc. """
    full = 'cryptopy.' + modname
    m = sys.modules.get(full)
    if m is None:
        ensure(modname)
        __import__(full)
        m = sys.modules[full]
    return m

class MissingAPI(Exception): pass

def look(modname, name):
    m = lib(modname)
    try:
        return getattr(m, name)
    except AttributeError:
        raise MissingAPI('%s.%s' % (modname, name))

def take(v):
    """ a copy of a result; the result itself, which the caller owns, is then overwritten """
    if isinstance(v, list):
        c = [take(x) for x in v]
        for i in range(len(v)): v[i] = None
        v.append('overwritten')
        return c
    if isinstance(v, tuple):
        return tuple([take(x) for x in v])
    if isinstance(v, dict):
        c = {}
        for k in v.keys():
            c[k] = take(v[k])
            v[k] = None
        v['overwritten'] = None
        return c
    return v

IN_PLACE = ('polynomial_reduce_mod',)     # works on the list it is given

LIST_OR_TUPLE = ('walshTransform', 'nonLinearity', 'sboxNonlinearity', 'map_orbits_of_permutation', 'orbit_start_and_length')

def keep(v):
    if isinstance(v, (list, tuple)): return [keep(x) for x in v]
    if isinstance(v, dict): return dict([(k, keep(v[k])) for k in v])
    return v

def run(name, f, args, kw={}):
    """ a call whose lists and dictionaries, which the caller owns, have to stay what they were """
    if TUPLES and name in LIST_OR_TUPLE and args and isinstance(args[0], list):
        args = [tuple(args[0])] + args[1:]
    if name == 'polynomial_multiply_mod' and SAME is not None and args[0] == args[1]:
        args = [args[0], args[0]] + args[2:]        # squaring
    v = guarded(name, f, args, kw)
    return take(v)      # which may be an argument

CHANGED = []
def guarded(name, f, args, kw):
    before = keep([args, kw])
    try:
        v = f(*args, **kw)
    except:
        v = Exc(exc_text())
    if name not in IN_PLACE and keep([args, kw]) != before:
        t = 'the call changed its argument: %r is now %r' % (before, [args, kw])
        del CHANGED[:-4]
        CHANGED.append('arguments of ' + name)
        if isinstance(v, Exc): return t + ', and raised ' + v.text      # where an error is expected, this is none
        return Exc(t)
    return v

# ---------------------------------------------------------------- handlers
H = {}
def handler(f):
    H[f.__name__] = f
    return f

@handler
def ping():
    return 'pong'

@handler
def has(modname, name):
    return hasattr(lib(modname), name)

@handler
def calls(items):
    """ items: [module, function, args] or [module, function, args, kwargs]; each result or Exc """
    r = []
    for it in items:
        try:
            f = look(it[0], it[1])
            kw = {}
            if len(it) > 3: kw = it[3]
            r.append(run(it[1], f, it[2], kw))
        except:
            r.append(Exc(exc_text()))
    return r

@handler
def attr(modname, name):
    return look(modname, name)

@handler
def objs(steps):
    """ object programs; each step's result or Exc:
        ['new', var, module, class, args, kwargs] ['meth', var, name, args, kwargs] ['call', var, args, kwargs]
        ['attr', var, name] ['func', module, name, args, kwargs] """
    env = {}
    r = []
    for s in steps:
        k = s[0]
        if k not in ('new', 'meth', 'call', 'attr', 'func'): raise ValueError(k)
        try:
            if k == 'new':
                env[s[1]] = look(s[2], s[3])(*s[4], **s[5]); r.append(None)
            elif k == 'meth':
                r.append(guarded(s[2], getattr(env[s[1]], s[2]), s[3], s[4]))
            elif k == 'call':
                r.append(guarded('', env[s[1]], s[2], s[3]))
            elif k == 'func':
                r.append(guarded(s[2], look(s[1], s[2]), s[3], s[4]))
            else:
                r.append(getattr(env[s[1]], s[2]))
        except:
            r.append(Exc(exc_text()))
    return r

@handler
def quarter(words):
    """ quarter round on four words """
    return list(look('cipher.chacha_poly', 'chacha_q_round')(*words))

@handler
def quarter_state(state, x, y, z, w):
    st = list(state)
    look('cipher.chacha_poly', 'quarter_round')(st, x, y, z, w)
    return st

@handler
def siv_lists(cls_form, key, pt, ads, again):
    """ encrypt with one caller-owned AD list 'again'+1 times; returns outputs, the list afterwards, and decryption """
    L = list(ads)
    if cls_form:
        o = look('cipher.aes_siv', 'AES_SIV')(key)
        en, de = o.encrypt, o.decrypt
    else:
        e = look('cipher.aes_siv', 'siv_encrypt'); d = look('cipher.aes_siv', 'siv_decrypt')
        en = lambda p, a: e(key, p, a)
        de = lambda p, a: d(key, p, a)
    outs = []
    for _ in range(again + 1):
        outs.append(en(pt, L))
    back = de(outs[0], L)
    outs.append(en(pt, L))
    return outs, L, back

# --- elliptic curves
BASES = {'W': 'SmallWeierstrassCurveFp', 'K': 'KoblitzCurveFp', 'E': 'EdwardsCurveFp', 'T': 'TwistedEdwardsCurveFp',
         'M': 'MontgomeryCurveFp'}
TOY = {}
def curve_class(spec):
    if isinstance(spec, str):
        return look('ecc.curves', spec)
    kind, params = spec
    params = dict(params)
    for bit, name in ((1, 'a'), (2, 'b'), (4, 'd')):
        if NEGATIVE & bit and params.get(name): params[name] -= params['p']
    key = (kind, tuple(sorted(params.items())))
    c = TOY.get(key)
    if c is None:
        if len(TOY) > 200: TOY.clear()
        c = type('UserCurve', (look('ecc.ecc', BASES[kind]),), dict(params))
        TOY[key] = c
    return c

SHARED = None       # curve and field objects that threads share, see together()
def shared(key, make):
    if SHARED is None: return make()
    if key not in SHARED: SHARED.setdefault(key, make())
    return SHARED[key]

def curve(spec):
    c = curve_class(spec)
    return shared(c, c)

def pt_out(P):
    return [P.x, P.y]

@handler
def ec(spec, steps):
    """ run steps on one curve instance.  Every step yields a value; points are kept in registers (by step number).
        Point results come back as [x, y]; the identity of Weierstrass and Montgomery curves as [None, None]. """
    return ec_run([curve(spec)], steps)

@handler
def ecm(specs, steps):
    """ the same with several curve instances alive: a step ['on', i, ...] is run on instance i """
    return ec_run([curve(x) for x in specs], steps)

def ec_run(cs, steps):
    reg = []
    out = []
    for s in steps:
        v = None
        c = cs[0]
        if s[0] == 'on':
            c = cs[s[1]]
            s = s[2:]
        try:
            k = s[0]
            if k == 'pt': v = c.point(s[1], s[2])
            elif k == 'id': v = c.IDENTITY
            elif k == 'id2': v = c.identity()
            elif k == 'gen': v = c.generator()
            else:
                a = [(isinstance(x, list) and [reg[x[0]]] or [x])[0] for x in s[1:]]
                for x in a:
                    if isinstance(x, Exc): raise Exception('operand failed: ' + x.text)
                if k == 'add': v = a[0] + a[1]
                elif k == 'sub': v = a[0] - a[1]
                elif k == 'neg': v = -a[0]
                elif k == 'dbl': v = a[0].double()
                elif k == 'mul': v = a[0] * a[1]
                elif k == 'rmul': v = a[1] * a[0]
                elif k == 'eq': v = [a[0] == a[1], a[0] != a[1], cmp(a[0], a[1])]
                elif k == 'enc': v = a[0].encode('raw')
                elif k == 'enc0': v = a[0].encode()
                elif k == 'encbad': v = a[0].encode('no-such-encoding')
                elif k == 'oct': v = a[0].toOctets()
                elif k == 'lad1': v = c.montgomery_ladder(a[0], a[1])
                elif k == 'lad2': v = c.montgomery_ladder2(a[0], a[1])
                elif k == 'y': v = c.y_from_x(a[0])
                elif k == 'inv': v = c.inverse(a[0])
                elif k == 'again': v = a[0]
                elif k == 'str': v = str(a[0])
                elif k == 'oncurve': v = c.on_curve(a[0])
                elif k == 'size': v = c.coord_size
                else: raise ValueError(k)
        except:
            v = Exc(exc_text())
        reg.append(v)
        if hasattr(v, 'curve') and hasattr(v, 'x'):
            out.append(pt_out(v))
        else:
            out.append(v)
    return out

@handler
def ec_table(spec, points, op):
    """ full tables over the given points; [None, None] is the identity of the curve """
    c = curve(spec)
    P = []
    for q in points:
        if q[0] is None: P.append(c.IDENTITY)
        else: P.append(c.point(q[0], q[1]))
    r = []
    def go(f):
        try:
            r.append(pt_out(f()))
        except:
            r.append(Exc(exc_text()))
    if op == 'add':
        for a in P:
            for b in P: go(lambda: a + b)
    elif op == 'sub':
        for a in P:
            for b in P: go(lambda: a - b)
    elif op == 'eq':
        for a in P:
            for b in P: r.append([a == b, a != b])
    elif op == 'neg':
        for a in P: go(lambda: -a)
    elif op == 'dbl':
        for a in P: go(lambda: a.double())
    return r

@handler
def ec_muls(spec, points, ks):
    """ k*P for all points and all scalars, alternately from the left and from the right """
    c = curve(spec)
    r = []
    i = 0
    for q in points:
        if q[0] is None: P = c.IDENTITY
        else: P = c.point(q[0], q[1])
        for k in ks:
            i += 1
            try:
                if i & 1: v = k * P
                else: v = P * k
                r.append(pt_out(v))
            except:
                r.append(Exc(exc_text()))
    return r

@handler
def ec_ladders(spec, points, ks):
    c = curve(spec)
    r = []
    for q in points:
        P = c.point(q[0], q[1])
        for k in ks:
            for f in (c.montgomery_ladder, c.montgomery_ladder2):
                try:
                    r.append(f(k, P))
                except:
                    r.append(Exc(exc_text()))
    return r

@handler
def ec_valid(spec, pts):
    """ whether each coordinate pair is accepted as a point, by the curve and by the class of points """
    c = curve(spec)
    Q = look('ecc.ellipticcurve', 'Point')
    r = []
    for x, y in pts:
        try:
            P = c.point(x, y)
            r.append([P.x, P.y])
        except:
            r.append(Exc(exc_text()))
        try:
            P = Q(c, x, y)
            r.append([P.x, P.y])
        except:
            r.append(Exc(exc_text()))
    return r

@handler
def ec_ys(spec, xs):
    c = curve_class(spec)
    r = []
    for x in xs:
        try:
            r.append(c.y_from_x(x))
        except:
            r.append(Exc(exc_text()))
    return r

@handler
def curve_registry():
    m = lib('ecc.curves')
    r = {}
    for n in ('smallWeierstrassCurves', 'koblitzCurves', 'twistedEdwardsCurves', 'edwardsCurves', 'montgomeryCurves',
              'allCurves'):
        r[n] = [c.__name__ for c in getattr(m, n)]
    base = []
    sub = []
    E = lib('ecc.ecc')
    top = [getattr(E, b) for b in BASES.values()]
    for n in dir(m):
        c = getattr(m, n)
        if isinstance(c, type) and c not in top and issubclass(c, lib('ecc.ellipticcurve').EllipticCurveFp):
            if c.__bases__[0] in top: base.append(c.__name__)
            else: sub.append([c.__name__, c.__bases__[0].__name__])
    r['base'] = base
    r['sub'] = sub
    return r

@handler
def curve_params(name):
    c = look('ecc.curves', name)
    r = {}
    for k in dir(c):
        if k.startswith('_'): continue
        v = getattr(c, k)
        if isinstance(v, (int, long, str, tuple)) or v is None: r[k] = v
    E = lib('ecc.ecc')
    kind = None
    for k in 'KEMTW':
        if issubclass(c, getattr(E, BASES[k])):
            kind = k
            break
    r['__kind__'] = kind
    try:
        o = c()
        r['__size__'] = o.coord_size
        g = o.generator()
        r['__gen__'] = [g.x, g.y]
    except:
        r['__inst__'] = Exc(exc_text())
    return r

# --- GF(p)
@handler
def gf(p, steps):
    """ registers hold field elements or integers; each step's value as [is_element, value] """
    F = shared(('GFp', p), lambda: look('fmath.galoisfield', 'GFp')(p))
    reg = []
    out = []
    for s in steps:
        try:
            k = s[0]
            a = [(isinstance(x, list) and [reg[x[0]]] or [x])[0] for x in s[1:]]
            for x in a:
                if isinstance(x, Exc): raise Exception('operand failed')
            if k == 'el': v = F(a[0])
            elif k == 'int': v = a[0]
            elif k == 'add': v = a[0] + a[1]
            elif k == 'sub': v = a[0] - a[1]
            elif k == 'mul': v = a[0] * a[1]
            elif k == 'div': v = a[0] / a[1]
            elif k == 'xor': v = a[0] ^ a[1]
            elif k == 'pow': v = a[0] ** a[1]
            elif k == 'neg': v = -a[0]
            elif k == 'inv': v = F.inverse(a[0])
            elif k == 'eq': v = [a[0] == a[1], a[0] != a[1]]
            elif k == 'toint': v = int(a[0])
            elif k == 'str': v = str(a[0])
            elif k == 'isel': v = F.is_element(a[0])
            else: raise ValueError(k)
        except:
            v = Exc(exc_text())
        reg.append(v)
        if isinstance(v, (Exc, list)):
            out.append(v)
        elif v is None or isinstance(v, (int, long, bool, str, float)):
            out.append([False, v])
        else:
            try:
                i = int(v)
                out.append([True, getattr(v, 'value', i), i])
            except:
                out.append([False, repr(v)])
    return out

# --- keyed hashes
@handler
def hmac_prog(ops):
    """ ['new', v, form, hashname, key|None] form: generic | SHA1 | MD5; ['update', v, d] ['digest', v] ['reset', v]
        ['call', v, d] ['callmore', v, d] ['hash', v, d] ['setKey', v, k] ['attrs', v] """
    lib('hash.hmac')
    env = {}
    r = []
    for o in ops:
        try:
            k = o[0]
            if k == 'new':
                form, hn, key = o[2], o[3], o[4]
                if form == 'generic':
                    cls = look('hash.hmac', 'HMAC')
                    if key is None: env[o[1]] = cls(HASHES[hn])
                    else: env[o[1]] = cls(HASHES[hn], key)
                else:
                    cls = look('hash.hmac', {'SHA1': 'HMAC_SHA1', 'MD5': 'HMAC_MD5'}[form])
                    if key is None: env[o[1]] = cls()
                    else: env[o[1]] = cls(key)
                r.append(None)
            else:
                x = env[o[1]]
                if k == 'update': x.update(o[2]); r.append(None)
                elif k == 'digest': r.append(x.digest())
                elif k == 'reset': x.reset(); r.append(None)
                elif k == 'call': r.append(x(o[2]))
                elif k == 'callmore': r.append(x(o[2], 1))
                elif k == 'hash': r.append(x.hash(o[2]))
                elif k == 'setKey': x.setKey(o[2]); r.append(None)
                elif k == 'attrs': r.append([x.digest_size, x.raw_block_size, x.name])
                else: raise ValueError(k)
        except:
            r.append(Exc(exc_text()))
    return r

@handler
def pbkdf2_prf(prfname, password, salt, iterations, keySize):
    P = look('hash.pbkdf2', 'pbkdf2')
    if prfname is None: return P(password, salt, iterations, keySize)
    if prfname in ('HMAC_SHA1', 'HMAC_MD5'):
        return P(password, salt, iterations, keySize, look('hash.hmac', prfname))
    HM = look('hash.hmac', 'HMAC')
    h = HASHES[prfname]
    class Prf(HM):
        def __init__(self, key=None):
            HM.__init__(self, h, key)
    return P(password, salt, iterations, keySize, PRF=Prf)

@handler
def poly_call(name, args):
    """ polynomial functions, on fresh lists """
    a = [(isinstance(x, list) and [list(x)] or [x])[0] for x in args]
    return run(name, look('ecc.numbertheory', name), a)

@handler
def pi_frac(d):
    f = look('fmath.pi', 'pi')
    if d is None: v = f()
    else: v = f(d)
    return [v.numerator, v.denominator]

@handler
def sqrts(fname, p, values):
    f = look('ecc.numbertheory', fname)
    r = []
    for a in values:
        try:
            r.append(f(a, p))
        except:
            r.append(Exc(exc_text()))
    return r

@handler
def map2(modname, fname, xs, ys):
    f = look(modname, fname)
    r = []
    for x in xs:
        for y in ys:
            try:
                r.append(take(f(x, y)))
            except:
                r.append(Exc(exc_text()))
    return r

@handler
def map1(modname, fname, xs):
    f = look(modname, fname)
    r = []
    for x in xs:
        try:
            r.append(run(fname, f, [x]))
        except:
            r.append(Exc(exc_text()))
    return r

@handler
def orbits(modname, clsname, fname, perm):
    m = lib(modname)
    if clsname: m = getattr(m, clsname)
    r = run(fname, getattr(m, fname), [perm])
    if isinstance(r, Exc): return r
    if isinstance(r, dict):
        return [[k, list(r[k])] for k in sorted(r.keys())]
    return [list(x) for x in r]

@handler
def chacha_nonces(key, count, msg):
    """ objects without nonce: for each, its nonce words and the encryption of msg """
    C = look('cipher.chacha_poly', 'ChaCha')
    r = []
    for i in range(count):
        c = C(key)
        n = list(getattr(c, 'state', ())[13:16])
        r.append([n, c.encrypt(msg)])
    return r

# --- several requests at the same time
PER_STEP = ('calls', 'objs', 'hmac_prog', 'map1', 'map2', 'sqrts', 'poly_call')    # catch what the library raises
RAISED = []     # texts, for the messages
def told(line):
    """ the reply to a request, in wire form; of an exception only that there was one """
    for attempt in range(3):
        out = []
        name = '?'
        try:
            req = dec(iter(line.split(' ')))
            name = req[0]
            v = H[name](*req[1:])
            name = '?'
            enc(v, out)
            break
        except:
            del RAISED[:-4]
            RAISED.append(exc_text())
            # not in the library: the interpreter, asked for too much at once
            if name in PER_STEP + ('?',) and attempt < 2: continue
            return 'X'
    return ' '.join([(t[:1] == 'X' and ['X'] or [t])[0] for t in out])

def plainly():
    global SAME, LONG, TUPLES, NEGATIVE, SHARED
    SAME, LONG, TUPLES, NEGATIVE = None, False, False, 0
    SHARED = {}

@handler
def alone(lines):
    """ every request alone, twice -> replies, None where the two differ """
    global SHARED
    plainly()
    as_found()
    try:
        a = [told(l) for l in lines]
        b = [told(l) for l in lines]
    finally:
        SHARED = None
    return [(x == y and [x] or [None])[0] for x, y in zip(a, b)]

@handler
def together(lines, expected, rounds, threads):
    """ the requests again and again and in different orders, in several threads at once
        -> [index, reply] of those that differ from the expected reply """
    global SHARED
    plainly()
    for m in ('cipher.chacha_poly', 'cipher.aes_cmac', 'cipher.aes_siv', 'cipher.encoding', 'cipher.common', 'ecc.numbertheory', 'ecc.ellipticcurve',
              'ecc.ecc', 'ecc.curves', 'fmath.galoisfield', 'fmath.prime', 'fmath.primes_to_5k', 'hash.hmac', 'hash.pbkdf2', 'hash.prf_dot11',
              'hash.michael', 'hash.tkip_mic', 'hash.tkip_key_mixing', 'analysis.walshtransform', 'analysis.sbox_nonlinearity',
              'analysis.sbox_analysis', 'analysis.permutation'):
        try: lib(m)
        except Exception: pass          # what needs it will say so
    n = len(lines)
    diffs = []
    from java.lang import Runnable, Thread
    from java.util.concurrent import CyclicBarrier
    gate = CyclicBarrier(threads)
    class Job(Runnable):
        def __init__(self, t): self.t = t
        def run(self):
            for r in range(rounds):
                for k in range(n):
                    # all threads at one request, then each at its own
                    i = (k + (r & 1) * self.t) % n
                    if r == 0: gate.await()
                    x = told(lines[i])
                    if expected[i] is not None and x != expected[i]: diffs.append([i, x[:600], (x == 'X' and RAISED[-1:] or [''])[0]])
    try:
        ts = [Thread(None, Job(t), 'job', 1 << 24) for t in range(threads)]
        for t in ts: t.start()
        for t in ts: t.join()
    finally:
        SHARED = None
    return diffs[:20]

# --- one request while another is between two lines
def traced(line, at=-1, other=None):
    """ the request, and at line number 'at' that it executes in the library the other one, by a thread of its own; the first
        goes on when the other one is done or seems to wait for it -> reply, the lines executed, [reply of the other one] """
    from java.lang import Runnable, Thread
    seen = []
    got = []
    ts = []
    class Job(Runnable):
        def run(self): got.append(told(other))
    def trace(frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(REPO) or code.co_name in ('<module>', '?'): return None
        if event == 'line':
            if len(seen) == at:
                ts.append(Thread(None, Job(), 'job', 1 << 24))
                ts[0].start()
                ts[0].join(1500)
            if len(seen) < 200000: seen.append((code.co_filename[len(REPO) + 1:], frame.f_lineno))
        return trace
    sys.settrace(trace)
    try:
        r = told(line)
    finally:
        sys.settrace(None)
    for t in ts: t.join()
    return r, seen, got

CODES = {}
class Finder(object):
    """ imports modules of the library from compiled code """
    def find_module(self, name, path=None):
        n = name.split('.')
        f = os.path.join(REPO, *n[1:]) + '.py'
        if n[0] == 'cryptopy' and len(n) == 3 and (f in CODES or os.path.exists(f)): return self
        return None
    def load_module(self, name):
        n = name.split('.')
        f = os.path.join(REPO, *n[1:]) + '.py'
        if f not in CODES: CODES[f] = compile(open(f, 'U').read() + '\n', f, 'exec')
        m = types.ModuleType(name)
        m.__file__ = f
        sys.modules[name] = m
        try:
            exec CODES[f] in m.__dict__
        except:
            sys.modules.pop(name, None)
            raise
        return m

def renew(mods=()):
    """ forget the modules of the library, and import these again """
    if not [x for x in sys.meta_path if isinstance(x, Finder)]: sys.meta_path.append(Finder())
    TOY.clear()
    SHARED.clear()
    for n in list(sys.modules.keys()):
        if (n.startswith('cryptopy.') and n.count('.') == 2 and sys.modules[n] is not None) or n in ('crypto.keyedHash.hmacHash', 'crypto.common', 'crypto.keyedHash.michael'):
            del sys.modules[n]
    for n in mods: lib(n)

def loaded():
    return sorted([n[9:] for n in sys.modules.keys() if n.startswith('cryptopy.') and n.count('.') == 2 and sys.modules[n] is not None])

@handler
def paused(line, others, expected, other_expected, seed, count, fresh):
    """ -> number of pauses, [[file:line, reply, expected, reply of the other, its expected reply] that differ] """
    global SHARED
    import random
    plainly()
    rnd = random.Random(seed)
    bad = []
    done = 0
    try:
        mods = ()
        if fresh:
            renew()
            for x in [line] + others: told(x)
            mods = loaded()
            renew(mods)
        r, seen, _ = traced(line)
        places = {}
        for i, x in enumerate(seen): places.setdefault(x, []).append(i)
        keys = sorted(places.keys())
        rnd.shuffle(keys)
        # the first time and the last time are the likeliest to be different
        plan = [(k, rnd.choice([places[k][0], places[k][-1], rnd.choice(places[k])])) for k in keys[:count]]
        if fresh:
            # what only the first call does
            again = {}
            for x in traced(line)[1]: again[x] = again.get(x, 0) + 1
            once = [k for k in keys if len(places[k]) > again.get(k, 0)]
            plan = [(k, f(places[k])) for k in once[:5] for f in (rnd.choice, lambda l: l[0], rnd.choice, lambda l: l[-1], rnd.choice)] + plan[:4]
        for k, at in plan:
            o = rnd.randrange(len(others))
            if fresh: renew(mods)
            r, _, got = traced(line, at, others[o])
            done += 1
            for x, e in [(r, expected)] + [(g, other_expected[o]) for g in got]:
                if e is not None and x != e: bad.append([':'.join([str(y) for y in k]), others[o], x[:600], e[:600]])
    finally:
        SHARED = None
    return done, bad[:5]

# --- what imports and calls leave behind
WATCHED = ('__builtin__', 'os', 'os.path', 'math', 'struct', 'binascii', 'random', 'hashlib', 'hmac', 'sha', 'fractions', 'string', 'operator', 'copy', 'time', 'itertools', 'types', 'functools', 'inspect',
           'decimal', 'codecs', 're', 'fractions', 'threading', 'collections')
INPUT = sys.stdin
def surroundings():
    """ what belongs to the process and not to the library """
    import random, decimal, warnings, atexit, threading, gc
    w = {}
    for n in WATCHED:
        __import__(n)
        d = vars(sys.modules[n])
        for k in d.keys():
            if not (k.startswith('__') and k.endswith('__')): w['%s.%s' % (n, k)] = d[k]
    c = decimal.getcontext()
    w['state of random'] = hash(random.getstate())
    w['recursion limit'] = sys.getrecursionlimit()
    w['decimal precision'] = (c.prec, c.rounding)
    w['decimal default'] = (decimal.DefaultContext.prec, decimal.DefaultContext.rounding)
    w['check interval'] = sys.getcheckinterval()
    w['encoding'] = sys.getdefaultencoding()
    w['directory'] = os.getcwd()
    w['environment'] = dict(os.environ)
    w['search path'] = list(sys.path)
    w['warnings'] = list(warnings.filters)
    w['exit function'] = getattr(sys, 'exitfunc', None)
    w['exception hook'] = sys.excepthook is sys.__excepthook__
    w['display hook'] = sys.displayhook is sys.__displayhook__
    w['standard input'] = sys.stdin is INPUT
    w['import hooks'] = (list(sys.meta_path), list(sys.path_hooks))
    w['functions at exit'] = list(atexit._exithandlers)
    w['stack size of threads'] = threading.stack_size()
    w['file creation mask'] = os.umask(18)
    os.umask(w['file creation mask'])
    w['garbage collection'] = gc.isenabled()
    w['modules'] = [sys.modules.get(n) for n in WATCHED]
    return w

FOUND = []
def as_found():
    """ takes back what earlier calls have changed around the library: a change that is made again then shows again """
    import random, decimal, warnings, fractions, hmac, sha, atexit, threading
    if not FOUND: FOUND.append((surroundings(), random.getstate()))
    b = FOUND[0][0]
    now = surroundings()
    for k in now:
        n, _, a = k.rpartition('.')
        if n in WATCHED:
            if k not in b: delattr(sys.modules[n], a)
            elif b[k] is not now[k]: setattr(sys.modules[n], a, b[k])
    for k in b:
        n, _, a = k.rpartition('.')
        if n in WATCHED and k not in now: setattr(sys.modules[n], a, b[k])
    sys.setrecursionlimit(b['recursion limit'])
    sys.setcheckinterval(b['check interval'])
    c = decimal.getcontext()
    c.prec, c.rounding = b['decimal precision']
    decimal.DefaultContext.prec, decimal.DefaultContext.rounding = b['decimal default']
    os.chdir(b['directory'])
    for k in os.environ.keys():
        if k not in b['environment']: del os.environ[k]
    os.environ.update(b['environment'])
    sys.path[:] = b['search path']
    warnings.filters[:] = b['warnings']
    sys.excepthook, sys.displayhook, sys.stdin = sys.__excepthook__, sys.__displayhook__, INPUT
    sys.meta_path[:], sys.path_hooks[:] = b['import hooks']
    atexit._exithandlers[:] = b['functions at exit']
    threading.stack_size(b['stack size of threads'])
    os.umask(b['file creation mask'])
    sys.modules.update(dict([(n, m) for n, m in zip(WATCHED, b['modules']) if m]))
    if b['exit function'] is None:
        if hasattr(sys, 'exitfunc'): del sys.exitfunc
    random.seed()       # no state that a call could happen to leave again

class Ear(object):
    def __init__(self): self.heard = []
    def write(self, s): self.heard.append(s)
    def flush(self): pass

@handler
def effects(order, lines, fresh):
    """ imports the library's modules in this order, makes the requests -> replies, what was printed, what has changed around the library """
    global SHARED
    plainly()
    SHARED = None
    ear = Ear()
    o, e, op = sys.stdout, sys.stderr, __builtin__.open
    opened = []
    def watching(*a, **k):
        m = len(a) > 1 and a[1] or k.get('mode', 'r')
        if m[:1] not in 'rU' or '+' in m: opened.append(str(a[:1]))
        return op(*a, **k)
    SHARED = {}
    try:
        if fresh: renew()
        # what the library needs from elsewhere
        if not HASHES: HASHES.update(make_crypto_tree())
        ensure('cipher.aes_cmac')
        import fractions, inspect, hmac, sha
        as_found()
        before = surroundings()
        __builtin__.open = watching
        sys.stdout = sys.stderr = ear
        SHARED = None
        for m in order: lib(m)
        del CHANGED[:]
        r = [told(l) for l in lines]
        if __builtin__.open is watching: __builtin__.open = op
        after = surroundings()
    finally:
        sys.stdout, sys.stderr, __builtin__.open = o, e, op
        SHARED = None
    changed = sorted([k for k in set(before.keys() + after.keys()) if k not in before or k not in after or not (before[k] is after[k] or before[k] == after[k])])
    return r, ''.join([str(x) for x in ear.heard])[:500], CHANGED[:5] + changed[:20] + ['opened for writing: ' + x for x in opened[:5]]

# --- keys made by curves
@handler
def private_keys(spec, count, objects):
    """ keys made by a number of curve objects in turns """
    k = curve_class(spec)
    cs = [k() for i in range(objects)]
    return [cs[i % objects].new_private_key() for i in range(count)]

# ---------------------------------------------------------------- main loop
def main():
    inp = sys.stdin
    while True:
        line = inp.readline()
        if not line: break
        line = line.strip()
        if not line: continue
        out = []
        try:
            presentation(line)
            req = dec(iter(line.split(' ')))
            res = H[req[0]](*req[1:])
            enc(res, out)
        except:
            out = []
            enc(Exc(exc_text()), out)
        OUT.write(' '.join(out)); OUT.write('\n'); OUT.flush()

main()
