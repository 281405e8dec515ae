"""Python 3 side of the pipe to the Jython worker."""
import os
import select
import signal
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JYTHON = '/usr/bin/jython'


class Exc(str):
    """An exception the library raised (its text)."""
    __slots__ = ()


class Opaque(str):
    """A value that is not plain data (its type name)."""
    __slots__ = ()


class NoAnswer(BaseException):
    """The library gave no answer to a request, twice, the second time in a fresh process."""


class HarnessError(Exception):
    pass


def enc(v, out):
    if v is None: out.append('N')
    elif v is True: out.append('T')
    elif v is False: out.append('F')
    elif isinstance(v, int): out.append('I%x' % v)
    elif isinstance(v, (bytes, bytearray)): out.append('B' + v.hex())
    elif isinstance(v, str): out.append('S' + v.encode().hex())
    elif isinstance(v, float): out.append('D' + repr(v))
    elif isinstance(v, (list, tuple)):
        out.append('L%x' % len(v))
        for x in v: enc(x, out)
    elif isinstance(v, dict):
        out.append('M%x' % len(v))
        for k in v:
            enc(k, out); enc(v[k], out)
    else:
        raise TypeError(type(v))


def dec(it):
    t = next(it)
    c = t[0]
    if c == 'I': return int(t[1:], 16)
    if c == 'B': return bytes.fromhex(t[1:])
    if c == 'L': return [dec(it) for _ in range(int(t[1:], 16))]
    if c == 'N': return None
    if c == 'T': return True
    if c == 'F': return False
    if c == 'S': return bytes.fromhex(t[1:]).decode()
    if c == 'D': return float(t[1:])
    if c == 'X': return Exc(bytes.fromhex(t[1:]).decode('utf-8', 'replace'))
    if c == 'O': return Opaque(bytes.fromhex(t[1:]).decode())
    if c == 'M':
        d = {}
        for _ in range(int(t[1:], 16)):
            k = dec(it)
            if isinstance(k, bytes): k = k.decode('latin-1')
            d[k] = dec(it)
        return d
    raise HarnessError('bad token %r' % t[:80])


class Worker:
    def __init__(self):
        self.err = tempfile.TemporaryFile()
        env = {k: v for k, v in os.environ.items() if k not in ('JYTHONPATH', 'CLASSPATH', 'JAVA_OPTS')}
        env['JAVA_TOOL_OPTIONS'] = '-Xmx1500m -Xss8m -XX:+UseSerialGC'
        env['LC_ALL'] = 'C.UTF-8'
        env.setdefault('HOME', '/root')
        self.p = subprocess.Popen(
            [JYTHON, '-B',
             '-Dpython.cachedir.skip=true', os.path.join(HERE, 'worker.py'), REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, start_new_session=True)
        self.fd = self.p.stdout.fileno()
        self.buf = b''
        os.set_blocking(self.p.stdin.fileno(), True)

    def request(self, payload, timeout):
        """-> reply line, or None: no answer in time, or 'died'"""
        end = time.monotonic() + timeout
        try:
            self.p.stdin.write(payload); self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return 'died'
        while b'\n' not in self.buf[-1 << 16:]:
            left = end - time.monotonic()
            if left <= 0: return None
            r, _, _ = select.select([self.fd], [], [], min(left, 5))
            if r:
                d = os.read(self.fd, 1 << 20)
                if not d: return 'died'
                self.buf += d
        line, _, self.buf = self.buf.partition(b'\n')
        return line

    def stderr_tail(self):
        try:
            self.err.seek(0, 2); n = self.err.tell(); self.err.seek(max(0, n - 1500))
            return self.err.read().decode('utf-8', 'replace')
        except Exception:
            return ''

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            self.p.stdin.close()
        except Exception:
            pass
        self.p.stdout.close()
        self.p.wait()
        self.err.close()


class Sut:
    """Requests to the library; restarts the worker when it must."""
    T1 = 60       # seconds: at least 100 times what any request takes
    T2 = 150

    def __init__(self):
        self.w = None
        self.n = 0

    def _fresh(self):
        self.close()
        for attempt in range(3):
            self.w = Worker()
            r = self.w.request(b'L1 S' + b'ping'.hex().encode() + b'\n', 120)
            if r not in (None, 'died'): return
            tail = self.w.stderr_tail()
            self.close()
        raise HarnessError('the Jython worker does not start: ' + tail)

    def close(self):
        if self.w is not None:
            self.w.kill(); self.w = None

    def call(self, name, *args):
        out = []
        enc([name] + list(args), out)
        payload = (' '.join(out) + '\n').encode()
        why = ''
        for t in (self.T1, self.T2):
            if self.w is None: self._fresh()
            self.n += 1
            r = self.w.request(payload, t)
            if r is None or r == 'died':
                why = 'no answer within %d s' % t if r is None else 'the interpreter died: ' + self.w.stderr_tail()[-300:]
                self.close()
                continue
            v = dec(iter(r.decode().split(' ')))
            if isinstance(v, Exc) and v.startswith('ImportError'):
                return v
            return v
        raise NoAnswer('%s(%s): %s' % (name, str(args)[:300], why))

    # conveniences
    def f(self, mod, fn, *args):
        return self.call('calls', [[mod, fn, list(args)]])[0]

    def fk(self, mod, fn, args, kw):
        return self.call('calls', [[mod, fn, list(args), kw]])[0]

    def many(self, items):
        return self.call('calls', items)

    def has(self, mod, name):
        return self.call('has', mod, name) is True
