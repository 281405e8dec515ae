"""Does every sub-check look at every answer?  Runs sampled cases of a property again and again, each time with one
leaf of one answer of the library replaced, and reports the sub-checks that let such a change pass.
usage: python3-vt tools/probe_assertions.py C01 [cases per sub] [changes per case]"""
import collections
import json
import os
import random
import sys

sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness')]
import core
from sut import Sut, Exc, NoAnswer
import hypothesis
sys.set_int_max_str_digits(0)
from hypothesis import HealthCheck, Phase, given, settings


class Fake:
    """forwards to the worker; at call number k replaces one leaf of the answer"""

    def __init__(self, real): self.real, self.k, self.rnd, self.calls, self.did = real, None, None, [], None

    def call(self, name, *args):
        v = self.real.call(name, *args)
        self.calls.append((name, str(args)[:300]))
        if len(self.calls) - 1 == self.k: v = self.change(v)
        return v

    def change(self, v):
        leaves = []
        def walk(x, path):
            if isinstance(x, (list, tuple)):
                for i, y in enumerate(x): walk(y, path + (i,))
                if not x: leaves.append(path)
            elif isinstance(x, dict):
                for i, y in x.items(): walk(y, path + (i,))
            else: leaves.append(path)
        walk(v, ())
        if not leaves: return v
        path = self.rnd.choice(leaves)
        def rebuild(x, p):
            if not p:
                w = self.mutant(x)
                self.did = (path, x, w)
                return w
            if isinstance(x, dict): return {k: rebuild(y, p[1:]) if k == p[0] else y for k, y in x.items()}
            return type(x)(rebuild(y, p[1:]) if i == p[0] else y for i, y in enumerate(x))
        return rebuild(v, path)

    def mutant(self, x):
        if isinstance(x, Exc): return self.rnd.choice([0, b'', None, True, [0, 0]])
        if isinstance(x, bool): return not x
        if isinstance(x, int): return self.rnd.choice([x + 1, x ^ 1, -x or 2, str(x)])
        if isinstance(x, (bytes, bytearray)):
            if not x: return b'\0'
            i = self.rnd.randrange(len(x))
            return self.rnd.choice([x[:-1], x + b'\0', x[:i] + bytes([x[i] ^ 1 << self.rnd.randrange(8)]) + x[i + 1:]])
        if x is None: return 0
        if isinstance(x, (list, tuple)): return [0]
        if isinstance(x, float): return x + 1e-6
        return 0

    f = Sut.f; fk = Sut.fk; many = Sut.many; has = Sut.has

    def __getattr__(self, a): return getattr(self.real, a)


def cases_of(s, n):
    if s.cases is not None:
        l = list(s.cases('quick'))
        random.Random(1).shuffle(l)
        return l[:n]
    out = []
    strat = s.strategy() if not hasattr(s.strategy, 'example') else s.strategy

    @hypothesis.seed(5)
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
    @given(strat)
    def body(c): out.append(c)
    body()
    return out


def main(pid, n=25, m=4):
    mod, subs = core.load(pid)
    real = Sut()
    for s in subs:
        tot, passed = 0, collections.Counter()
        ex = {}
        for case in cases_of(s, n):
            case = core.fromjson(json.loads(core.dumps(case)))
            fk = Fake(real)
            try:
                lab = s.fn(fk, case) or []
            except (core.Violation, NoAnswer) as e:
                continue
            if 'trivial' in lab: continue
            k = len(fk.calls)
            if k == 0: print('%s %s: no call at all' % (pid, s.name)); continue
            for j in range(m):
                rnd = random.Random(j)
                fk = Fake(real); fk.rnd = rnd; fk.k = rnd.randrange(k)
                tot += 1
                try:
                    s.fn(fk, case)
                except core.Violation: continue
                except NoAnswer: continue
                except Exception as e:
                    why = 'crash %r' % e
                else: why = 'passed'
                if fk.did is None: tot -= 1; continue
                key = why[:60]
                passed[key] += 1
                ex.setdefault(key, []).append((fk.calls[fk.k] if fk.k < len(fk.calls) else None, fk.did))
        if passed:
            print('%s %s: of %d changed answers %s' % (pid, s.name, tot, dict(passed)))
            for key, l in ex.items():
                for c, d in l[:2]: print('     ', key, '|', str(c)[:260], '|', str(d)[:200])
        elif tot == 0: print('%s %s: nothing to change' % (pid, s.name))
    real.close()


if __name__ == '__main__':
    main(sys.argv[1], *map(int, sys.argv[2:]))
