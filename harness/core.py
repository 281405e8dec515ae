"""Runner: generated cases -> checks -> shrinking -> replay files and evidence."""
import collections
import functools
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback

from sut import Sut, Exc, NoAnswer, HarnessError, REPO  # noqa: F401

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOFT_LIMIT = {'quick': 560, 'thorough': 4 * 3600}     # seconds after which no further case is started
SHRINK_SECONDS = {'quick': 45, 'thorough': 240}


class Violation(Exception):
    """The library broke the property.  key: names the specific input or site, for known findings."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def show(v, n=400):
    if type(v) is int and v.bit_length() > 2000: v = hex(v)
    if isinstance(v, bytes): s = 'hex:' + v.hex()
    elif isinstance(v, Exc): s = 'raised ' + str(v)
    else: s = repr(v)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def same(got, want, what, key=None):
    """exact agreement, type included (an exception never equals a value)"""
    if isinstance(got, Exc) or type(got) is not type(want) or got != want:
        raise Violation('%s: got %s, expected %s' % (what, show(got), show(want)), key)


def rejected(got, what, key=None):
    if not isinstance(got, Exc):
        raise Violation('%s: got %s, expected an error' % (what, show(got)), key)


# ------------------------------------------------------------------ registration
class Sub:
    def __init__(self, fn, strategy, cases, q, t, qs, ts):
        self.fn, self.strategy, self.cases = fn, strategy, cases
        self.name = fn.__name__
        self.q, self.t, self.qs, self.ts = q, t, qs, ts


SUBS = []


def sub(strategy=None, cases=None, q=200, t=None, qs=1, ts=8):
    """strategy: Hypothesis strategy (or function returning one); q/t: cases in the quick/thorough tier;
    qs/ts: shards.  cases: function(tier) -> list of cases, all of which are run."""
    def deco(fn):
        @functools.wraps(fn)
        def run(s, case):
            try:
                return fn(s, case)
            except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
                # an answer of another form than the library gives (UnicodeError is a ValueError)
                if isinstance(e, HarnessError): raise
                tb = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation('an answer has a form the check cannot read: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)) from e
        SUBS.append(Sub(run, strategy, cases, q, t if t is not None else q * 20, qs, ts))
        return fn
    return deco


def load(pid):
    del SUBS[:]
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    sys.path.insert(0, os.path.join(VERIF, 'ref'))
    m = importlib.import_module(pid.lower())
    return m, list(SUBS)


# ------------------------------------------------------------------ json with bytes
def tojson(v):
    if isinstance(v, (bytes, bytearray)): return {'hex': bytes(v).hex()}
    if isinstance(v, dict): return {'map': [[tojson(k), tojson(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)): return [tojson(x) for x in v]
    if type(v) is int and v.bit_length() > 2000: return {'int': hex(v)}
    return v


def fromjson(v):
    if isinstance(v, dict):
        if 'hex' in v: return bytes.fromhex(v['hex'])
        if 'int' in v: return int(v['int'], 16)
        return {fromjson(k): fromjson(x) for k, x in v['map']}
    if isinstance(v, list): return [fromjson(x) for x in v]
    return v


def dumps(v):
    return json.dumps(tojson(v), separators=(',', ':'))


# ------------------------------------------------------------------ one process
class Ctx:
    """state of one pool process: one worker for all its tasks, and what was run on it"""
    sut = None
    history = []        # (sub name, case json) since the worker was started
    generation = None


def get_sut():
    if Ctx.sut is None:
        Ctx.sut = Sut()
    return Ctx.sut


class Stats:
    def __init__(self):
        self.evals = 0
        self.seen = set()
        self.labels = collections.Counter()
        self.samples = []
        self.known = {}
        self.skipped = 0


def run_case(s, case, st, known, pid, sut=None):
    """run one case; raises Violation unless it is a listed finding"""
    sut = sut or get_sut()
    # cases reach the check as they come back from the replay file, so that both are the same
    j = dumps(case)
    case = fromjson(json.loads(j))
    Ctx.history.append((s.name, j))
    st.evals += 1
    try:
        labels = s.fn(sut, case) or []
    except Violation as e:
        if e.key is not None and e.key in known:
            st.known[e.key] = known[e.key]
            st.labels['known-finding'] += 1
            return
        raise
    nt = 'trivial' not in labels
    for x in set(labels): st.labels[x] += 1
    if nt:
        h = hashlib.blake2b((s.name + j).encode(), digest_size=8).digest()
        if h not in st.seen:
            st.seen.add(h)
            if len(st.samples) < 2 or (len(st.samples) < 4 and len(st.seen) % 97 == 0):
                st.samples.append(j if len(j) < 1200 else j[:1200] + '...')


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:8], 'big')


def run_task(task):
    """-> dict; runs in a pool process"""
    pid, subname, tier, seed, shard, nshards, deadline, rundir = task
    t0 = time.time()
    st = Stats()
    res = dict(sub=subname, shard=shard, fail=None, error=None)
    try:
        m = importlib.import_module(pid.lower())
        s = [x for x in ALLSUBS if x.name == subname][0]
        known = load_known(pid)
        if os.path.exists(os.path.join(rundir, 'stop')):
            res.update(stats=st, wall=0.0)
            return res
        if s.cases is not None:
            fail = run_enum(s, tier, shard, nshards, st, known, pid, deadline, rundir)
        else:
            n = s.q if tier == 'quick' else s.t
            n = n // nshards + (1 if shard < n % nshards else 0)
            fail = run_hyp(s, tier, seed_of(seed, pid, subname, shard), n, st, known, pid, deadline, rundir)
        if fail is not None:
            open(os.path.join(rundir, 'stop'), 'w').close()
            res['fail'] = confirm(s, pid, fail)
    except HarnessError as e:
        res['error'] = 'harness: %s' % e
    except BaseException:
        res['error'] = traceback.format_exc()
    res['requests'] = Ctx.sut.n if Ctx.sut else 0
    res['wall'] = time.time() - t0
    res['stats'] = st
    if Ctx.sut and Ctx.sut.w:
        with open(os.path.join(rundir, 'pid-%d' % os.getpid()), 'w') as f: f.write(str(Ctx.sut.w.p.pid))
    return res


def run_enum(s, tier, shard, nshards, st, known, pid, deadline, rundir):
    for i, case in enumerate(s.cases(tier)):
        if i % nshards != shard: continue
        if time.time() > deadline:
            st.skipped += 1
            continue
        try:
            run_case(s, case, st, known, pid)
        except Violation as e:
            return dict(case=tojson(case), msg=str(e), kind='violation')
        except NoAnswer as e:
            return dict(case=tojson(case), msg=str(e), kind='noanswer')
    return None


def run_hyp(s, tier, seed, n, st, known, pid, deadline, rundir):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS[tier]
    strategy = s.strategy() if not hasattr(s.strategy, 'example') else s.strategy
    box = {'last': None, 'first': None}
    if n <= 0: return None

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
              phases=[Phase.generate, Phase.shrink], verbosity=hypothesis.Verbosity.quiet)
    @given(strategy)
    def body(case):
        if time.time() > deadline:
            st.skipped += 1
            return
        try:
            run_case(s, case, st, known, pid)
        except Violation as e:
            box['last'] = dict(case=tojson(case), msg=str(e), kind='violation')
            if box['first'] is None:
                box['first'] = dict(box['last'], upto=len(Ctx.history))
            raise
        except NoAnswer as e:
            box['last'] = dict(case=tojson(case), msg=str(e), kind='noanswer')
            raise
    try:
        body()
    except NoAnswer:
        return box['last']
    except Violation:
        return dict(box['last'], first=box['first'])
    except hypothesis.errors.Flaky:
        if box['first'] is None: raise
        return dict(box['last'], first=box['first'])
    except BaseException:
        if box['first'] is not None and 'Flaky' in traceback.format_exc():
            return dict(box['last'], first=box['first'])
        raise
    return None


def try_sequence(seq):
    """run (sub, case json) pairs in a fresh worker; -> (index, message) of the first violation, or None"""
    byname = {x.name: x for x in ALLSUBS}
    sut = Sut()
    try:
        for i, (name, j) in enumerate(seq):
            try:
                byname[name].fn(sut, fromjson(json.loads(j)))
            except Violation as e:
                return i, str(e)
            except NoAnswer as e:
                return i, str(e)
    finally:
        sut.close()
    return None


def confirm(s, pid, fail):
    """make the failure reproducible: alone in a fresh worker, or as a short history of cases"""
    one = [(s.name, json.dumps(fail['case'], separators=(',', ':')))]
    r = try_sequence(one)
    if r is not None:
        return dict(sequence=one, msg=r[1], reproduced=True)
    first = fail.get('first')
    seq = list(Ctx.history[:first['upto']]) if first else list(Ctx.history)
    r = try_sequence(seq)
    if r is None:
        return dict(sequence=one, msg=fail['msg'], reproduced=False)
    seq = seq[:r[0] + 1]
    # shorten: keep the last case, drop as much before it as possible
    t0 = time.time()
    step = max(1, len(seq) // 2)
    while step >= 1 and time.time() - t0 < 90:
        i = 0
        changed = False
        while i < len(seq) - 1 and time.time() - t0 < 90:
            cand = seq[:i] + seq[min(i + step, len(seq) - 1):]
            q = try_sequence(cand)
            if q is not None:
                seq = cand[:q[0] + 1]; r = q; changed = True
            else:
                i += step
        if step == 1 and not changed: break
        step = step // 2 if step > 1 else (1 if changed else 0)
    return dict(sequence=seq, msg=r[1], reproduced=True)


# ------------------------------------------------------------------ known findings
def load_known(pid):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f: d = json.load(f)
    except FileNotFoundError:
        return {}
    return {x['key']: x['what'] for x in d['findings'] if x['property'] == pid and x['status'] == 'known'}


# ------------------------------------------------------------------ the parent
ALLSUBS = []


def init_child():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def main(pid, tier, seed, only=None, procs=None, scale=1.0):
    t0 = time.time()
    mod, subs = load(pid)
    ALLSUBS[:] = subs
    procs = procs or int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 4)
    deadline = t0 + SOFT_LIMIT[tier]
    rundir = tempfile.mkdtemp(prefix='verif-run-')
    tasks = []
    for s in subs:
        if only and s.name not in only: continue
        if scale != 1.0: s.q = max(1, int(s.q * scale)); s.t = max(1, int(s.t * scale))
        ns = s.qs if tier == 'quick' else s.ts
        for k in range(ns):
            tasks.append((pid, s.name, tier, seed, k, ns, deadline, rundir))
    # one shard of everything first, so that a failure shows up early
    tasks.sort(key=lambda x: x[4])
    nproc = min(procs, len(tasks))
    results = []
    ctx = mp.get_context('fork')
    pool = ctx.Pool(nproc, init_child)
    hard = deadline + 200
    try:
        it = pool.imap_unordered(run_task, tasks, 1)
        for _ in tasks:
            try:
                r = it.next(timeout=max(5, hard - time.time()))
            except mp.TimeoutError:
                results.append(dict(sub='?', fail=None, error='a task did not end in time', stats=Stats(), requests=0))
                break
            results.append(r)
    finally:
        pool.terminate()
        pool.join()
        for f in os.listdir(rundir):
            if f.startswith('pid-'):
                try:
                    os.killpg(int(open(os.path.join(rundir, f)).read()), signal.SIGKILL)
                except (ProcessLookupError, PermissionError, ValueError):
                    pass
            os.unlink(os.path.join(rundir, f))
        os.rmdir(rundir)
    return report(pid, tier, seed, mod, subs, results, t0)


def report(pid, tier, seed, mod, subs, results, t0):
    per = {}
    seen = {}
    known = {}
    samples = []
    for r in results:
        st = r['stats']
        d = per.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=0, classes=collections.Counter(), wall_s=0.0))
        d['evaluations'] += st.evals
        d['wall_s'] = round(d['wall_s'] + r.get('wall', 0), 2)
        if st.skipped: d['not_run_time_limit'] = d.get('not_run_time_limit', 0) + st.skipped
        d['classes'].update(st.labels)
        seen.setdefault(r['sub'], set()).update(st.seen)
        known.update(st.known)
        if len([x for x in samples if x['sub'] == r['sub']]) < 3:
            samples += [dict(sub=r['sub'], case=j) for j in st.samples[:3]]
    for k in per:
        per[k]['distinct_nontrivial'] = len(seen[k])
        per[k]['classes'] = dict(sorted(per[k]['classes'].items()))
    fails = [r for r in results if r['fail']]
    errors = [r for r in results if r['error']]
    enum = [s.name for s in subs if s.cases is not None]
    ev = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(d['evaluations'] for d in per.values()),
            distinct_nontrivial=sum(d['distinct_nontrivial'] for d in per.values()),
            rule=mod.RULE,
            samples=samples,
            subchecks=per,
            enumerated_subchecks=enum,
            known_findings_observed=sorted(known),
            repo=REPO),
        assumptions=getattr(mod, 'ASSUMES', []) + [
            'Jython executes the library as its users run it',
            'the reference implementations in /verif/ref are right (they are tested against published vectors in setup)'],
        wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1); f.write('\n')
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    rc = 0
    if fails:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for r in fails[:1]:
            path = os.path.join(VERIF, 'replay', '%s-%s.json' % (pid, r['sub']))
            fl = r['fail']
            with open(path, 'w') as f:
                json.dump(dict(property=pid, subcheck=r['sub'], message=fl['msg'], reproduced=fl['reproduced'],
                               sequence=[dict(sub=n, case=json.loads(j)) for n, j in fl['sequence']]), f, indent=1)
                f.write('\n')
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s' % (r['sub'], fl['msg'][:2000]))
            if not fl['reproduced']: print('  (seen once; not reproduced in a fresh process)')
        rc = 1
    elif errors:
        for r in errors[:3]:
            print('ERROR in %s: %s' % (r['sub'], r['error']))
        rc = 2
    else:
        print('%s %s: %d cases, %d distinct non-trivial, %.1f s: held' % (
            pid, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    sys.stdout.flush()
    return rc


def replay(pid, path):
    mod, subs = load(pid)
    ALLSUBS[:] = subs
    with open(path) as f: d = json.load(f)
    r = try_sequence([(x['sub'], json.dumps(x['case'])) for x in d['sequence']])
    if r is None:
        print('%s: replay %s passes' % (pid, path))
        return 0
    print('VIOLATION property=%s replay=%s' % (pid, path))
    print('  ' + r[1][:2000])
    return 1
