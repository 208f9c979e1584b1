"""Shared runner for the property checks.

A check module (checks/cNN_*.py) defines

    PROPERTY, RULE, ASSUMPTIONS
    SUBS = [Sub(name, strategy, fn, quick=N, thorough=M), ...]

`strategy` generates a *case*: a JSON-able structure (dict/list/str/int/float/None/bool)
holding everything that is needed to run it again.  `fn(case, ctx)` runs the case on the real
code and raises Violation (through ctx.fail/ctx.check/...) if the property does not hold there.
An exception raised from inside pyTMD on a valid case is a violation too; an exception of the
harness itself is an error (exit 2).

Every Sub runs in a forked worker process, split into shards; hypothesis shrinks a failure and
the minimal case is written to a replay file that runs `fn` directly, without hypothesis.
"""
from __future__ import annotations
import os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.append(VT)

import argparse, hashlib, json, math, multiprocessing, queue as _queue, resource, shutil, signal, tempfile
import time, traceback, warnings
warnings.simplefilter('ignore')

import numpy as np
np.seterr(all='ignore')
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase, seed as hseed, strategies as st
import hypothesis.errors as herr

# third-party modules with their byte code, then /repo always compiled from its source
for _m in ('scipy.interpolate', 'scipy.spatial', 'scipy.optimize', 'scipy.special', 'pyproj', 'netCDF4', 'h5py', 'pandas', 'pyarrow',
           'pyarrow.parquet', 'yaml', 'lxml.etree', 'dateutil.parser', 'timescale', 'timescale.time',
           'timescale.eop', 'jplephem', 'platformdirs', 'matplotlib', 'geopandas', 'ipyleaflet',
           'ipywidgets', 'IPython', 'cartopy', 'matplotlib.pyplot', 'setuptools_scm', 'boto3'):
    try:
        __import__(_m)
    except Exception:
        pass
sys.pycache_prefix = '/nonexistent-vp-pycache'
import pyTMD
assert os.path.realpath(pyTMD.__file__).startswith(os.path.realpath(REPO) + os.sep), pyTMD.__file__

SHRINK_SECONDS = 40.0
# cases of the quick tier, as a multiple of those stated by the checks
QUICK = 2.5


class Violation(Exception):
    """The property does not hold on this case. `key` names what failed."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key or 'general'


class Skip(Exception):
    """The case turned out to be outside the property's domain (counted, not judged)."""


class Ctx:
    """What one execution of a case reports back."""
    def __init__(self, tmp=None):
        self.nontrivial = False
        self.labels = []
        self.tmp = tmp

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, name):
        self.labels.append(str(name))

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg, key)

    def skip(self):
        raise Skip()

    def close(self, got, want, what, rtol=1e-9, atol=1e-12, key=None):
        """elementwise closeness of plain numeric data (shape must match)"""
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f'{what}: shape {g.shape} expected {w.shape}', key)
        if g.size == 0:
            return
        if g.dtype == bool and w.dtype == bool:
            g, w = g.astype(int), w.astype(int)
        bad = ~(np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
        if np.any(bad):
            i = tuple(int(v) for v in np.argwhere(bad)[0]) if g.ndim else ()
            raise Violation(f'{what}: got {g[i]!r} expected {w[i]!r} at {i} '
                f'({int(bad.sum())} of {g.size} differ, max |d|={np.nanmax(np.abs(np.where(bad, g-w, 0)))!r})', key)

    def mclose(self, got, want, what, rtol=1e-9, atol=1e-12, key=None):
        """closeness of masked arrays: same mask, same values where valid"""
        gm = np.ma.getmaskarray(np.ma.asarray(got))
        wm = np.ma.getmaskarray(np.ma.asarray(want))
        if gm.shape != wm.shape:
            raise Violation(f'{what}: shape {gm.shape} expected {wm.shape}', key)
        if np.any(gm != wm):
            i = tuple(int(v) for v in np.argwhere(gm != wm)[0]) if gm.ndim else ()
            raise Violation(f'{what}: mask {bool(gm[i])} expected {bool(wm[i])} at {i}', key)
        ok = ~gm
        self.close(np.ma.getdata(got)[ok], np.ma.getdata(want)[ok], what, rtol, atol, key)


class Sub:
    def __init__(self, name, strategy, fn, quick=200, thorough=4000, tmp=False, shards=None,
                 examples=()):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.tmp = quick, thorough, tmp
        self.shards = shards          # shards in the quick tier (thorough uses at least 8)
        self.examples = list(examples)  # explicit cases always run first (regressions)


# ------------------------------------------------------------------ cases
def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        return f
    if isinstance(x, bytes):
        return {'__bytes__': x.hex()}
    raise TypeError(f'case holds {type(x)}')


def dumps(case):
    return json.dumps(case, sort_keys=True)


def uncase(x):
    if isinstance(x, dict):
        if set(x) == {'__bytes__'}:
            return bytes.fromhex(x['__bytes__'])
        return {k: uncase(v) for k, v in x.items()}
    if isinstance(x, list):
        return [uncase(v) for v in x]
    return x


def from_repo(tb):
    """is any frame of this traceback inside the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


CASE_CPU_SECONDS, CASE_REAL_SECONDS = 40.0, 300.0


class Hang(BaseException):
    """raised by the timers around a case"""


def _hang(signum, frame):
    raise Hang()


def execute(sub, case):
    """Run one case. Returns (ctx, violation or None); raises on harness errors."""
    # a case takes milliseconds: one that takes this long does not terminate
    signal.signal(signal.SIGPROF, _hang)
    signal.signal(signal.SIGALRM, _hang)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS, 5.0)
    signal.setitimer(signal.ITIMER_REAL, CASE_REAL_SECONDS, 5.0)
    try:
        return _execute(sub, case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _execute(sub, case):
    tmp = tempfile.mkdtemp(prefix='vp_case_') if sub.tmp else None
    ctx = Ctx(tmp)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sub.fn(uncase(case), ctx)
        return ctx, None
    except Skip:
        ctx.labels.append('skipped')
        ctx.nontrivial = False
        return ctx, None
    except Violation as v:
        return ctx, v
    except (herr.UnsatisfiedAssumption, KeyboardInterrupt):
        raise
    except Hang as exc:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if from_repo(exc.__traceback__):
            return ctx, Violation('does not terminate', key='hang')
        raise RuntimeError('case did not finish: ' + dumps(case)[:500])
    except MemoryError as exc:
        if from_repo(exc.__traceback__):
            return ctx, Violation(f'ran out of memory: {exc}', key='memory')
        raise
    except Exception as exc:
        if from_repo(exc.__traceback__):
            last = traceback.extract_tb(exc.__traceback__)
            where = [f for f in last if os.path.realpath(f.filename).startswith(os.path.realpath(REPO))][-1]
            return ctx, Violation(f'raised {type(exc).__name__}: {exc} '
                f'in {os.path.basename(where.filename)}:{where.name}', key=f'raises-{type(exc).__name__}')
        if isinstance(exc, (NameError, ImportError, OSError)) or \
           (isinstance(exc, AttributeError) and 'module' in str(exc)):
            raise       # a fault of the harness or of the sandbox
        # the value returned by the code under test could not even be compared
        last = traceback.extract_tb(exc.__traceback__)[-1]
        return ctx, Violation(f'result not usable: {type(exc).__name__}: {exc} '
            f'at {os.path.basename(last.filename)}:{last.lineno}', key='unusable')
    finally:
        if tmp is not None:
            shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ worker
def run_shard(prop, sub, n, seedval, known_keys, deadline, q):
    """Runs one shard of a Sub and puts a result dict on the queue."""
    res = dict(sub=sub.name, evaluations=0, nontrivial=[], labels={}, samples=[],
               skipped_time=0, violation=None, error=None, known=[])
    seen = set()
    failing = {}          # case json -> message
    state = dict(first_fail=None, last=None)

    def body(raw):
        case = jsonable(raw)
        js = dumps(case)
        now = time.time()
        if state['first_fail'] is None:
            if now > deadline:
                res['skipped_time'] += 1
                return
        elif now - state['first_fail'] > SHRINK_SECONDS and js not in failing:
            return
        ctx, v = execute(sub, case)
        if v is not None and known_keys and v.key in known_keys:
            res['known'].append(v.key)
            v = None
        if state['first_fail'] is None:
            res['evaluations'] += 1
            for l in ctx.labels:
                res['labels'][l] = res['labels'].get(l, 0) + 1
            if ctx.nontrivial:
                h = hashlib.sha1(js.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(res['samples']) < 2 and len(js) < 3000:
                        res['samples'].append(case)
        if v is not None:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            failing[js] = (str(v), v.key)
            best = state['last']
            if best is None or (len(js), js) <= (len(best), best):
                state['last'] = js
            raise v

    try:
        for case in sub.examples:
            try:
                body(case)
            except Violation:
                break
        if state['last'] is None and n > 0:
            test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                            phases=[Phase.generate, Phase.shrink], derandomize=False,
                            verbosity=hypothesis.Verbosity.quiet)(
                   hseed(seedval)(given(sub.strategy)(body)))
            try:
                test()
            except Violation:
                pass
            except (herr.Flaky, BaseExceptionGroup) as exc:
                if state['last'] is None:
                    raise
    except herr.Unsatisfiable:
        res['error'] = f'{sub.name}: strategy is unsatisfiable'
    except Exception:
        if state['last'] is None:
            res['error'] = f'{sub.name}: ' + traceback.format_exc()
    if state['last'] is not None:
        msg, key = failing[state['last']]
        # must reproduce outside hypothesis
        try:
            _, v = execute(sub, json.loads(state['last']))
        except Exception:
            v = None
        res['violation'] = dict(sub=sub.name, case=json.loads(state['last']), message=msg, key=key,
                                reproduces=v is not None)
    res['nontrivial'] = sorted(seen)
    q.put(res)


def worker(args, q):
    try:
        # a wild allocation fails in the worker instead of exhausting the sandbox
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        run_shard(*args, q)
    except BaseException:
        q.put(dict(sub=args[1].name, error=traceback.format_exc(), evaluations=0, nontrivial=[],
                   labels={}, samples=[], skipped_time=0, violation=None, known=[]))


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f) if k.get('property') == prop and k.get('status') == 'known']


# ------------------------------------------------------------------ main
def main(mod):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--serial', action='store_true')
    args = ap.parse_args()
    prop = mod.PROPERTY
    seedval = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    subs = {s.name: s for s in mod.SUBS}
    assert len(subs) == len(mod.SUBS), 'duplicate sub names'

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        _, v = execute(subs[rep['sub']], rep['case'])
        if v is None:
            print(f'replay: {prop} {rep["sub"]}: holds')
            return 0
        print(f'replay: {prop} {rep["sub"]}: {v}')
        print(f'VIOLATION property={prop} replay={args.replay}')
        return 1

    t0 = time.time()
    budget = 600.0 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', '3000'))
    deadline = t0 + budget
    known = load_known(prop)
    # known findings: each one is tried by its own case, by key
    lines, known_keys = [], {}
    for k in known:
        sub = subs[k['sub']]
        known_keys.setdefault(k['sub'], set()).add(k['key'])
        _, v = execute(sub, k['case'])
        if v is not None and v.key == k['key']:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    for l in lines:
        print(l)

    jobs = []
    for s in mod.SUBS:
        if args.sub and s.name != args.sub:
            continue
        n = s.quick*(QUICK if s.quick >= 20 else 1) if tier == 'quick' else max(s.thorough, QUICK*s.quick)
        n = int(round(n * args.scale))
        shards = max(s.shards or 1, min(8, -(-n // 250))) if tier == 'quick' else max(8, s.shards or 1)
        shards = max(1, min(shards, n))
        for i in range(shards):
            ni = n // shards + (1 if i < n % shards else 0)
            s2 = s
            if i > 0 and s.examples:
                s2 = Sub(s.name, s.strategy, s.fn, s.quick, s.thorough, s.tmp)
            # stable per-sub seed
            h = int(hashlib.sha1(f'{seedval}/{prop}/{s.name}/{i}'.encode()).hexdigest()[:12], 16)
            jobs.append((prop, s2, ni, h, known_keys.get(s.name, set()), deadline))

    results = []
    if args.serial:
        class L(list):
            put = list.append
        for j in jobs:
            q = L()
            worker(j, q)
            results.extend(q)
    else:
        mp = multiprocessing.get_context('fork')
        q = mp.Queue()
        nproc = max(1, min(8, os.cpu_count() or 1))
        running, todo = [], list(jobs)
        missing = 0
        while todo or running:
            while todo and len(running) < nproc:
                p = mp.Process(target=worker, args=(todo.pop(0), q), daemon=True)
                p.start()
                running.append(p)
            try:
                results.append(q.get(timeout=0.2))
            except _queue.Empty:
                pass
            alive = []
            for p in running:
                if p.is_alive():
                    alive.append(p)
                else:
                    p.join()
                    if p.exitcode != 0:
                        missing += 1
            running = alive
        while True:
            try:
                results.append(q.get(timeout=0.3))
            except _queue.Empty:
                break
        if len(results) < len(jobs):
            print(f'ERROR: {len(jobs) - len(results)} workers died', file=sys.stderr)
            return 2

    order = {s.name: i for i, s in enumerate(mod.SUBS)}
    results.sort(key=lambda r: order.get(r['sub'], 99))
    errors = [r['error'] for r in results if r.get('error')]
    violations, evid_subs = [], {}
    nontriv = set()
    evaluations = 0
    samples = []
    skipped = 0
    for r in results:
        e = evid_subs.setdefault(r['sub'], dict(evaluations=0, nontrivial=set(), labels={}))
        e['evaluations'] += r['evaluations']
        e['nontrivial'].update(r['nontrivial'])
        for k, v in r['labels'].items():
            e['labels'][k] = e['labels'].get(k, 0) + v
        evaluations += r['evaluations']
        nontriv.update(r['sub'] + '/' + h for h in r['nontrivial'])
        skipped += r['skipped_time']
        if r['violation']:
            violations.append(r['violation'])
    seen = set()
    for r in results:
        if r['sub'] not in seen and r['samples']:
            seen.add(r['sub'])
            samples.append(dict(sub=r['sub'], case=r['samples'][0]))
    # one violation per sub: the smallest
    best = {}
    for v in violations:
        b = best.get(v['sub'])
        if b is None or (not b['reproduces'] and v['reproduces']) or \
           (b['reproduces'] == v['reproduces'] and len(dumps(v['case'])) < len(dumps(b['case']))):
            best[v['sub']] = v
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    paths = []
    for name, v in best.items():
        h = hashlib.sha1(dumps(v['case']).encode()).hexdigest()[:10]
        path = os.path.join(evdir, 'replay', f'{prop}-{name}-{h}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, sub=name, message=v['message'], key=v['key'],
                           case=v['case'], seed=seedval,
                           rerun=f'./check {prop} --replay {os.path.relpath(path, VERIF)}'), f, indent=1)
        paths.append((v, path))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seedval, level='exploration',
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontriv), rule=mod.RULE,
            samples=samples,
            subchecks={k: dict(evaluations=e['evaluations'], distinct_nontrivial=len(e['nontrivial']),
                labels=dict(sorted(e['labels'].items()))) for k, e in evid_subs.items()},
            cases_not_run_for_time=skipped, known_findings=len(lines)),
        assumptions=list(mod.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(best))
    with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, e in evid_subs.items():
        print(f"{prop} {k}: {e['evaluations']} cases, {len(e['nontrivial'])} non-trivial {dict(sorted(e['labels'].items()))}")
    print(f'{prop} {tier} seed={seedval}: {evaluations} cases, {len(nontriv)} distinct non-trivial, '
          f'{len(best)} violations, {wall:.1f}s' + (f', {skipped} not run for time' if skipped else ''))
    if paths:
        for v, path in paths:
            print(f"  [{v['sub']}] {v['message'][:600]}" + ('' if v['reproduces'] else ' (did not reproduce alone)'))
            print(f'VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}')
        return 1
    if errors:
        for e in errors:
            print('HARNESS ERROR ' + e, file=sys.stderr)
        return 2
    return 0
