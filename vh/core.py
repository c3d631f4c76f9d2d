"""Framework of the checks: scenarios drive the code in /repo and record events,
TLC judges the recorded traces against the specification modules in /verif/spec.

Python never decides whether an event is right: it chooses inputs, calls the code
and writes down what went in and what came out (numbers exactly, see num.py).
"""
import argparse
import contextlib
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ.setdefault('MPLBACKEND', 'agg')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

from . import tlc  # noqa: E402

warnings.simplefilter('ignore')
np.seterr(all='ignore')


class Recorder:
    """Collects sessions = lists of events; every session is judged from the
    initial state of its specification."""

    def __init__(self, scenario):
        self.scenario = scenario
        self.sessions = []

    @contextlib.contextmanager
    def session(self, key, **inputs):
        s = Session(key, inputs)
        self.sessions.append(s)
        try:
            yield s
        except Exception as ex:  # the code under test raised where it should not
            tb = traceback.extract_tb(ex.__traceback__)
            s.events.append({'k': 'exception', 'what': f'{type(ex).__name__}: {ex}'[:300],
                             'at': [f'{os.path.basename(f.filename)}:{f.name}' for f in tb][-4:]})


class Session:
    def __init__(self, key, inputs):
        self.key = key
        self.inputs = inputs
        self.events = []

    def emit(self, k, **fields):
        fields['k'] = k
        self.events.append(fields)
        return fields

    @contextlib.contextmanager
    def expect_error(self, what):
        """Record whether the enclosed call raised (an input that must be refused)."""
        ok = False
        err = ''
        try:
            yield
        except Exception as ex:
            ok = True
            err = f'{type(ex).__name__}: {ex}'[:200]
        self.emit('refused', what=what, raised=ok, err=err)


class _Alarm(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds, what='call'):
    """A call that should end: raises TimeoutError when it takes longer."""
    import signal

    def ring(*a):
        raise _Alarm()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.2)
    try:
        yield
    except _Alarm:
        raise TimeoutError(f'{what} did not end within {seconds} s') from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def jsonable(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating, float)):
        return repr(float(o))
    return str(o)


def some(rng, what, n):
    """n of them (all, if there are not more)"""
    return what if len(what) <= n else [what[int(i)] for i in sorted(rng.permutation(len(what))[:n])]


class Scenario:
    def __init__(self, name, func, quick, thorough, trace, chunks):
        self.name, self.func, self.quick, self.thorough = name, func, quick, thorough
        self.trace, self.chunks = trace, chunks


class Check:
    def __init__(self, prop, level='model_checking', assumptions=()):
        self.prop = prop
        self.level = level
        self.assumptions = list(assumptions)
        self.scenarios = []
        self.mcs = []

    def mc(self, module, cfg=None, quick=True, **kw):
        self.mcs.append((module, cfg or module + '.cfg', quick, kw))

    def scenario(self, quick=50, thorough=1000, trace=None, name=None, chunks=1):
        def deco(f):
            self.scenarios.append(Scenario(name or f.__name__, f, quick, thorough, trace, chunks))
            return f
        return deco


def scenario_rng(seed, name, chunk):
    return np.random.default_rng([seed, zlib.crc32(name.encode()), chunk])


def _record(args):
    """Runs in a forked process: run one chunk of one scenario, write the trace files."""
    prop, si, chunk, tier, seed, outdir = args
    sc = CURRENT.scenarios[si]
    n = sc.quick if tier == 'quick' else sc.thorough
    n = max(1, -(-n // sc.chunks))
    rng = scenario_rng(seed, sc.name, chunk)
    np.random.seed(int(rng.integers(2 ** 31)))
    rec = Recorder(sc.name)
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
                sc.func(rec, rng, n)
    except Exception:
        return ('error', sc.name + ': ' + traceback.format_exc())
    path = os.path.join(outdir, f'{sc.name}_{chunk}.ndjson')
    index = []
    with open(path, 'w') as f:
        for i, s in enumerate(rec.sessions):
            if not s.events:
                continue
            for j, e in enumerate(s.events):
                if j == 0:
                    e = dict(e)
                e['new'] = (j == 0)
                f.write(json.dumps(e, default=jsonable) + '\n')
                index.append((i, j))
    meta = [(s.key, json.dumps(s.inputs, default=jsonable)[:4000], len(s.events)) for s in rec.sessions]
    return ('ok', sc.name, chunk, path, index, meta, time.time() - t0)


CURRENT = None


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def run(check, argv=None):
    global CURRENT
    CURRENT = check
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only', help='run only this scenario')
    ap.add_argument('--no-mc', action='store_true')
    ap.add_argument('--keep', help='keep recorded traces in this folder')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    try:
        return _run(check, a, t0)
    except tlc.MachineryError as ex:
        print('MACHINERY-ERROR', ex)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def _run(check, a, t0):
    prop = check.prop
    outdir = os.path.join(tlc.work(), 'traces')
    os.makedirs(outdir, exist_ok=True)
    tlc.classes()
    scs = [(i, s) for i, s in enumerate(check.scenarios) if not a.only or s.name == a.only]

    # 1. exhaustive model checking, in threads, in the background
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(3)
    mcf = []
    if not a.no_mc:
        for module, cfg, quick, kw in check.mcs:
            if a.tier == 'quick' and not quick:
                continue
            if a.tier == 'thorough' and os.path.exists(
                    os.path.join(tlc.SPEC, cfg.replace('.cfg', '_big.cfg'))):
                cfg = cfg.replace('.cfg', '_big.cfg')
            mcf.append(pool.submit(tlc.model_check, module, cfg, workers=3, **kw))

    # 2. run the code
    jobs = [(prop, i, c, a.tier, a.seed, outdir) for i, s in scs for c in range(s.chunks)]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, max(1, len(jobs)))) as mp:
        recs = mp.map(_record, jobs, chunksize=1)
    errors = [r[1] for r in recs if r[0] == 'error']
    if errors:
        raise tlc.MachineryError('scenario failed outside of a session:\n' + '\n'.join(errors))
    t1 = time.time()

    # 3. judge
    by_name = {s.name: s for _, s in scs}
    nonempty = [r for r in recs if r[4]]
    mods = {}
    for r in nonempty:
        mods.setdefault(by_name[r[1]].trace, []).append(r)
    # merge small traces that use the same specification, to save JVM starts
    batches = []
    total = sum(os.path.getsize(r[3]) for r in nonempty)
    most = min(3_000_000, max(400_000, total // 8))
    for mod, rs in mods.items():
        cur, size = [], 0
        for r in rs:
            sz = os.path.getsize(r[3])
            if cur and size + sz > most:
                batches.append((mod, cur))
                cur, size = [], 0
            cur.append(r)
            size += sz
        batches.append((mod, cur))

    def judge(b):
        mod, rs = b
        path = os.path.join(outdir, 'batch_%s_%s.ndjson' % (mod, rs[0][1] + str(rs[0][2])))
        where = []
        with open(path, 'w') as f:
            for r in rs:
                with open(r[3]) as g:
                    f.write(g.read())
                where += [(r, ij) for ij in r[4]]
        bad, cnt = tlc.validate(mod, 'trace.cfg', path, len(where))
        return [(where[l - 1], c) for l, c in bad], cnt

    counts = {}
    failures = []
    for bad, cnt in tlc.parallel([lambda b=b: judge(b) for b in batches]):
        for k, v in cnt.items():
            counts[k] = counts.get(k, 0) + v
        failures += bad
    mcs = [f.result() for f in mcf]
    pool.shutdown()

    # 4. report
    found = {}
    for (r, (i, j)), clause in failures:
        key = r[5][i][0]
        found.setdefault((clause, key), []).append((r, i, j))
    known = {(k['clause'], k['key']): k for k in known_findings() if k['property'] == prop
             and k.get('status') == 'known'}
    violations = []
    for (clause, key), lst in sorted(found.items()):
        if (clause, key) in known:
            print(f'KNOWN-FINDING: property={prop} {known[(clause, key)]["what"]}')
        else:
            violations.append((clause, key, lst))
    nviol = 0
    if violations:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, (clause, key, lst) in enumerate(violations[:20]):
            r, i, j = lst[0]
            with open(r[3]) as f:
                evs = [json.loads(x) for x, ij in zip(f, r[4]) if ij[0] == i]
            path = os.path.join(rdir, f'{prop}_{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'clause': clause, 'key': key, 'scenario': r[1], 'chunk': r[2],
                           'seed': a.seed, 'tier': a.tier, 'inputs': r[5][i][1], 'event_number': j,
                           'events': evs, 'occurrences': len(lst),
                           'rerun': f'/opt/venv/bin/python checks/run.py {prop} --tier {a.tier} --only {r[1]}'
                                    f' (with VERIF_SEED={a.seed})'}, f, indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'   clause "{clause}" in {r[1]}: {key} ({len(lst)}x)')
            if a.verbose or clause == 'no-exception':
                e = evs[j]
                if e.get('k') == 'exception':
                    print('   ', e['what'], e['at'])
        nviol = len(violations)
    nsess = sum(1 for r in recs for m in r[5] if m[2])
    nev = sum(len(r[4]) for r in recs)
    samples = {}
    for r in recs:
        for m in r[5][:2]:
            samples.setdefault(r[1], []).append(m[0])
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': check.level,
        'coverage': {
            'states': int(sum(m['states'] for m in mcs)) + nev,
            'transitions': int(sum(m['transitions'] for m in mcs)) + nev,
            'traces_validated_against_impl': nsess,
            'samples': [f'{k}: {v[0]}' for k, v in list(samples.items())[:20]] or ['none'],
            'events': nev,
            'clauses': counts,
            'models': [{k: m[k] for k in ('module', 'cfg', 'states', 'transitions')} for m in mcs],
            'scenarios': {r[1]: 0 for r in recs},
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': check.assumptions,
        'violations': nviol,
    }
    for r in recs:
        ev['coverage']['scenarios'][r[1]] += sum(1 for m in r[5] if m[2])
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if a.keep:
        import shutil
        shutil.copytree(outdir, a.keep, dirs_exist_ok=True)
    if a.verbose:
        for k, v in sorted(counts.items()):
            print(f'   {k}: {v}')
        for r in recs:
            print(f'   recorded {r[1]}/{r[2]} {len(r[4])} events in {r[6]:.1f}s')
        for m in mcs:
            print('   model', m['module'], m['cfg'], m['states'], m['transitions'])
    print(f'{prop} {a.tier}: {nsess} sessions, {nev} events, {sum(counts.values())} clause evaluations, '
          f'{sum(m["states"] for m in mcs)} model states, {nviol} violations, '
          f'recorded in {t1 - t0:.1f}s, total {time.time() - t0:.1f}s')
    return 1 if nviol else 0
