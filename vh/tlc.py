"""Run TLC on specification modules and parse verdicts."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar']


class MachineryError(Exception):
    pass


_work = None


def work():
    """scratch folder of this run"""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='vh_')
        import atexit
        atexit.register(shutil.rmtree, _work, ignore_errors=True)
    return _work


_classes = None


def classes():
    global _classes
    if _classes is None:
        out = os.path.join(work(), 'classes')
        os.makedirs(out, exist_ok=True)
        src = os.path.join(SPEC, 'java')
        files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith('.java')]
        r = subprocess.run(['javac', '-nowarn', '-cp', ':'.join(JARS), '-d', out] + files,
                           capture_output=True, text=True)
        if r.returncode:
            raise MachineryError('javac failed:\n' + r.stderr)
        _classes = out
    return _classes


def tlc(module, cfg, env=None, workers=1, args=(), timeout=800, heap='3g', override=True):
    """Run TLC; returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=work())
    cp = ([classes()] if override else []) + JARS
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss16m',
           '-cp', ':'.join(cp), '-Djava.io.tmpdir=' + meta, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f'TLC timed out on {module} {cfg}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def model_check(module, cfg, **kw):
    """Exhaustive run of a small model; must be free of errors."""
    rc, out = tlc(module, cfg, **kw)
    if rc != 0 or 'Error:' in out:
        raise MachineryError(f'model checking of {module}/{cfg} failed (rc={rc}):\n' + out[-6000:])
    m = STATES.findall(out)
    gen, dist = (int(x) for x in m[-1]) if m else (0, 0)
    return {'module': module, 'cfg': cfg, 'transitions': gen, 'states': dist, 'output': out}


BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"\s*>>')
CNT = re.compile(r'<<\s*"CNT",\s*"([^"]*)",\s*(\d+)\s*>>')
DONE = re.compile(r'<<\s*"DONE",\s*(\d+)\s*>>')


def validate(module, cfg, tracefile, n, **kw):
    """Check one recorded trace. Returns (list of (event number, clause), counts)."""
    rc, out = tlc(module, cfg, env={'TRACE': tracefile}, **kw)
    done = DONE.search(out)
    if rc != 0 or not done or int(done.group(1)) != n:
        errs = [p.split('State ', 1)[0][:1500] for p in out.split('Error:')[1:]]
        raise MachineryError(f'trace validation {module}: TLC rc={rc}\n' + '\n'.join(errs)[-4000:])
    bad = [(int(a), b) for a, b in BAD.findall(out)]
    cnt = {a: int(b) for a, b in CNT.findall(out)}
    return bad, cnt


def parallel(jobs, n=7):
    """jobs: list of callables; returns results in order, re-raising errors"""
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def behaviours(module, cfg=None, num=None, depth=None, seed=1, **kw):
    """Behaviours that TLC generates from a specification module: all of them (breadth first), or `num` random ones."""
    import json
    args = [] if num is None else ['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed)]
    rc, out = tlc(module, cfg or module + '.cfg', args=args, **kw)
    if rc != 0 or 'Error:' in out:
        raise MachineryError(f'generating behaviours from {module} failed (rc={rc}):\n' + out[-3000:])
    res = [json.loads(json.loads(x)[3:]) for x in out.splitlines() if x.startswith('"@B ')]
    if not res:
        raise MachineryError(f'no behaviours generated from {module}')
    return res
