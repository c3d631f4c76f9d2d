"""python tools/mutate.py FILE [--n N] [--seed S] [--workers W] : small changes to one source file of Chandra-MARX/marxs.

Every change is made on a scratch copy and the checks of the properties anchored in that file are run on it
(without the model checking part). Changes that no check notices are printed, for a look by hand: most are
equivalent to the original, are in plotting or printing code, or show what a check does not cover.
Nothing in /repo or /verif is changed.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
warnings.simplefilter('ignore')
EXTRA = {'marxs/math/pluecker.py': ['C03'], 'marxs/math/geometry.py': ['C03', 'C25', 'C15', 'C12', 'C17', 'C05'],
         'marxs/source/basesources.py': ['C13', 'C16'], 'marxs/optics/base.py': ['C01', 'C04', 'C02', 'C27'],
         'marxs/math/utils.py': ['C03', 'C05', 'C17', 'C06'], 'marxs/base/base.py': ['C22', 'C01', 'C05', 'C03'],
         'marxs/optics/grating.py': ['C08', 'C09', 'C01', 'C27', 'C02'], 'marxs/optics/mirror.py': ['C10', 'C11', 'C01'],
         'marxs/optics/scatter.py': ['C24', 'C11'], 'marxs/optics/detector.py': ['C12', 'C01'],
         'marxs/simulator/simulator.py': ['C05', 'C04', 'C23', 'C06', 'C17'], 'marxs/source/pointing.py': ['C14', 'C11'],
         'marxs/optics/multiLayerMirror.py': ['C26', 'C02'], 'marxs/visualization/mayavi.py': ['C25'],
         'marxs/math/rotations.py': ['C24', 'C05', 'C17'], 'marxs/math/polarization.py': ['C11', 'C26', 'C29', 'C24'],
         'marxs/reduction/lsfparm.py': ['C20'], 'marxs/analysis/run_helpers.py': ['C18'],
         'marxs/optics/marx.py': ['C30']}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
SIGN = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
        ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Pow: ('**', '*'),
       ast.Mod: ('%', '*'), ast.FloorDiv: ('//', '/'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'), ast.MatMult: ('@', '*')}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda n: (start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.FunctionDef) and (n.name.startswith('plot') or n.name in ('__repr__', 'describe')):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'warn')):
            skip.update(id(m) for m in ast.walk(n))

    def between(a, b, old, new):
        i, j = pos(a)[1], pos(b)[0]
        k = raw[i:j].find(old.encode())
        if k >= 0:
            out.append((a.end_lineno, i + k, i + k + len(old), new))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            between(n.left, n.comparators[0], SIGN[type(n.ops[0])], CMP[type(n.ops[0])])
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            a, b = (n.left, n.right) if isinstance(n, ast.BinOp) else (n.target, n.value)
            between(a, b, *BIN[type(n.op)])
        elif isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], *(('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)):
            i, j = pos(n)
            v = n.value
            if isinstance(v, bool):
                out.append((n.lineno, i, j, str(not v)))
            else:
                out.append((n.lineno, i, j, repr(v + 1) if abs(v) < 3 else repr(v * 1.1 if isinstance(v, float) else v + 1)))
                if isinstance(v, float) and v:
                    out.append((n.lineno, i, j, repr(v * .9)))
                if v == 1:
                    out.append((n.lineno, i, j, '0'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            out.append((n.lineno, pos(n)[0], pos(n.operand)[0], ''))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n.lineno, *pos(n), 'pass'))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            out.append((n.lineno, *pos(n), 'pass'))
        elif isinstance(n, ast.If) and not n.orelse:
            out.append((n.lineno, *pos(n.test), 'False'))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'flatten') and not n.args:
            out.append((n.lineno, pos(n.func.value)[1], pos(n)[1], ''))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('sin', 'cos', 'ceil', 'floor', 'min', 'max', 'sum', 'mean', 'abs'):
            i = pos(n.func)[1] - len(n.func.attr)
            new = {'sin': 'cos', 'cos': 'sin', 'ceil': 'floor', 'floor': 'ceil', 'min': 'max', 'max': 'min', 'sum': 'mean',
                   'mean': 'sum', 'abs': 'asarray'}[n.func.attr]
            out.append((n.lineno, i, i + len(n.func.attr), new))
        if isinstance(n, ast.Call) and n.keywords and not n.args[2:]:
            k = n.keywords[-1]
            if len(n.keywords) > 1 or n.args:
                prev = n.keywords[-2].value if len(n.keywords) > 1 else n.args[-1]
                if k.arg and pos(prev)[1] < pos(k)[0]:
                    out.append((n.lineno, pos(prev)[1], pos(k)[1], ''))
    res = []
    for line, i, j, new in sorted(set(out)):
        m = (raw[:i] + new.encode() + raw[j:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((line, raw[i:j].decode(), new, m))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--n', type=int, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--lines', help='A-B')
    ap.add_argument('--props')
    a = ap.parse_args()
    props = a.props.split(',') if a.props else EXTRA.get(a.file) or [
        p['id'] for p in map(json.loads, open(V + '/properties.jsonl')) if a.file in p['anchors']['files']]
    ms = mutants(open('/repo/' + a.file).read())
    if a.lines:
        lo, hi = map(int, a.lines.split('-'))
        ms = [m for m in ms if lo <= m[0] <= hi]
    total = len(ms)
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.n]
    base = tempfile.mkdtemp(prefix='mutate_', dir='/tmp')
    free = Queue()
    try:
        for w in range(a.workers):
            d = f'{base}/{w}'
            os.makedirs(d)
            subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
            subprocess.run(['cp', '-a', V, d + '/verif'], check=True)
            free.put(d)

        def one(m):
            line, old, new, text = m
            d = free.get()
            try:
                f = f'{d}/repo/{a.file}'
                orig = open(f).read()
                open(f, 'w').write(text)
                killed = None
                for p in props:
                    env = dict(os.environ, VH_REPO=d + '/repo', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1')
                    try:
                        r = subprocess.run([PY, d + '/verif/checks/run.py', p, '--tier', 'quick', '--no-mc'], env=env,
                                           capture_output=True, text=True, timeout=300).returncode
                    except subprocess.TimeoutExpired:
                        r = 'timeout'
                    if r:
                        killed = p + ('' if r == 1 else f'({r})')
                        break
                open(f, 'w').write(orig)
                return (line, old, new, killed)
            finally:
                free.put(d)
        with ThreadPoolExecutor(a.workers) as ex:
            res = list(ex.map(one, ms))
        left = sorted((r for r in res if r[3] is None), key=lambda r: r[0])
        print(f'{a.file}: {total} possible, {len(res)} tried, {len(left)} not noticed; odd: {[r for r in res if r[3] and "(" in r[3]][:5]}')
        src = open('/repo/' + a.file).read().split('\n')
        for line, old, new, _ in left:
            print(f'  {line}: {old.strip()[:60]!r} -> {new!r}    | {src[line - 1].strip()[:110]}')
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    main()
