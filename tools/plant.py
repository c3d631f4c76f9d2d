"""python tools/plant.py ID [--keep] : confirm the bug described in /tmp/bugs/ID.py and store it under /verif/seeded/ID.

A bug file defines: property, edits = [(file, old, new), ...], needs, what, demo (source text).
The confirmation runs on a scratch copy of /repo under /tmp, which is removed afterwards.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# exit 0 if the behaviour is right, 1 if not; run with the repository as working directory
here="$(cd "$(dirname "$0")" && pwd)"
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=agg /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)


def plant(bid):
    b = runpy.run_path(f'/tmp/bugs/{bid}.py')
    base = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    tree = base + '/repo'
    sh(['cp', '-a', '/repo', tree])
    try:
        for f, old, new in b['edits']:
            s = open(f'{tree}/{f}').read()
            if s.count(old) != 1:
                print(bid, f'EDIT does not apply: {s.count(old)} matches in {f}: {old[:60]!r}')
                return 1
            open(f'{tree}/{f}', 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=tree).stdout
        out = f'{V}/seeded/{bid}'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(b['demo'])
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                  open(out + '/meta.json', 'w'), indent=1)
        ok = sh(['bash', out + '/demo.sh'], cwd='/repo')
        bad = sh(['bash', out + '/demo.sh'], cwd=tree)
        res = [f'demo clean={ok.returncode} patched={bad.returncode}']
        if ok.returncode:
            res.append('DEMO BROKEN ' + (ok.stdout + ok.stderr)[-400:])
        if not bad.returncode:
            res.append('DEMO DOES NOT SEE IT')
        elif '--show' in sys.argv:
            res.append((bad.stdout + bad.stderr)[-300:])
        failing = None   # a test that passes once in three runs is merely flaky
        for _ in range(3):
            st = sh(['python3', V + '/tools/stable.py', tree])
            now = set(l.strip() for l in st.stdout.splitlines()[1:])
            failing = now if failing is None else failing & now
            if not failing:
                break
        res.append(f'tests failing: {sorted(failing)[:4]}')
        env = dict(os.environ, VH_REPO=tree, VERIF_SEED='1')
        ck = sh([PY, V + '/checks/run.py', b['property'], '--tier', 'quick'], env=env)
        last = [l for l in ck.stdout.splitlines() if 'VIOLATION' in l][:2]
        res.append(f'check {b["property"]} exit {ck.returncode} ' + ' | '.join(x[:160] for x in last))
        print(bid, *res, sep='\n   ')
        good = not ok.returncode and bad.returncode and not failing
        if not good:
            shutil.rmtree(out)
            print('   NOT KEPT')
        return 0 if good else 1
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    for a in sys.argv[1:]:
        if not a.startswith('--'):
            plant(a)
