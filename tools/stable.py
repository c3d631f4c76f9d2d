"""python tools/stable.py [TREE]: run the repository's tests in TREE, list stable tests that do not pass."""
import json
import os
import subprocess
import sys
import tempfile

tree = os.path.abspath(sys.argv[1] if len(sys.argv) > 1 else '/repo')
base = json.load(open('/opt/vp/BASELINE.json'))
with tempfile.TemporaryDirectory() as d:
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONPATH=tree)
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-n', '8', '-p', 'no:cacheprovider',
                    '--timeout=300', '--tb=no', '--disable-warnings', '--continue-on-collection-errors',
                    '--basetemp=' + d + '/tmp', '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml'],
                   cwd=tree, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['/opt/venv/bin/python', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/j.xml'],
                   stdout=subprocess.DEVNULL)
    got = json.load(open(d + '/o.json'))
missing = sorted(set(base['stable']) - set(got['passed']))
print(f'{len(base["stable"])} stable, {len(missing)} not passing')
for m in missing:
    print('  ', m)
sys.exit(1 if missing else 0)
