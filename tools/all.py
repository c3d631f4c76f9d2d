"""Run every check there is (or those named) and print one line each."""
import glob, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
ids = [a for a in args if re.fullmatch(r'C\d\d', a)]
rest = [a for a in args if a not in ids]
if not ids:
    ids = sorted(os.path.basename(f)[2:5].upper() for f in glob.glob(V + '/vh/p_c*.py'))
bad = 0
for i in ids:
    p = subprocess.run(['/opt/venv/bin/python', V + '/checks/run.py', i] + rest, capture_output=True, text=True)
    out = p.stdout.strip().splitlines()
    print(i, 'exit', p.returncode, (out[-1] if out else p.stderr[-300:])[:200], flush=True)
    if p.returncode:
        bad += 1
        for l in out[:-1]:
            print('    ', l[:250])
sys.exit(bad > 0)
