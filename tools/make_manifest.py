"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/level_notes.json'))
na = json.load(open(V + '/tools/not_applicable.json'))
PY = '/opt/venv/bin/python checks/run.py '
checks = []
for p in props:
    i = p['id']
    if i in na or not os.path.exists(f'{V}/vh/p_{i.lower()}.py'):
        na.setdefault(i, 'no check built yet')
        continue
    checks.append({
        'property': i,
        'quick_cmd': PY + i + ' --tier quick',
        'thorough_cmd': PY + i + ' --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'TLA+ specification model-checked with TLC; recorded executions of the code judged by TLC '
                     'against the specification (trace validation)' +
                     ('; behaviours generated by TLC replayed in the code' if notes.get(i, {}).get('replay') else ''),
        'level': 'model_checking',
        'level_note': notes.get(i, {}).get('note', 'Exhaustive for the small model; the binding to the code covers the '
                                                   'recorded executions (seeded random and exact edge cases).'),
    })
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python tools/setup.py',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
    'notes': 'TLA+ with TLC; see DESIGN.md. No hooks in /repo are needed: the checks use the public API. '
             'Each check compiles spec/java/Num.java (speed-up of Num.tla) into a scratch folder.',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
