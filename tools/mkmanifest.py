'''Writes /verif/MANIFEST.json from properties.jsonl and the checks present.'''
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': f'/opt/venv/bin/python harness/run.py {i} --tier quick',
            'thorough_cmd': f'/opt/venv/bin/python harness/run.py {i} --tier thorough',
            'technique': TECH.get(i, 'runtime monitoring of seeded random workloads against a reference model'),
            'level': 'exploration',
            'level_note': 'Monitors over real executions of the code in /repo; assurance extends to the executions observed (counted in the evidence file), which are seeded and replayable. Trusts the reference model and monitors of harness/checks/' + i.lower() + '.py; assumptions are listed in the evidence file and in DESIGN.md.'})
    else:
        na.append({'property': i, 'reason': 'not built yet'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -c "import numpy, matplotlib"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all instrumentation attaches from outside (public API, a replaced event hash and spies installed by the harness). Known findings and fixed defects: known_findings.json.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
