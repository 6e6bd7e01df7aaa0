"""Writes MANIFEST.json from the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
PY = '/opt/venv/bin/python -B run.py'
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    f = os.path.join(V, 'checks', d['id'] + '.py')
    if not os.path.exists(f):
        na.append({'property': d['id'], 'reason': 'check not written yet'})
        continue
    doc = re.match(r'"""(.*?)"""', open(f).read(), re.S).group(1).replace('\n', ' ').strip()
    checks.append({'property': d['id'],
                   'quick_cmd': '%s %s --tier quick' % (PY, d['id']),
                   'thorough_cmd': '%s %s --tier thorough' % (PY, d['id']),
                   'technique': 'property-based testing (Hypothesis, sharded, shrinking): ' + doc,
                   'level': 'exploration',
                   'level_note': 'Generated-input search against an explicit oracle; no claim beyond the explored cases. '
                                 'Quick is about 5-50 s on 8 cores, thorough some minutes.'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Checks import /repo/src directly, run with Hypothesis from the verification venv or, '
              'failing that, the offline wheelhouse, and build a small clock shim (lib/fakeclock.c) in a scratch directory.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
