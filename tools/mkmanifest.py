#!/usr/bin/env python3
"""Write MANIFEST.json from the checks present under checks/."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(V, 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': 'no check built yet'})
        continue
    src = open(path).read()
    tech = re.search(r"^TECHNIQUE = '(.*)'$", src, re.M)
    note = re.search(r"^NOTE = '(.*)'$", src, re.M)
    checks.append({
        'property': pid,
        'quick_cmd': f'./run.py {pid} --tier quick',
        'thorough_cmd': f'./run.py {pid} --tier thorough',
        'technique': tech.group(1) if tech else 'property-based testing (Hypothesis) with an independent oracle',
        'level': 'exploration',
        'level_note': (note.group(1) if note else '') or 'Generated-input search: no counterexample among the generated cases; trusts the reference model in /verif/harness.',
    })
m = {
    'version': 1,
    'setup_cmd': './run.py --setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks import soapfish straight from /repo; nothing is built. VERIF_REPO=<dir> points them at another copy.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
