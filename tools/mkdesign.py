"""DESIGN.md = tools/design_body.md + the planted bugs + the fixes (run: python3 tools/mkdesign.py)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/design_body.md').read().rstrip(), '']
notes = {}
p = V + '/tools/seed_notes.json'
if os.path.exists(p):
    notes = json.load(open(p))
out += ['| planted bug | property | what breaks | needs | caught |', '|---|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), notes.get(d, 'first')))
out += ['', '## 6. Repairs (`fix:` commits in /repo)', '']
for l in open(V + '/known_findings.jsonl'):
    e = json.loads(l)
    if e['status'] == 'fixed':
        out.append('- %s %s %s' % (e['property'], e['commit'], e['what'].split(' ', 3)[3]))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
