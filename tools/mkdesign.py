#!/usr/bin/env python3
"""Write DESIGN.md: the hand-written part (tools/design.md) plus the defect lists and the table of planted bugs."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f'{R}/tools/design.md').read()
kf = json.load(open(f'{R}/known_findings.json'))
t = t.replace('@@FIXED@@', '\n'.join('- ' + x for x in kf['fixed']))
t = t.replace('@@FINDINGS@@', '\n'.join(f"- {x['property']}: {x['what']}" for x in kf['findings']))
rows = []
res = json.load(open(f'{R}/tools/caught.json'))
for m in sorted(glob.glob(f'{R}/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {res.get(i, 'not run')} |")
t = t.replace('@@BUGS@@', '| Change | Property | Breaks | Needs | Own quick check |\n|---|---|---|---|---|\n' + '\n'.join(r.replace('\n', ' ') for r in rows))
n = sum(1 for v in res.values() if v == 'caught')
t = t.replace('@@COUNT@@', f'{len(rows)} changes; {n} caught by the quick check of their own property')
open(f'{R}/DESIGN.md', 'w').write(t)
