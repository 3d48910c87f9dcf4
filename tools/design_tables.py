#!/usr/bin/env python3
"""Rewrites the two generated tables of DESIGN.md: planted bugs (from seeded/*/meta.json) and costs (from evidence/*.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append(f"| {d.split('/')[-2]} | {m['property']} | {m['needs']} |")
cost = ['| check | quick cases | judged | wall s |', '|---|---|---|---|']
for e in sorted(glob.glob(V + '/evidence/*.json')):
    j = json.load(open(e)); c = j['coverage']
    if j.get('tier') == 'quick': cost.append(f"| {j['property']} | {c.get('cases', '')} | {c.get('observations', c.get('judged', ''))} | {round(j['wall_s'])} |")
p = V + '/DESIGN.md'; s = open(p).read()
for name, t in (('seeds', rows), ('costs', cost)):
    b, e = f'<!-- {name} -->', f'<!-- /{name} -->'
    s = re.sub(re.escape(b) + '.*?' + re.escape(e), lambda m: b + '\n' + '\n'.join(t) + '\n' + e, s, flags=re.S)
open(p, 'w').write(s)
