"""development helper: rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the list of not-applicable properties"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(H + '/DESIGN.md').read().split('## 8. Planted bugs')[0]
o = ['## 8. Planted bugs and the checks that catch them', '', 'All are caught by the check of their property (`vcheck`, and `tools/seed.py` when made).', '',
     '| id | caught by | what breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    o.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
na = json.load(open(H + '/MANIFEST.json')).get('not_applicable', [])
o += ['', '## 9. Not applicable', '']
o += [f"* {n.get('property', n.get('id', n.get('property_id')))}: {n['reason']}" for n in na] or ['None.']
open(H + '/DESIGN.md', 'w').write(d + '\n'.join(o) + '\n')
