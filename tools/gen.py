"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py in /verif)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'static value-flow analysis (abstract interpretation of the Python syntax tree to gated normal forms)'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=TECH, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='python3 -m compileall -q sa',
         checks=[dict(property=p['id'], quick_cmd=f"python3 -m sa.run {p['id']}",
                      thorough_cmd=f"python3 -m sa.run {p['id']} --tier thorough", technique=p['technique'], level='other',
                      level_note=p['note'] or p['text']) for p in sorted(P, key=lambda p: p['id']) if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in sorted(P, key=lambda p: p['id']) if p['na']])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
