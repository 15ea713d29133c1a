#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
checks = []
na = []
for p in P:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd='bash /verif/run.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough bash /verif/run.sh ' + p['id'],
            technique=p['technique'], level='other', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='bash /verif/run.sh build', checks=checks, not_applicable=na,
    notes='One static analyser (/verif/checker) decides every claimed property from the type-checked SSA form of /repo; nothing of /repo is executed. No hooks in /repo.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
