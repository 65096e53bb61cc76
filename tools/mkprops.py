#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'gravity_toolkit/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None,
        level='exploration', note='', state=None, na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over,
        text=text, why=why, files=[f if f.startswith('scripts/') else G + f for f in files], mech=mech,
        technique=technique, level=level, note=note, state=state, na=na))


ENUM = 'bounded exhaustive exploration of the implementation (model checking, stateless)'
BFS = 'explicit-state breadth-first search over operation histories of the real objects against a reference model'
FAULT = 'exhaustive fault-sequence enumeration on the implementation with a controlled environment'

exec(open(os.path.join(HERE, 'tools', 'props_table.py'), encoding='utf8').read())

P.sort(key=lambda p: p['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w)
            for n, w in p['mech']], hook_needed=None)
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'],
            statement=p['statement'], quantifier=dict(over=p['over'],
            text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
        checks.append(dict(property=p['id'], quick_cmd=f"./run.sh {p['id']} quick",
            thorough_cmd=f"./run.sh {p['id']} thorough",
            technique=p['technique'] or ENUM, level=p['level'],
            level_note=p['note'] or p['text']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump(dict(version=1, setup_cmd='true', checks=checks,
        not_applicable=na), f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'claimed', len(na), 'not claimed')
