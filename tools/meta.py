#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the source (gated value graph, symbolic normal forms, interval domain)'
LINT = 'whole-repository source lint'

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=reason))


NOTE = ('Every obligation is three-valued: proved for all element values, refuted (violation), or undecided (reported in the '
        'evidence, never an alarm). Real arithmetic; array extents are those of the driver configurations. ')

exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if p.get('state'):
            d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 -m compileall -q engine check.py || true', checks=[], not_applicable=[],
         notes='python3 check.py <id>; the decision procedure and every rule are described in DESIGN.md. No hooks in /repo are needed.')
for p in P:
    if 'na' in p:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                                thorough_cmd='python3 check.py %s --thorough' % p['id'],
                                technique=p['technique'], level='other', level_note=p['note']))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
