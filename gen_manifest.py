#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, level='exploration', technique=None, na=None, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               **({'observe_at': observe} if observe else {}), hook_needed=hook),
                  _note=note, _level=level, _tech=technique, _na=na))


exec(open(__file__.replace('gen_manifest.py', 'property_list.py')).read())

TECH = 'deterministic simulation with fault injection: seeded search over %s'
with open(__file__.replace('gen_manifest.py', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks, na = [], []
for p in P:
    if p['_na']:
        na.append(dict(property=p['id'], reason=p['_na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                       thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       technique=TECH % p['_tech'], level=p['_level'], level_note=p['_note']))
m = dict(version=1, setup_cmd='python3 setup.py',
         hooks=dict(guard='none', enable='no hooks in /repo: every seam is libc or library interposition at link time (see DESIGN.md)', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='check.py builds the simulator from /repo and sim/, explores VERIF_SEED, gates and minimises every violation, and writes evidence/<id>.json. check.py --replay FILE re-runs a violation.')
json.dump(m, open(__file__.replace('gen_manifest.py', 'MANIFEST.json'), 'w'), indent=1)
