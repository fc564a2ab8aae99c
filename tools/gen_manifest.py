#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []
NA = []

def p(id, title, statement, over, text, why, files, mechanism, level_note, technique, observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        row=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                              observe_at=list(observe), hook_needed=None)),
        check=dict(property=id, quick_cmd='./check %s' % id, thorough_cmd='./check %s --tier thorough' % id,
                   technique=technique, level='exploration', level_note=level_note)))

exec(open(os.path.join(VERIF, 'tools', 'properties.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x['row']) + '\n')
    for row, reason in NA:
        f.write(json.dumps(row) + '\n')
manifest = dict(version=1, setup_cmd='./check --setup', checks=[x['check'] for x in P],
                not_applicable=[dict(property=row['id'], reason=reason) for row, reason in NA],
                notes='Property-based testing with shrinking; engine in pbt/, driver in check, one harness crate per part of the repository. No hooks in /repo.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(NA), 'not applicable')
