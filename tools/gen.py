#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development aid; no check runs it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=None, tech=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, na=na, note=note, tech=tech, d=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None))))

BUILT = set(open(os.path.join(ROOT, 'tools', 'built.txt')).read().split())
exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p['d']) + '\n')
checks, nas = [], []
for p in P:
    id = p['id']
    if p['na']:
        nas.append(dict(property=id, reason=p['na']))
    elif id not in BUILT:
        nas.append(dict(property=id, reason='Check not built yet.'))
    else:
        checks.append(dict(property=id, quick_cmd=f'bash run.sh check {id}', thorough_cmd=f'bash run.sh check {id}',
            technique=p['tech'] or 'deterministic simulation: seeded fault-injecting sessions judged against an executable reference model',
            level='exploration', level_note=p['note'] or 'Seeded search, not exhaustive: confidence grows with the number of runs. Trusts the reference model (sim/src/refmodel.rs) and the seams listed in DESIGN.md.'))
json.dump(dict(version=1, setup_cmd='bash run.sh build', checks=checks, not_applicable=nas,
    notes='No hooks in /repo: every seam is at the process boundary (libc interposition, compiler instrumentation, and a [patch] of the rand crate in the simulator\'s own workspace), see DESIGN.md. known_findings.json records fixed and known defects.'),
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(nas), 'not applicable')
