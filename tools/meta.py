#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None, built=True, technique='', note='', hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], state=state or [], hook_needed=hook),
                  _built=built, _technique=technique, _note=note))

DST = 'deterministic simulation: '
BUILT = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'built.txt')).read().split())
NOTES = 'Evidence by seeded random exploration of simulated executions, not exhaustive; trusts the harness oracle and the analytic stand-ins for CSPICE / NRLMSISE-00 where the run uses them. '
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')).read())

ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
hooks = dict(guard='none', enable='no hook was needed: every seam is an existing interface or a symbol interposed at link time', source_commits=[])
m = dict(version=1, setup_cmd='python3 sim/run.py --build', hooks=hooks, checks=[], not_applicable=[],
         notes='All checks: sim/run.py rebuilds /repo/src into an in-process simulator (see DESIGN.md) and runs seeded simulations. VERIF_SEED selects the seed range.')
for p in P:
    if p['id'] in BUILT:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 sim/run.py --check ' + p['id'] + ' --tier quick',
                                thorough_cmd='python3 sim/run.py --check ' + p['id'] + ' --tier thorough',
                                evidence_file='evidence/' + p['id'] + '.json', technique=DST + p['_technique'], level='exploration', level_note=NOTES + p['_note']))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
