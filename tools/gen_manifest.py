#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from plan import PLAN
try:
    from plan import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='deterministic simulation with fault injection: seeded schedule and fault search, reference-model oracle',
                           level='exploration',
                           level_note=PLAN[i].get('note', 'Holds on every simulated run explored; oracle: ' + PLAN[i]['oracle'] + '. Trusts the simulator runtime (oneTBB scheduler stub, simulated pthread/file/clock seams) and the generators.')))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'No check yet.')))
m = dict(version=1, setup_cmd='python3 sim/build.py asan race py',
         hooks=dict(guard='MLIO_SIM', enable='sim/build.py compiles /repo/src/mlio with -DMLIO_SIM; the shipped build never defines it',
                    source_commits=['0566d37']),
         checks=checks, not_applicable=na,
         notes='One seed is one run. python3 check.py ID --tier T explores, gates, minimises and writes evidence/ID.json; python3 replay.py FILE [--trace] replays a violation.')
m['hooks']['source_commits'] = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=(MLIO_SIM)'], stdout=subprocess.PIPE).stdout.decode().split()
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
