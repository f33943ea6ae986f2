"""Writes MANIFEST.json from the registered plans."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, H)
from mon.plans import PLANS
ALL = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
TECH = 'runtime monitoring: online/offline oracles over executions of the real code under generated hostile workloads'
checks = []
for p in sorted(PLANS):
    d = PLANS[p]
    checks.append(dict(property=p, quick_cmd='python3 run.py %s --tier quick' % p, thorough_cmd='python3 run.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=d.get('technique') or TECH, level='exploration',
                       level_note=d.get('note') or 'Held on every execution observed; says nothing about inputs not generated. Trusts numpy/scipy and the reference oracle in mon/.'))
m = dict(version=1, setup_cmd='python3 -m mon.build plain asan', checks=checks,
         not_applicable=[dict(property=p, reason='check not built yet') for p in ALL if p not in PLANS],
         notes='No hooks in /repo are needed: models are the extension points of the library, so all monitors are attached through user defined models and public results.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
