#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist in bta/checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'bta', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./run.sh %s' % i, thorough_cmd='VERIF_TIER=thorough ./run.sh %s' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH.get(i, 'runtime monitoring: executions of the real code against an independent oracle'),
                           level='exploration', level_note=NOTE.get(i, 'Held on the generated executions listed in the evidence file; says nothing about inputs the workload does not reach.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all monitors attach from outside. Fix commits and known findings: known_findings.json.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
