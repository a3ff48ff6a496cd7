#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
TECH = 'runtime monitoring: generated workloads on the real code, online monitors against a shadow model'
MPI = 'runtime monitoring: the real code under mpirun with several ranks and injected delays, monitors against the serial/NumPy answer'
NA = {'P29': 'The ESMF library and its Python module are not installed and cannot be installed offline, so no regridding code can run and there is no execution to monitor.'}
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(root, 'props', i + '.py')
    if i in NA or not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'The check for this property is not built yet.')})
        continue
    src = open(f).read()
    checks.append({'property': i, 'quick_cmd': 'bin/check %s --tier quick' % i,
                   'thorough_cmd': 'bin/check %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': MPI if "'mpi'" in src or 'mpi=' in src else TECH, 'level': 'exploration',
                   'level_note': 'Holds on the executions explored; workloads are random (seeded) and sampled, see the rule and counts in the evidence file.'})
m = {'version': 1, 'setup_cmd': 'bin/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: monitors wrap public functions from the harness. Known findings: known_findings.json.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
