#!/usr/bin/env python3
"""Writes /verif/reach.json from the evidence of full quick runs on the unchanged tree: the situations (probes) and fault
kinds each check must reach again; a later run that misses one says so in its evidence."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(H + '/evidence/C*.json')):
    d = json.load(open(f)); c = d['coverage']
    need = max(20, c['evaluations'] // 2000)
    out[d['property']] = {'must_reach': sorted(k for k, v in c['states_reached'].items() if v >= need), 'faults': sorted(k for k, v in c['faults_injected'].items() if v >= need)}
json.dump(out, open(H + '/reach.json', 'w'), indent=1, sort_keys=True); open(H + '/reach.json', 'a').write('\n')
