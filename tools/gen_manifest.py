#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C31': 'functions of their arguments alone: no schedule, clock, I/O, peer, allocation or fault for a simulator to decide, so running them in simulation would only be input generation'}
props = [p for p in (json.loads(l) for l in open(H + '/properties.jsonl')) if p['id'] not in NA]
NOTE = ('Seeded search over simulated runs of the repository\'s own sources; holds on every run explored, no claim beyond them. '
        'Trusts the simulator\'s model of the system calls (DESIGN.md), AddressSanitizer and the compiler.')
T = {'C20': 'network', 'C21': 'network', 'C22': 'network', 'C23': 'network', 'C24': 'network'}
def tech(i):
    n = int(i[1:])
    what = ('file-system, I/O-fault and kill' if n <= 6 or n in (10, 11, 12, 13) else 'log and I/O-fault' if n in (7, 8, 25) else 'clock' if n in (9, 26, 29)
            else 'allocation-failure' if n == 14 else 'heap' if n in (15, 16, 17, 18, 19, 27) else 'file-system and heap' if n == 30 else 'environment and failing-call' if n == 28 else 'network, schedule and fault')
    return 'deterministic simulation: seeded %s search checked against a reference model' % what
m = {
    'version': 1, 'setup_cmd': 'python3 /verif/check.py --setup',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the seam is the libc symbol table, redirected with objcopy when the checks compile /repo/src', 'source_commits': []},
    'checks': [{'property': p['id'], 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': tech(p['id']), 'level': 'exploration', 'level_note': NOTE} for p in props],
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'One seed is one run; a failure is a minimised choice tape under /verif/replays, re-executed by check.py --replay FILE.',
}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
