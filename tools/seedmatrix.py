#!/usr/bin/env python3
"""Runs the checks against the planted bugs, each in a scratch copy of /repo, and prints which are caught.
   seedmatrix.py [--all] [BUG...]      --all: every check against every bug, not only the bug's own property"""
import json, os, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
every = '--all' in sys.argv
ids = [c['property'] for c in json.load(open(H + '/MANIFEST.json'))['checks']]
res = {}
for b in sorted(os.listdir(H + '/seeded')):
    if args and b not in args: continue
    d = H + '/seeded/' + b
    prop = json.load(open(d + '/meta.json'))['property']
    s = '/tmp/seedm_' + b
    shutil.rmtree(s, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', s], check=True)
    a = subprocess.run(['git', '-C', s, 'apply', d + '/patch.diff'])
    if a.returncode: print('NOAPPLY', b); continue
    row = {}
    for p in (ids if every else [prop]):
        t = time.time()
        r = subprocess.run([sys.executable, H + '/check.py', p], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=s, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + p)]
        row[p] = r.returncode
        if not every or r.returncode:
            why = [l for l in r.stdout.splitlines() if 'violat' in l.lower() or 'oracle' in l.lower()][:3]
            print(('CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else 'ERROR '), b, p, f'{time.time()-t:.0f}s',
                  (r.stdout + r.stderr)[-1500:] if r.returncode not in (0, 1) else '', ' / '.join(why)[:300], flush=True)
    res[b] = row
    shutil.rmtree(s, ignore_errors=True)
rf = H + '/tools/results.json'
old = json.load(open(rf)) if os.path.exists(rf) else {}
old.setdefault('all' if every else 'own', {}).update(res)
json.dump(old, open(rf, 'w'), indent=1, sort_keys=True)
