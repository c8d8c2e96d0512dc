#!/usr/bin/env python3
"""Applies each behaviour-preserving patch of /verif/refactor to a scratch copy of /repo,
then runs every check (or those given) on it: all must exit 0.
usage: quiet.py [--runs N] [--props C01,C02] [PATCH...]"""
import argparse, glob, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('--runs', default='12000'); ap.add_argument('--props'); ap.add_argument('patch', nargs='*')
a = ap.parse_args()
props = a.props.split(',') if a.props else [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
claimed = [c['property'] for c in json.load(open(H + '/MANIFEST.json'))['checks']]
props = [p for p in props if p in claimed]
bad = 0
for d in sorted(glob.glob(H + '/refactor/*.diff')):
    n = os.path.basename(d)[:-5]
    if a.patch and n not in a.patch: continue
    wt = '/tmp/quiet.%d' % os.getpid(); shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
    try:
        subprocess.check_call(['git', '-C', wt, 'apply', d])
        for p in props:
            r = subprocess.run([sys.executable, H + '/check.py', p], env=dict(os.environ, VERIF_REPO=wt, SIM_RUNS=a.runs), capture_output=True, text=True)
            if r.returncode:
                bad += 1
                print(n, p, 'exit', r.returncode, (r.stdout + r.stderr)[-600:], flush=True)
        print(n, 'done', flush=True)
    finally: shutil.rmtree(wt, ignore_errors=True)
sys.exit(1 if bad else 0)
