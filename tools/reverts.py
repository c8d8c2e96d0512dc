#!/usr/bin/env python3
"""For every fixed line of known_findings.txt: reverts that commit in a scratch clone of /repo and runs
the property's check on it, which must report.  usage: reverts.py [--runs N] [COMMIT...]"""
import argparse, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('--runs', default='40000'); ap.add_argument('commit', nargs='*'); a = ap.parse_args()
miss = 0
for l in open(H + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if not m or (a.commit and m.group(2) not in a.commit): continue
    prop, c, what = m.groups()
    wt = '/tmp/revert.%d' % os.getpid(); shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
    try:
        r = subprocess.run(['git', '-C', wt, 'revert', '-n', c], capture_output=True, text=True)
        how = 'revert'
        if r.returncode:  # later fixes touch the same lines: take the tree before this commit instead
            subprocess.check_call(['git', '-C', wt, 'reset', '-q', '--hard', 'HEAD']); subprocess.check_call(['git', '-C', wt, 'checkout', '-q', c + '~1']); how = 'parent'
        r = subprocess.run([sys.executable, H + '/check.py', prop], env=dict(os.environ, VERIF_REPO=wt, SIM_RUNS=a.runs), capture_output=True, text=True)
        cls = re.search(r'\[([a-z0-9-]+)\]', r.stdout); miss += r.returncode != 1
        print(prop, c, how, 'exit %d' % r.returncode, cls.group(1) if cls else '', '|', what, flush=True)
    finally: shutil.rmtree(wt, ignore_errors=True)
sys.exit(1 if miss else 0)
