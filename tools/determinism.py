#!/usr/bin/env python3
"""Runs every property (or those named) for several seeds, twice each and at 1, 3 and 8 workers, and compares the
   recorded history hashes run by run.   determinism.py [--runs N] [--seeds K] [Cxx ...]"""
import json, os, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = int(a[i + 1]); del a[i:i + 2]; return v
    return d
runs, seeds = opt('--runs', 1500), opt('--seeds', 3)
props = a or sorted(check.PLAN)
b, _ = check.build()
bad = 0
def hashes(p, seed, nw, d):
    ps = []
    for w in range(nw):
        h, t = os.path.join(d, 'h%d' % w), os.path.join(d, 't%d' % w)
        ps.append((h, subprocess.Popen(check.sim_cmd(b, 'search', p, seed, w, runs, nw, 600, h, t), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=check.sim_env())))
    res = []
    for h, q in ps:
        q.communicate(); data = open(h, 'rb').read(); res += [data[i:i + 8] for i in range(0, len(data), 8)]
    return sorted(res)
for p in props:
    tot = 0
    for seed in range(1, seeds + 1):
        with tempfile.TemporaryDirectory() as d:
            r = [hashes(p, seed, nw, d) for nw in (1, 3, 8, 8)]
        tot += len(r[0])
        if any(x != r[0] for x in r) or len(r[0]) == 0:
            bad += 1; print('DIFFERS', p, 'seed', seed, [len(x) for x in r], 'common', len(set(r[0]) & set(r[1]) & set(r[2]) & set(r[3])))
    print(p, 'deterministic over', tot, 'runs of', seeds, 'seeds, four executions each', flush=True)
sys.exit(1 if bad else 0)
