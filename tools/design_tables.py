#!/usr/bin/env python3
"""Composes DESIGN.md from tools/design_head.md and the recorded results (evidence of the last quick runs, tools/results.json)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = json.load(open(H + '/tools/results.json')) if os.path.exists(H + '/tools/results.json') else {}
out = [open(H + '/tools/design_head.md').read().rstrip(), '']
props = {}
for l in open(H + '/properties.jsonl'):
    if l.strip(): d = json.loads(l); props[d['id']] = d
out += ['', '## 8. Evidence of one quick run per property (seed 1, unchanged tree)', '',
        '| id | title | runs | distinct | operations | system calls | faults (kinds) | simulated s | search s |', '|---|---|---|---|---|---|---|---|---|']
for i in sorted(props):
    f = H + '/evidence/%s.json' % i
    if not os.path.exists(f): continue
    e = json.load(open(f)); c = e['coverage']
    out.append('| %s | %s | %d | %d | %d | %d | %d (%d) | %.1f | %.0f |' % (i, props[i]['title'], c['evaluations'], c['distinct_nontrivial'], c['operations'], c['system_calls'], sum(c['faults_injected'].values()), len(c['faults_injected']), c['simulated_seconds'], e['wall_s']))
out += ['', '## 9. Planted bugs and the checks that catch them', '',
        'Each in a scratch copy with the quick check of its own property; "also" lists other properties\' checks that report it (run at a reduced number of runs).', '',
        '| bug | property | own check | also | needs |', '|---|---|---|---|---|']
own, every = R.get('own', {}), R.get('all', {})
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); p = m['property']
    o = {1: 'caught', 0: 'missed'}.get(own.get(b, {}).get(p), '-')
    also = ' '.join(x for x, r in sorted(every.get(b, {}).items()) if r == 1 and x != p)
    out.append('| %s | %s | %s | %s | %s |' % (b, p, o, also or '-', ' '.join(str(m['needs']).split()).replace('|', '/')))
if R.get('notes'): out += ['', '## 10. Results of the other experiments', ''] + ['* ' + n for n in R['notes']]
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out).split('\n')), 'lines')
