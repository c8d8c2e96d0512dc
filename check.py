#!/usr/bin/env python3
"""Deterministic-simulation check of one property of kirillsaidov/vita.

  check.py C01 [--tier quick|thorough]     build from /repo's working tree, search, report
  check.py --replay FILE                   replay a failure file exactly (verbose history on stdout)
  check.py --setup                         build only
Exit status: 0 held on everything explored, 1 violation, 2 the machinery itself failed (no answer).
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from plan import PLAN, QUICK_RUNS, THOROUGH_SECONDS, COMPONENTS, ASSUMPTIONS

REPO_FLAGS = ['-std=gnu11', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-U_FORTIFY_SOURCE', '-w']
SIM_FLAGS = ['-std=gnu++17', '-O1', '-g0', '-w', '-fno-exceptions', '-U_FORTIFY_SOURCE']
# libc symbols that are pure functions of their arguments and memory (or compiler runtime): real code on both sides
PURE = re.compile(r'^(vt_\w+|__asan\w+|__ubsan\w+|__errno_location|__ctype_\w+|__isoc\d+_s\w+|__stack_chk_fail|asctime_r|gmtime(_r)?|localtime(_r)?|mktime|timegm|strftime|tzset|difftime'
                  r'|inet_\w+|hton\w|ntoh\w|mem\w+|str\w+|to(upper|lower)|is\w+|v?sn?printf|atoi|atol|atoll|atof|qsort|bsearch|abs|labs|llabs|log\w*|sin\w*|cos\w*|sqrt\w*|exp\w*|pow\w*|tan\w*'
                  r'|floor\w*|ceil\w*|round\w*|trunc\w*|fabs\w*|fmod\w*|l?lround\w*|environ|_GLOBAL_OFFSET_TABLE_|div|ldiv|swab|basename|dirname|__xpg_basename|rand_r|rand|srand|random|srandom|drand48|srand48)$')


def fail(msg):
    print('CHECK-ERROR: ' + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/src/**/*', recursive=True) + glob.glob(REPO + '/inc/**/*', recursive=True) + glob.glob(HERE + '/sim/*'))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, 'rb').read()); h.update(b'\0')
    h.update(' '.join(REPO_FLAGS + SIM_FLAGS).encode())
    return h.hexdigest()[:24]


def build():
    """Compiles /repo's current sources behind the seam; returns (binary, unmodelled symbols)."""
    key = tree_hash()
    root = os.path.join(HERE, 'build')
    try:
        os.makedirs(root, exist_ok=True)
    except OSError:
        root = tempfile.mkdtemp(prefix='vita-sim-')
    final = os.path.join(root, 'sim-' + key)
    if os.path.exists(final + '.ok'):
        return final, open(final + '.ok').read().split()
    tmp = tempfile.mkdtemp(prefix='b-', dir=root)
    try:
        srcs = sorted(f for f in glob.glob(REPO + '/src/**/*.c', recursive=True))
        if not srcs:
            fail('no sources under %s/src' % REPO)
        jobs = []
        for i, f in enumerate(srcs):
            o = os.path.join(tmp, 'r%d_%s.o' % (i, os.path.basename(f)[:-2]))
            jobs.append((o, True, ['gcc'] + REPO_FLAGS + ['-I' + REPO + '/inc', '-c', f, '-o', o]))
        for f in sorted(glob.glob(HERE + '/sim/*.cc')):
            o = os.path.join(tmp, 's_%s.o' % os.path.basename(f)[:-3])
            jobs.insert(0, (o, False, ['g++'] + SIM_FLAGS + ['-I' + REPO + '/inc', '-I' + HERE + '/sim', '-c', f, '-o', o]))
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for (o, isrepo, cmd), r in zip(jobs, ex.map(lambda j: run(j[2]), jobs)):
                if r.returncode:
                    fail('does not compile: %s\n%s' % (' '.join(cmd), r.stderr[:4000]))
        robj = [j[0] for j in jobs if j[1]]
        sobj = [j[0] for j in jobs if not j[1]]
        names = set(re.findall(r'^\S+ [TDB] sim_(\w+)$', run(['nm'] + [o for o in sobj if not os.path.basename(o).startswith('s_scen')]).stdout, re.M))
        names.discard('main')
        syms = os.path.join(tmp, 'syms')
        with open(syms, 'w') as fp:
            for n in sorted(names):
                fp.write('%s sim_%s\n' % (n, n))
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for r in ex.map(lambda o: run(['objcopy', '--redefine-syms', syms, o]), robj):
                if r.returncode:
                    fail('objcopy: ' + r.stderr)
        und = set(re.findall(r'^\s+U (\w+)', run(['nm'] + robj).stdout, re.M))
        und -= set(re.findall(r'^\S+ [TDBRVWC] (\w+)$', run(['nm'] + robj).stdout, re.M))
        unmodelled = sorted(u for u in und if not u.startswith('sim_') and not PURE.match(u))
        out = os.path.join(tmp, 'sim')
        r = run(['g++', '-fsanitize=address', '-no-pie', '-o', out] + sobj + robj + ['-lm'])
        if r.returncode:
            fail('does not link: ' + r.stderr[:4000])
        os.replace(out, final)
        with open(final + '.ok', 'w') as fp:
            fp.write(' '.join(unmodelled))
        os.chmod(final, 0o755)
        olds = sorted(glob.glob(root + '/sim-*.ok'), key=os.path.getmtime)[:-6]
        for o in olds:
            for x in (o, o[:-3]):
                if os.path.exists(x):
                    os.unlink(x)
        return final, unmodelled
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def sim_env():
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TZ': 'UTC0'}
    if os.environ.get('SIM_ONLY'):
        e['SIM_ONLY'] = os.environ['SIM_ONLY']
    return e


def sim_cmd(binary, *args):
    return ['setarch', '-R', binary] + [str(a) for a in args] if shutil.which('setarch') and setarch_ok() else [binary] + [str(a) for a in args]


_setarch = None


def setarch_ok():
    global _setarch
    if _setarch is None:
        _setarch = run(['setarch', '-R', 'true']).returncode == 0
    return _setarch


def known_findings(prop):
    """lines `finding: property=<id> class=<class> <text>`; `fixed:` lines suppress nothing."""
    res = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) class=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        b, un = build()
        print('built', b, 'unmodelled:', un)
        return 0
    if a and a[0] == '--replay':
        rec = json.load(open(a[1]))
        b, _ = build()
        r = run(sim_cmd(b, 'replay', rec['property'], os.path.abspath(a[1]), '-v'), env=sim_env())
        print(r.stdout)
        last = json.loads(r.stdout.strip().split('\n')[-1])
        same = last['status'] == 1 and last['class'] == rec['class'] and last['hash'] == rec['hash']
        print('replay: %s' % ('reproduced exactly' if same else 'NOT reproduced'))
        if same:
            print('VIOLATION property=%s replay=%s' % (rec['property'], a[1]))
        return 1 if same else 0
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if prop not in PLAN:
        fail('unknown property ' + prop)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    t0 = time.time()
    binary, unmodelled = build()
    t_build = time.time() - t0
    spec = PLAN[prop]
    runs = int(os.environ.get('SIM_RUNS', 0)) or (spec.get('quick', QUICK_RUNS) if tier == 'quick' else 10 ** 9)
    secs = spec.get('quick_cap', 200) if tier == 'quick' else float(os.environ.get('SIM_SECONDS', THOROUGH_SECONDS))
    nw = int(os.environ.get('SIM_WORKERS', 0)) or min(8, os.cpu_count() or 4)
    known = known_findings(prop)
    work = tempfile.mkdtemp(prefix='w-', dir=os.path.dirname(binary))
    os.chmod(work, 0o755)
    t1 = time.time()
    try:
        procs = []
        for w in range(nw):
            hf, tf = os.path.join(work, 'h%d' % w), os.path.join(work, 't%d' % w)
            procs.append((w, hf, tf, subprocess.Popen(sim_cmd(binary, 'search', prop, seed, w, runs, nw, secs, hf, tf, *sorted(known)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=sim_env())))
        res = []
        for w, hf, tf, p in procs:
            out, err = p.communicate()
            try:
                res.append((json.loads(out.strip().split('\n')[-1]), hf, tf))
            except (ValueError, IndexError):
                fail('worker %d gave no answer (status %s): %s %s' % (w, p.returncode, out[-500:], err[-500:]))
        wall = time.time() - t1
        for r, _, _ in res:
            if r['harness_error'] and not any(x['violation'] for x, _, _ in res):
                fail('simulator error at run %d: %s' % (r['index'], r['message']))
        tot = {k: sum(r[k] for r, _, _ in res) for k in ('runs', 'steps', 'ops', 'events', 'sim_s')}
        faults, probes, kn = {}, {}, {}
        for r, _, _ in res:
            for src, dst in ((r['faults'], faults), (r['probes'], probes), (r['known'], kn)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
        hashes = set()
        for _, hf, _ in res:
            data = open(hf, 'rb').read()
            hashes.update(data[i:i + 8] for i in range(0, len(data), 8))
        bad = sorted(((r['index'], r, tf) for r, _, tf in res if r['violation']), key=lambda x: x[0])
        violations = []
        if bad:
            rdir = os.path.join(HERE, 'replays')
            os.makedirs(rdir, exist_ok=True)
            mtape = os.path.join(work, 'min')
            for idx, r, tf in bad:      # the first failing run that reproduces exactly; the others are not reported
                rpath = os.path.join(rdir, '%s-seed%d-run%d.json' % (prop, seed, idx))
                s = run(sim_cmd(binary, 'shrink', prop, tf, mtape, 25 if tier == 'quick' else 90), env=sim_env())
                try:
                    sj = json.loads(s.stdout.strip().split('\n')[-1])
                except (ValueError, IndexError):
                    sj = {'reproduced': False, 'note': s.stdout[-300:] + s.stderr[-300:]}
                if sj.get('reproduced'):
                    break
            if not sj.get('reproduced'):
                fail('run %d failed (%s: %s) but does not replay identically: %s' % (idx, r['class'], r['message'], sj))
            rec = json.load(open(mtape))
            rec.update(seed=seed, run=idx, original_choices=sj['from'], minimised_choices=sj['to'])
            v = run(sim_cmd(binary, 'replay', prop, mtape, '-v'), env=sim_env())
            vj = json.loads(v.stdout.strip().split('\n')[-1])
            if vj['status'] != 1 or vj['class'] != rec['class'] or vj['hash'] != rec['hash']:
                fail('minimised failure does not replay identically')
            rec['trace'] = v.stdout.strip().split('\n')[:-1][-400:]
            with open(rpath, 'w') as fp:
                tape = rec.pop('tape')
                fp.write(json.dumps(rec, indent=1)[:-2] + ',\n "tape": ' + json.dumps(tape) + '\n}\n')
            violations.append({'class': rec['class'], 'message': rec['message'], 'seed': seed, 'run': idx, 'replay': rpath})
            print('run %d of seed %d: [%s] %s' % (idx, seed, rec['class'], rec['message']))
            print('choices: %d, minimised to %d; replay with: check.py --replay %s' % (sj['from'], sj['to'], rpath))
        for c in sorted(known):
            print('KNOWN-FINDING: property=%s [%s] %s (seen in %d runs)' % (prop, c, known[c], kn.get(c, 0)))
        # the exploration must have reached what the property is about
        missing = [p for p in spec.get('must_reach', []) if not probes.get(p)]
        must_faults = [f for f in spec.get('faults', []) if not faults.get(f)]
        samples = []
        for i in range(3):
            v = run(sim_cmd(binary, 'seed', prop, seed, i, '-v'), env=sim_env())
            lines = v.stdout.strip().split('\n')[:-1]
            samples.append({'seed': seed, 'run': i, 'history': lines[:40] + (['... %d more events' % (len(lines) - 40)] if len(lines) > 40 else [])})
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': tot['runs'],
                'distinct_nontrivial': len(hashes),
                'rule': 'a run is one seeded execution of a scenario; two runs count as distinct if their recorded histories (system calls with results, scheduling decisions as seen in the call order, injected faults, outcomes) hash differently; every counted run performed at least one operation of the property',
                'samples': samples,
                'runs_per_hour': int(tot['runs'] / max(wall, 1e-3) * 3600),
                'seeds': 'every run has its own seed, derived from (seed, property, run number), so seeds per hour is runs_per_hour',
                'simulated_seconds': round(tot['sim_s'], 3),
                'operations': tot['ops'], 'system_calls': tot['steps'], 'events': tot['events'],
                'faults_injected': faults, 'states_reached': probes,
                'distinct_measure': 'distinct 64-bit hashes of the complete event history of a run',
                'not_reached': missing, 'fault_kinds_not_injected': must_faults,
                'components': COMPONENTS, 'unmodelled_symbols': unmodelled,
                'replay': 'one run = one choice tape; check.py --replay FILE re-executes it and compares class and history hash',
                'build_seconds': round(t_build, 2), 'workers': nw,
            },
            'assumptions': ASSUMPTIONS,
            'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
        }
        if violations:
            ev['coverage']['violation'] = violations
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
        print('%s %s: %d runs (%d distinct histories), %d operations, %d system calls, %.1f simulated s, %d faults of %d kinds, %.1f s search + %.1f s build'
              % (prop, tier, tot['runs'], len(hashes), tot['ops'], tot['steps'], tot['sim_s'], sum(faults.values()), len(faults), wall, t_build))
        if missing or must_faults:
            print('note: not reached %s; not injected %s' % (missing, must_faults))
        if violations:
            print('VIOLATION property=%s replay=%s' % (prop, violations[0]['replay']), flush=True)
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
