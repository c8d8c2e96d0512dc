# Per-property run counts and reach targets (reach.json, written by tools/gen_reach.py).
import json, os
QUICK_RUNS = 40000
THOROUGH_SECONDS = 420
PLAN = {'C%02d' % i: {} for i in range(1, 31)}
PLAN['C26'] = {'quick': 16000}
try:
    for _k, _v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reach.json'))).items():
        PLAN[_k].update(_v)
except FileNotFoundError:
    pass
COMPONENTS = {
    'real': ['every .c file under /repo/src, compiled from the working tree', 'glibc stdio buffering and formatting, string, time-zone and number functions'],
    'simulated': ['file system and descriptors', 'sockets and network', 'clock', 'heap', 'environment, process exit and signals', 'task scheduler'],
    'not_modelled': ['kernel', 'page cache durability beyond process kill', 'Windows and macOS branches'],
}
ASSUMPTIONS = [
    'evidence for the runs explored, not a proof: another seed may reach a history this one did not',
    'the simulated system calls behave as Linux documents them; the kernel, power loss and the Windows and macOS branches are not modelled',
    'tasks are switched at system calls (in some scenarios also at formatting calls), not between arbitrary instructions',
    'callers respect the documented and asserted preconditions listed in DESIGN.md section 4',
    'AddressSanitizer, the compiler and glibc are trusted',
]
