#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = 'the real library objects (ASan+UBSan) run on a simulated OS under a seeded scheduler; '
NOTE = {
 'R07': ('module-level differential monitor', 'random and adversarial sequences on the real interval code against an executable set model'),
 'R08': ('module-level differential monitor + ASan', 'random operation sequences on the real buffer, all small capacities, against a byte FIFO model with guarded storage'),
 'R09': ('module-level differential monitor + ASan', 'random operation sequences on the real list template against a sequence model'),
 'R10': ('module-level differential monitor + end-to-end monitors', 'random histories on pub.c against a model of who owes what, plus sessions'),
 'R21': ('end-to-end monitors + ThreadSanitizer over contexts in threads', 'multi-publisher sessions under the monitors, and independent contexts in four threads compared with the same contexts run alone, with and without TSan'),
 'R22': ('system-call fault enumeration + monitors + ASan', 'for small sessions every single system call is failed once with every listed error (then pairs and random), and all monitors keep watching'),
 'R25': ('differential execution at different log levels + ASan', 'each session is run silent and at a log level and every observable event must be the same'),
 'R27': ('module-level differential monitor + end-to-end monitors', 'random arrival sequences on sub.c against a reordering-buffer model, plus sessions'),
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    t, n = NOTE.get(i, ('online trace monitors over simulated-OS executions + ASan/UBSan', SIM + 'monitors at the API and socket boundary compare every event with executable models'))
    checks.append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + i, 'technique': t,
                   'level': 'fault_enumeration' if i == 'R22' else 'exploration',
                   'level_note': n + '. Assurance covers the executions explored in the run (counts in the evidence file); it trusts the simulated sockets, clock and allocator, the monitors and the sanitizers.'})
json.dump({'version': 1, 'setup_cmd': 'tools/build.sh asan && tools/build.sh tsan', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: system calls of the library objects are redirected with objcopy when the checks build them. Seeds: VERIF_SEED. Replays: replays/*.txt name the command that repeats a case.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
