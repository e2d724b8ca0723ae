#!/usr/bin/env python3
"""Decides one property: runs its workload on the real library under the monitors and reports what they saw.
usage: check.py <ID> [--seconds S]      exit 0 held, 1 violated, 2 the check itself failed"""
import glob, json, os, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
ID = sys.argv[1]
SEED = int(os.environ.get('VERIF_SEED') or '1')
TIER = os.environ.get('VERIF_TIER') or 'quick'
if '--thorough' in sys.argv: TIER = 'thorough'
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SECS = {'quick': 30.0, 'thorough': 600.0}[TIER]
if '--seconds' in sys.argv: SECS = float(sys.argv[sys.argv.index('--seconds') + 1])
JOBS = max(2, min(8, os.cpu_count() or 2))
FIELDS = '''steps calls queued mcast resends delivered dup acks ctl subs closes released announces checks reads timeouts faults other
refused hostile kf1 kf2 reorders suspended spin_probe final_ok fullchan misuse sleeps stalls'''.split()
# What a case must contain to say something about the property: each group needs one non-zero counter.
NEEDS = {
    'R01': [['delivered'], ['reorders', 'dup', 'resends']], 'R02': [['delivered']], 'R03': [['resends']], 'R04': [['released'], ['acks', 'resends', 'closes']],
    'R05': [['released', 'checks']], 'R06': [['acks']], 'R07': [['checks']], 'R08': [['checks']], 'R09': [['checks']], 'R10': [['checks']],
    'R11': [['ctl']], 'R12': [['reads']], 'R13': [['hostile', 'checks']], 'R14': [['queued']], 'R15': [['announces']], 'R16': [['subs', 'closes']],
    'R17': [['delivered'], ['hostile', 'closes', 'fullchan']], 'R18': [['timeouts']], 'R19': [['calls']], 'R20': [['subs'], ['closes']], 'R21': [['delivered']],
    'R22': [['faults']], 'R23': [['subs']], 'R24': [['calls']], 'R25': [['calls', 'checks']], 'R26': [['mcast', 'delivered']], 'R27': [['checks', 'delivered']],
    'R28': [['misuse', 'reads']], 'R29': [['mcast', 'delivered', 'subs']]}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:history_size=4')


def die(msg):
    print('CHECK ERROR: ' + msg)
    sys.exit(2)


def build(kind):
    for attempt in (1, 2):
        p = subprocess.run([V + '/tools/build.sh', kind], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode == 0: return p.stdout.strip().splitlines()[-1]
    print(p.stderr[-3000:])
    die('the build failed')


def one(driver, n, trace=None, timeout=240):
    cmd = [driver, 'one', ID, str(SEED), TIER, str(n)] + ([trace] if trace else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        return p.returncode, p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -1, 'the case did not come to an end within %d s' % timeout


def read_status(path):
    try:
        b = open(path + '.status', 'rb').read(16)
        return int.from_bytes(b[:8], 'little')
    except OSError:
        return None


def campaign(kind, driver, work, secs):
    """Runs the workers; returns (paths of result files, list of (case, description) that failed)."""
    procs, fails = {}, []
    for i in range(JOBS):
        out = '%s/%s.%d' % (work, kind, i)
        log = open(out + '.log', 'wb')
        procs[i] = (subprocess.Popen([driver, 'run', ID, str(SEED), TIER, str(i), str(JOBS), str(secs), '100000000', out], stdout=log, stderr=log, env=ENV), out)
    t_end = time.time() + secs + 120
    live = dict(procs)
    grace = None
    while live:
        for i, (p, out) in list(live.items()):
            rc = p.poll()
            if rc is None: continue
            del live[i]
            if rc in (0, 5): continue       # 5: the bulk case was slow, but moved on
            n = read_status(out)
            what = 'worker ended with code %d' % rc
            try:
                for l in open(out, errors='replace'):
                    f = l.rstrip('\n').split('\t')
                    if f[0] == 'VIOL': n, what = int(f[1]), f[7]
                    elif f[0] == 'FATAL': n, what = int(f[1]), '%s (%s)' % (f[3], f[2])
            except (OSError, ValueError, IndexError): pass
            if rc not in (3, 4):
                log = open(out + '.log', errors='replace').read()
                for l in log.splitlines():
                    if 'ERROR: ' in l or 'runtime error' in l or 'WARNING: ThreadSanitizer' in l or 'WATCHDOG' in l: what = l.strip(); break
            if n is not None: fails.append((n, what, rc))
            if grace is None: grace = time.time() + 2
        if grace and time.time() > grace: break
        if time.time() > t_end:
            for i, (p, out) in live.items():
                n = read_status(out)
                if n is not None: fails.append((n, 'the case does not come to an end', -1))
            break
        time.sleep(0.05)
    for i, (p, out) in live.items():
        p.kill()
        p.wait()
    return [o for _, o in procs.values()], sorted(fails)


def main():
    t0 = time.time()
    if ID not in NEEDS: die('no such property')
    kinds = ['asan']
    if ID == 'R21': kinds.append('tsan')
    if ID in ('R13', 'R05') and TIER == 'thorough': kinds.append('asan0')
    drivers = {k: build(k) for k in kinds}
    t_run = time.time()
    work = '%s/build/run-%s-%d' % (V, ID, os.getpid())
    os.makedirs(work)
    os.makedirs(V + '/replays', exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    findings = json.load(open(V + '/known_findings.json'))
    known = {f['id']: f for f in findings['findings']}
    tot = dict.fromkeys(FIELDS, 0)
    shapes, hashes, by_kind, samples = set(), set(), {}, []
    evals = ops = sys_calls = lost = 0
    seen_known, confirmed, dismissed, others = {}, [], [], {}
    try:
        for k in kinds:
            secs = SECS / len(kinds)
            outs, fails = campaign(k, drivers[k], work, secs)
            for o in outs:
                if not os.path.exists(o): continue
                for l in open(o, errors='replace'):
                    f = l.rstrip('\n').split('\t')
                    if f[0] == 'OTHER' and len(f) > 2:
                        key = f[2][:60]
                        others[key] = others.get(key, 0) + 1
                    if f[0] == 'END' and len(f) > 3:
                        sys_calls += int(f[2][4:]); lost += int(f[3][5:])
                    if f[0] == 'S' and len(f) == 2 and l.endswith('\n') and all('checks' in g for g in NEEDS[ID]): shapes.add(f[1])
                    if f[0] == 'H' and len(f) == 2 and l.endswith('\n'): hashes.add(f[1])
                    if f[0] == 'AGG' and len(f) == 5 and l.endswith('\n'):
                        evals += int(f[2]); ops += int(f[3]); by_kind[f[1]] = by_kind.get(f[1], 0) + int(f[2])
                        for x, v in zip(FIELDS, f[4].split(',')): tot[x] += int(v)
                    if f[0] not in ('OK', 'VIOL') or len(f) < 9: continue
                    if f[7] == 'skipped': continue
                    nums = f[8].split(',')
                    if not l.endswith('\n') or len(nums) != len(FIELDS): continue      # the worker was stopped while it wrote this
                    vals = dict(zip(FIELDS, map(int, nums)))
                    evals += 1; ops += int(f[5])
                    for x in FIELDS: tot[x] += vals[x]
                    by_kind[f[2]] = by_kind.get(f[2], 0) + 1
                    hashes.add(f[4])
                    if all(any(vals[x] for x in g) for g in NEEDS[ID]): shapes.add(f[3])
                    if f[7] in known: seen_known[f[7]] = seen_known.get(f[7], 0) + 1
                    if len(samples) < 4 and vals['calls'] + vals['checks'] > 0 and f[2] not in [s['kind'] for s in samples]:
                        samples.append({'case': int(f[1]), 'kind': f[2], 'build': k, 'history_hash': f[4], 'calls_or_operations': int(f[5]),
                                        'events': {x: vals[x] for x in FIELDS if vals[x]}})
            for n, what, rc in fails[:4]:
                trace = '%s/replays/%s-%s-s%d-n%d.txt' % (V, ID, k, SEED, n)
                code, err = one(drivers[k], n, trace + '.trace')
                tr = ''
                if os.path.exists(trace + '.trace'):
                    tr = open(trace + '.trace', errors='replace').read()[-200000:]
                    os.remove(trace + '.trace')
                if code == 5: code = 0
                if code == 0 and k == 'tsan':       # schedules of real threads differ: try again
                    for _ in range(4):
                        code, err = one(drivers[k], n)
                        if code: break
                # What a detector reported is evidence even when the schedule cannot be had again.
                if code == 0 and not (k == 'tsan' and rc == 66):
                    dismissed.append((n, what))
                    continue
                with open(trace, 'w') as f:
                    f.write('property %s\ncase %d of kind list `vd list %s`, seed %d, tier %s, build %s\nviolation: %s\n' % (ID, n, ID, SEED, TIER, k, what))
                    f.write('again: $(/verif/tools/build.sh %s) one %s %d %s %d trace.txt\n\n--- monitors and sanitizers\n%s\n--- trace\n%s\n' % (k, ID, SEED, TIER, n, err[-20000:], tr))
                confirmed.append((n, what, trace))
                break
            if confirmed: break
        for s in samples[:2]:
            tp = work + '/sample.trace'
            one(drivers[s['build']], s['case'], tp, 60)
            if os.path.exists(tp):
                ls = open(tp, errors='replace').read().splitlines()
                mid = max(0, len(ls) // 2 - 6)
                s['trace_excerpt'] = [x[:160] for x in ls[mid:mid + 12]]
                os.remove(tp)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rule = ('cases are numbered and generated from (seed, property, number) by the families listed under case_families; a case counts as non-trivial when it has '
            + ' and '.join('/'.join(g) for g in NEEDS[ID]) + ' > 0, and as distinct by its shape: the hash of the sequence of call names, socket results and '
            'callback kinds (for module workloads: of operations and results), without payload contents or times; module workloads keep at most 150000 distinct shapes and histories per worker and family')
    ev = {'property': ID, 'tier': TIER, 'seed': SEED, 'level': 'fault_enumeration' if ID == 'R22' else 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(shapes), 'rule': rule, 'samples': samples, 'distinct_histories': len(hashes),
                       'case_families': by_kind, 'api_calls_or_operations': ops, 'simulated_system_calls': sys_calls, 'multicast_datagrams_lost': lost,
                       'events_observed_by_monitors': {k: v for k, v in tot.items() if v}, 'builds': kinds,
                       'known_findings_seen': seen_known, 'other_properties_violated': others,
                       'failures_not_reproduced': [{'case': n, 'what': w} for n, w in dismissed]},
          'assumptions': ['the simulated sockets, clock and allocator behave as Linux does for the calls the library makes',
                          'executions explored are those the seeded generator produced in this run; others are not covered'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    with open('%s/evidence/%s.json' % (V, ID), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d cases, %d distinct non-trivial, %d calls, %.0f s (build %.0f s)' % (ID, evals, len(shapes), ops, time.time() - t0, t_run - t0))
    for k, f in sorted(known.items()):
        if f['property'] == ID: print('KNOWN-FINDING: property=%s %s: %s (met in %d cases of this run)' % (ID, k, f['what'], seen_known.get(k, 0)))
    for n, what in dismissed: print('note: case %d failed once and not again: %s' % (n, what))
    if confirmed:
        for n, what, trace in confirmed:
            print('case %d: %s' % (n, what))
            print('VIOLATION property=%s replay=%s' % (ID, trace))
        return 1
    if evals == 0 or not shapes: die('nothing was observed')
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit: raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
