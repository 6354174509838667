#!/usr/bin/env python3
"""Check one property by seeded simulation.

    check.py C08                  the check (VERIF_SEED, VERIF_TIER)
    check.py C08 --runs 100000    other number of runs
    check.py C08 --replay FILE    re-execute one recorded failure

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Else: error.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

REAL = ['sortedcontainers/sortedlist.py', 'sortedcontainers/sorteddict.py',
        'sortedcontainers/sortedset.py',
        "CPython's list, dict, set, bisect and pickle as the library uses them"]
STUB = ['keys, values and key functions (instrumented, scheduler-controlled)',
        'input iterables and mappings (can fail at every item)',
        'hash values (assigned by the simulator)',
        'snapshot disk (in-memory log with torn writes)',
        'thread scheduler (one thread released at a time)']
FIRED = {'fired_other': 'work on other containers while a callback runs',
         'elsewhere': 'operations executed there',
         'parallel': 'phases of threads on different containers',
         'fired_raise': 'exception from a comparison, key call or input item',
         'fired_read': 'read let in while a callback runs',
         'fired_intr': 'interrupt or out-of-memory error delivered before some bytecode',
         'poison': 'unorderable value in an argument',
         'torn_writes': 'crash in the middle of a snapshot write',
         'finalizers': 'read by code that runs while a value is freed',
         'restarts': 'crash and restart from the last complete snapshot',
         'second_process': 'restart in a second process with another hash seed',
         'rehashed': 're-execution under another hash assignment',
         'preemptions': 'thread switched inside or between operations',
         'it_stale': 'iterator advanced after a modification'}
ASSUME = [
    'Values that compare are compared consistently (a total order; equality agrees with it).',
    "Hashing and equality called by Python's own dict and set do not fail.",
    'CPython of this sandbox (3.12); its own list, dict, set, bisect and pickle are trusted.',
    'A sample of runs, not an enumeration: a clean batch is evidence, not proof.',
]


def env():
    e = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    e.pop('PYTHONPATH', None)
    return e


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def replay(prop, path):
    p = subprocess.run([sys.executable, '-m', 'sim.replay', os.path.abspath(path)],
                       cwd=HERE, env=env(), capture_output=True, text=True, timeout=600)
    return p.returncode, p.stdout + p.stderr


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--digest', action='store_true', help='print the digest of all runs')
    args = ap.parse_args()
    prop = args.prop
    if args.replay:
        code, out = replay(prop, args.replay)
        print(out, end='')
        if code == 1:
            print('VIOLATION property=%s replay=%s' % (prop, args.replay))
        sys.exit(code)
    from sim.profiles import P, THOROUGH
    if prop not in P:
        fail('unknown property ' + prop)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    vseed = os.environ.get('VERIF_SEED', '1')
    runs = args.runs or P[prop]['runs'] * (THOROUGH if tier == 'thorough' else 1)
    cap = args.cap or (240 if tier == 'quick' else 3600)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='sim-')
    try:
        results = batch(prop, vseed, runs, cap, args.workers, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    report(prop, tier, vseed, runs, results, time.time() - t0, args)


def batch(prop, vseed, runs, cap, workers, tmp):
    procs = []
    for k in range(workers):
        out = os.path.join(tmp, '%d.json' % k)
        err = open(os.path.join(tmp, '%d.err' % k), 'w')
        procs.append((subprocess.Popen(
            [sys.executable, '-m', 'sim.worker', prop, vseed, str(k), str(workers),
             str(runs), str(cap), out], cwd=HERE, env=env(), stdin=subprocess.DEVNULL,
            stdout=err, stderr=err), out))
        err.close()
    results, pending = [], list(enumerate(procs))
    end = time.time() + cap + 200
    stop = None
    try:
        while pending:
            time.sleep(.05)
            if time.time() > end:
                fail('workers did not finish')
            for item in list(pending):
                k, (p, out) = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                if p.returncode != 0 or not os.path.exists(out):
                    if stop is not None:
                        continue
                    with open(os.path.join(tmp, '%d.err' % k)) as f:
                        fail('worker %d ended with %s\n%s' % (k, p.returncode, f.read()[-3000:]))
                with open(out) as f:
                    res = json.load(f)
                results.append(res)
                if res['violation'] is not None and stop is None:
                    stop = k
                    for _, (q, _o) in pending:
                        q.terminate()
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
    return results


def report(prop, tier, vseed, runs, results, wall, args):
    from sim.profiles import P
    prof = P[prop]
    stats, crcs, trails, shapes, samples = {}, [], set(), set(), []
    done = steps = 0
    stopped = False
    for r in results:
        for k, n in r['stats'].items():
            stats[k] = stats.get(k, 0) + n
        crcs += r['crcs']
        trails |= set(r['trails'])
        shapes |= set(r['shapes'])
        samples += r['samples']
        done += r['runs']
        steps += r['steps']
        stopped = stopped or r['stopped']
    viol = [r['violation'] for r in results if r['violation'] is not None]
    errors = [r['error'] for r in results if r['error']]
    distinct = len(set(crcs))
    samples.sort(key=lambda s: len(json.dumps(s)))
    coverage = {
        'evaluations': done,
        'distinct_nontrivial': distinct,
        'rule': 'one evaluation is one simulated run: a seeded random configuration '
                '(containers, values, key functions, load factor, hash assignment, clients) '
                'and history with the faults of this property, executed step by step against '
                'the real code and a reference model; runs are distinct when the CRC-32 of '
                'their event logs (every operation, its outcome and fault) differs',
        'samples': samples[:2],
        'runs_planned': runs,
        'stopped_by_time_cap': stopped,
        'runs_per_hour': int(done / wall * 3600) if wall else 0,
        'seeds': '%s:%s:0 .. %d' % (vseed, prop, runs - 1),
        'simulated_steps': steps,
        'simulated_time': 'the code has no clock; time is counted in steps (above) and '
                          'callbacks (below)',
        'callbacks_controlled': stats.get('ticks', 0),
        'operations_judged': stats.get('op', 0),
        'operations_rejected_as_specified': stats.get('rejected', 0),
        'faults_injected': {text: stats.get(k, 0) for k, text in FIRED.items()
                            if stats.get(k, 0)},
        'exceptions_injected': {k[4:]: n for k, n in sorted(stats.items())
                                if k.startswith('exc_')},
        'distinct_container_states': len(shapes),
        'distinct_container_states_measure': 'kind, lengths of the internal sublists and '
                                             'whether a positional index is built',
        'other_counts': {k: n for k, n in sorted(stats.items())
                         if k not in FIRED and not k.startswith('exc_')
                         and k not in ('ticks', 'op', 'rejected')},
        'real_components': REAL,
        'simulated_components': STUB,
        'operations_in_the_mix': sum(len(v) for v in prof['ops'].values()),
    }
    if trails:
        coverage['distinct_interleavings'] = len(trails)
        coverage['distinct_interleavings_measure'] = (
            'sequence of (point, thread) hand-overs of one concurrent phase, hashed')
    ev = {'property': prop, 'tier': tier, 'seed': int(vseed) if vseed.lstrip('-').isdigit()
          else 0, 'level': 'exploration', 'coverage': coverage, 'assumptions': ASSUME,
          'wall_s': round(wall, 3), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if args.digest:
        import zlib
        print('digest', zlib.crc32(repr(sorted(crcs)).encode()),
              zlib.crc32(repr(sorted(trails)).encode()), done)
    if viol:
        v = min(viol, key=lambda c: len(json.dumps(c)))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (
            prop, v['seed'].replace(':', '_')))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s: %s' % (v['violation']['class'], v['violation']['message'][:3000]))
        print('seed %s, %d of %d steps kept' % (
            v['seed'], len(v['steps']), v.get('original_steps', len(v['steps']))))
        code, out = replay(prop, path)
        print('replay in a fresh process: %s' % (
            'reproduced' if code == 1 else 'NOT reproduced (%d) %s' % (code, out[-500:])))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    if errors:
        fail('harness: ' + errors[0])
    if done < runs and not stopped:
        fail('only %d of %d runs executed' % (done, runs))
    for line in known(prop):
        print(line)
    print('%s held: %d runs (%d distinct), %d operations, %d callbacks, %.1f s' % (
        prop, done, distinct, stats.get('op', 0), stats.get('ticks', 0), wall))
    sys.exit(0)


def known(prop):
    """Open findings of this property."""
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('finding: property=%s ' % prop):
                out.append('KNOWN-FINDING: ' + line.strip()[len('finding: '):])
    return out


if __name__ == '__main__':
    main()
