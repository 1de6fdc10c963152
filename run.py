#!/usr/bin/env python3
"""Deterministic-simulation checks for PyWavelets.

  run.py check --prop C01 [--tier quick|thorough] [--runs N] [--workers W]     one property
  run.py replay FILE                                                           re-execute one recorded violation
  run.py setup                                                                 build only
  run.py determinism [--runs N]                                                same seeds under different conditions

Exit status of check: 0 held on everything explored, 1 violation (line on stdout), 3 the check itself failed.
"""
import argparse
import collections
import hashlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, 'sim')
sys.path.insert(0, SIM)
sys.dont_write_bytecode = True
import build  # noqa: E402
import props  # noqa: E402
import shrink  # noqa: E402

PY = '/opt/venv/bin/python'
STEP_NS = 10          # a simulated step stands for about 10 ns of caller time; only used to state simulated time


def env(hashseed='0'):
    return {'PATH': '/usr/bin:/bin', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONHASHSEED': hashseed,
            'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'HOME': '/nonexistent',
            'TMPDIR': os.environ.get('VSIM_TMP', '/tmp')}


class Pool:
    """worker processes; submit(job) -> future-like queue entry"""

    def __init__(self, bdir, n, hashseed='0'):
        self.q = queue.PriorityQueue()
        self.n = 0
        self.stop = False
        self.threads = []
        self.bad = []
        self.procs = []
        for _ in range(n):
            p = subprocess.Popen([PY, '-S', '-B', os.path.join(SIM, 'worker.py'), bdir], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(hashseed), cwd='/')
            self.procs.append(p)
        for p in self.procs:
            line = p.stdout.readline()
            if not line:
                err = p.stderr.read()
                raise SystemExit3('worker failed to start:\n' + err[-4000:])
            threading.Thread(target=p.stderr.read, daemon=True).start()
            t = threading.Thread(target=self._serve, args=(p,), daemon=True)
            t.start()
            self.threads.append(t)

    def _serve(self, p):
        while True:
            _, _, job, cb = self.q.get()
            if job is None:
                break
            try:
                p.stdin.write(json.dumps(job) + '\n')
                p.stdin.flush()
                line = p.stdout.readline()
                res = json.loads(line) if line else {'verdict': 'harness', 'msg': 'worker vanished', 'job': job}
            except (OSError, ValueError) as e:
                res = {'verdict': 'harness', 'msg': 'worker: %r' % e, 'job': job}
            cb(res)

    def submit(self, job, cb, prio=0):
        self.n += 1
        self.q.put((prio, self.n, job, cb))

    def map(self, jobs):
        out = [None] * len(jobs)
        left = threading.Semaphore(0)

        def done(i, r):
            out[i] = r
            left.release()
        for i, j in enumerate(jobs):
            self.submit(j, lambda r, i=i: done(i, r), -1)
        for _ in jobs:
            left.acquire()
        return out

    def close(self):
        for _ in self.procs:
            self.q.put((99, self.n + 1 + id(_) % 997, None, None))
        for p in self.procs:
            try:
                p.kill()
            except OSError:
                pass
        for p in self.procs:
            p.wait()


class SystemExit3(Exception):
    pass


def base_seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: '):
                    d = dict(x.split('=', 1) for x in line[9:].split(' ', 2)[:2])
                    out.append((d['property'], json.loads(d['match']) if 'match' in d else {}, line))
    return out


def is_known(prop, res, kn):
    for p, m, line in kn:
        if p == prop and all(str(v) in json.dumps(res.get(k)) for k, v in m.items()):
            return line
    return None


class Tally:
    def __init__(self):
        self.c = collections.Counter()
        self.faults = collections.Counter()
        self.kinds = collections.Counter()
        self.probes = collections.Counter()
        self.inter = set()
        self.digests = set()
        self.nontrivial = 0
        self.samples = []
        self.rt = 0.0

    def add(self, r):
        self.c['runs'] += 1
        self.c['verdict_' + r['verdict']] += 1
        for k in ('ops', 'steps', 'nsw', 'refs', 'clean', 'survived', 'sched'):
            self.c[k] += r.get(k, 0) or 0
        self.faults.update(r.get('faults', {}))
        self.probes.update(r.get('probes', {}))
        for k, v in zip(('python line', 'C basic block', 'GIL release', 'GIL acquire'), r.get('kinds', [])):
            self.kinds[k] += v
        dig = r.get('digest')
        key = (dig, r.get('inter'), r.get('hist'))
        if dig is not None and key not in self.digests:
            self.digests.add(key)
            if (r.get('nsw') or 0) > 1 or r.get('faults') or r.get('probes') or (r.get('ops') or 0) > 1:
                self.nontrivial += 1
        if r.get('inter') is not None and (r.get('nsw') or 0) > 1:
            self.inter.add(r['inter'])
        self.rt += r.get('rt', 0)
        if len(self.samples) < 4 and r.get('sample'):
            self.samples.append(r['sample'])


def write_evidence(prop, tier, seed, tally, wall, extra, nviol):
    P = props.PROPS[prop]
    cov = {
        'evaluations': tally.c['runs'],
        'distinct_nontrivial': tally.nontrivial,
        'rule': 'One evaluation is one simulated run: a plan (world, callers, operations, fault positions, scheduler '
                'parameters) drawn from one PRNG seed and executed once in a forked process. Runs are distinct when the '
                'digest of their scheduling and fault decisions (or of their recorded history) differs, and '
                'non-trivial when at least two thread switches happened, a fault fired, or more than one operation ran.',
        'samples': tally.samples or ['(no run finished)'],
        'runs_per_hour': round(tally.c['runs'] / max(wall, 1e-9) * 3600),
        'seeds': '%s/%d .. +%d' % (prop, seed, tally.c['runs']),
        'simulated_steps': tally.c['steps'],
        'simulated_time_s': round(tally.c['steps'] * STEP_NS * 1e-9, 3),
        'operations_executed': tally.c['ops'],
        'reference_comparisons': tally.c['refs'],
        'thread_switches': tally.c['nsw'],
        'switches_by_kind': dict(tally.kinds),
        'distinct_interleavings': len(tally.inter),
        'interleaving_measure': 'hash over the ordered switches (from, to, kind, code location) of a run',
        'faults_fired': dict(tally.faults),
        'faulted_operations_failed_cleanly': tally.c['clean'],
        'faulted_operations_that_still_succeeded': tally.c['survived'],
        'probes': dict(sorted(tally.probes.items())),
        'verdicts': {k[8:]: v for k, v in tally.c.items() if k.startswith('verdict_')},
        'real_components': P['real'],
        'stubbed_components': P['stub'],
    }
    cov.update(extra)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': props.ASSUME + P.get('assume', []), 'wall_s': round(wall, 2), 'violations': nviol}
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))


def check(a):
    t0 = time.monotonic()
    prop, tier = a.prop, a.tier
    seed = base_seed()
    print('property %s tier %s VERIF_SEED %d' % (prop, tier, seed), flush=True)
    bdir = build.build()
    tb = time.monotonic() - t0
    workers = a.workers or min(8, os.cpu_count() or 1)
    n = a.runs or props.PROPS[prop]['runs'] * (1 if tier == 'quick' else props.THOROUGH)
    cap = 420 if tier == 'quick' else 6 * 3600
    pool = Pool(bdir, workers)
    tally = Tally()
    viol, harness = [], []
    lock = threading.Lock()
    done = threading.Event()
    state = {'next': 0, 'left': 0, 'stop_after': None}

    def feed():
        while state['left'] < workers * 2 and state['next'] < n:
            if state['stop_after'] is not None and state['next'] > state['stop_after']:
                break
            if time.monotonic() - t0 > cap:
                break
            i = state['next']
            state['next'] += 1
            state['left'] += 1
            pool.submit({'prop': prop, 'seed': seed * 1000003 + i, 'tier': tier}, lambda r, i=i: got(i, r))
        if state['left'] == 0:
            done.set()

    kn = known()
    seen_known = {}

    def got(i, r):
        with lock:
            state['left'] -= 1
            tally.add(r)
            if r['verdict'] == 'violation':
                line = is_known(prop, r, kn)
                if line:
                    seen_known[line] = r
                else:
                    viol.append((i, r))
                    if state['stop_after'] is None:
                        state['stop_after'] = state['next'] + 4 * workers
            elif r['verdict'] == 'harness':
                harness.append((i, r))
                if len(harness) > 20:
                    state['stop_after'] = 0
            feed()
    with lock:
        feed()
    done.wait()
    wall = time.monotonic() - t0
    print('%d runs, %d operations, %d steps, %d switches, faults %s, %.1fs build, %.1fs simulation' % (
        tally.c['runs'], tally.c['ops'], tally.c['steps'], tally.c['nsw'], dict(tally.faults), tb, wall - tb), flush=True)
    rc = 0
    extra = {'build_s': round(tb, 1), 'worker_processes': workers, 'harness_errors': len(harness),
             'planned_runs': n}
    if viol:
        viol.sort(key=lambda x: x[0])
        rep, seen = None, set()
        for i, r in viol:
            k = (r['class'], r['msg'][:60])
            if k in seen and len(seen) > 2:
                continue
            seen.add(k)
            rep = shrink.confirm(pool, r)
            if rep:
                break
        if rep:
            rc = 1
            t1 = time.monotonic()
            small, log = shrink.minimise(pool, rep, budget=a.shrink)
            path = save(prop, seed, small, log)
            extra['violation'] = {'class': small['class'], 'msg': small['msg'][:500], 'replay': path,
                                  'shrink_s': round(time.monotonic() - t1, 1), 'shrink': log}
            print('violating seed %s: [%s] %s' % (rep['job'].get('seed'), small['class'], small['msg']))
            for s in describe(small):
                print('   ' + s)
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        else:
            print('HARNESS-ERROR: %d violation(s) that do not reproduce, first: %s' % (len(viol), viol[0][1]['msg']))
            rc = 3
    elif harness:
        print('HARNESS-ERROR: %d run(s), seed %s: %s' % (len(harness), harness[0][0], harness[0][1]['msg'][-3000:]))
        rc = 3
    for line in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, line))
    pool.close()
    write_evidence(prop, tier, seed, tally, time.monotonic() - t0, extra, len(viol))
    return rc


def describe(r):
    p = r['plan']
    for ti, t in enumerate(p.get('threads', [])):
        for oi, o in enumerate(t):
            yield 'caller %d step %d: %s %s%s' % (ti, oi, o.get('op'), json.dumps(o.get('a', {}))[:160],
                                                  ' FAULT ' + json.dumps(o['fault']) if o.get('fault') else '')
    for s in (r.get('named') or [])[:40]:
        yield 'switch at point %d -> caller %d  (%s)' % tuple(s)


def save(prop, seed, r, log):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop, 'verif_seed': seed, 'run_seed': r['plan'].get('seed'), 'class': r['class'], 'msg': r['msg'],
            'digest': r.get('digest'), 'plan': r['plan'], 'schedule': r.get('named'), 'minimisation': log}
    data = json.dumps(body, indent=1)
    path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256(data.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(data + '\n')
    return path


def replay(a):
    with open(a.file) as f:
        body = json.load(f)
    pool = Pool(build.build(), 1)
    r = pool.map([{'plan': body['plan'], 'full': 1}])[0]
    pool.close()
    print('recorded: [%s] %s' % (body['class'], body['msg']))
    print('replayed: [%s] %s %s' % (r.get('class'), r['verdict'], r.get('msg', '')))
    print('digest recorded %s replayed %s' % (body.get('digest'), r.get('digest')))
    for s in describe(r) if r['verdict'] == 'violation' else []:
        print('   ' + s)
    if r['verdict'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (body['property'], a.file))
        return 1
    return 0 if r['verdict'] == 'ok' else 3


def determinism(a):
    """same seeds, twice, under other worker counts and another PYTHONHASHSEED: every digest must agree"""
    bdir = build.build()
    bad = 0
    plist = [a.prop] if a.prop else sorted(props.PROPS)
    for prop in plist:
        sigs = []
        for workers, hs in ((8, '0'), (3, '0'), (8, '12345'), (1 if a.runs <= 40 else 5, '77')):
            pool = Pool(bdir, workers, hs)
            rs = pool.map([{'prop': prop, 'seed': base_seed() * 1000003 + i, 'full': 1} for i in range(a.runs)])
            pool.close()
            sigs.append([(r['verdict'], r.get('digest'), r.get('hist'), r.get('steps'), r.get('nsw'),
                          json.dumps(r.get('switches')), json.dumps(r.get('faults'), sort_keys=True)) for r in rs])
        diff = [i for i in range(a.runs) if len({s[i] for s in sigs}) > 1]
        bad += len(diff)
        print('%s: %d seeds x 4 configurations, %d differ %s' % (prop, a.runs, len(diff), diff[:10]), flush=True)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd', required=True)
    c = sp.add_parser('check')
    c.add_argument('--prop', required=True)
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--runs', type=int)
    c.add_argument('--workers', type=int)
    c.add_argument('--shrink', type=float, default=45.0)
    r = sp.add_parser('replay')
    r.add_argument('file')
    sp.add_parser('setup')
    d = sp.add_parser('determinism')
    d.add_argument('--runs', type=int, default=60)
    d.add_argument('--prop')
    a = ap.parse_args()
    try:
        if a.cmd == 'check':
            return check(a)
        if a.cmd == 'replay':
            return replay(a)
        if a.cmd == 'determinism':
            return determinism(a)
        print(build.build())
        return 0
    except SystemExit3 as e:
        print('HARNESS-ERROR: %s' % e)
        return 3
    except SystemExit as e:
        print(e)
        return 3


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
