"""Zygote: imports the instrumented library once, then forks one child per run.  Jobs and results are JSON lines."""
import json
import os
import select
import signal
import sys
import time

BUILD = sys.argv[1]
sys.path[:0] = [BUILD, os.path.dirname(os.path.abspath(__file__))]
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import simenv  # noqa: E402

P = simenv.setup()
import execs  # noqa: E402
import gens  # noqa: E402
import treesim  # noqa: E402,F401
import persist  # noqa: E402,F401
import simrt  # noqa: E402

REAL_LIMIT = 240.0


def child(job, w):
    simrt.die_fd(w)
    if 'plan' in job:
        plan = job['plan']
    else:
        plan = gens.make(job['prop'], job['seed'], job.get('tier', 'quick'))
    if job.get('planonly'):
        return {'plan': plan}
    st = execs.execute(P, plan)
    if st['verdict'] != 'ok':
        st['plan'] = plan
        st['named'] = [[s[0], s[1], simenv.locname(s[4])] for s in st.get('switches', [])[:400]]
    if not job.get('full') and st['verdict'] == 'ok':
        st.pop('switches', None)
    return st


def asleep(pg):
    """cpu ticks of a process group in which every thread sleeps, else None"""
    ticks = 0
    for d in os.listdir('/proc'):
        if not d.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % d) as f:
                v = f.read().rpartition(')')[2].split()
            if int(v[2]) != pg:
                continue
            for t in os.listdir('/proc/%s/task' % d):
                with open('/proc/%s/task/%s/stat' % (d, t)) as f:
                    w = f.read().rpartition(')')[2].split()
                if w[0] != 'S':
                    return None
                ticks += int(w[11]) + int(w[12])
        except (OSError, IndexError, ValueError):
            return None
    return ticks


def run(job):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        rc = 0
        try:
            out = child(job, w)
            data = json.dumps(out, default=str)
        except BaseException:  # noqa: B902
            import traceback
            data = json.dumps({'verdict': 'harness', 'msg': traceback.format_exc()})
            rc = 84
        os.write_all = None
        with os.fdopen(w, 'w') as f:
            f.write('\n' + data)
            f.flush()
        os._exit(rc)
    os.close(w)
    buf = b''
    end = time.monotonic() + REAL_LIMIT
    hung = stuck = False
    still, last = 0, None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 2.0))
        if not rd:
            t = asleep(pid)
            still = still + 1 if t is not None and t == last else 0
            last = t
            if still >= 5:
                stuck = True            # ten seconds without a single runnable thread: blocked outside the simulator
                break
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    _, st = os.waitpid(pid, 0)
    if stuck:
        return {'verdict': 'violation', 'class': 'deadlock', 'msg': 'every thread of the run is blocked for good'}
    if hung:
        return {'verdict': 'harness', 'msg': 'real-time limit reached (%ds)' % REAL_LIMIT}
    note, _, body = buf.partition(b'\n')
    if body:
        return json.loads(body)
    # the run ended the process: a crash, or a verdict of the runtime below Python
    if os.WIFSIGNALED(st):
        return {'verdict': 'violation', 'class': 'crash', 'msg': 'the process died: %s' % execs.status(st)}
    code = os.WEXITSTATUS(st)
    if code in (81, 82, 83):
        return {'verdict': 'violation', 'class': {81: 'deadlock', 82: 'noprogress', 83: 'memory'}[code],
                'msg': '%s: %s' % (execs.status(st), note.decode(errors='replace'))}
    return {'verdict': 'harness', 'msg': 'child ended with %d %s' % (code, note.decode(errors='replace'))}


def main():
    out = os.fdopen(os.dup(1), 'w')
    dn = os.open('/dev/null', os.O_RDWR)
    os.dup2(dn, 1)
    print(json.dumps({'ready': 1, 'codes': len(simenv.CODES)}), file=out, flush=True)
    for line in sys.stdin:
        job = json.loads(line)
        t = time.monotonic()
        res = run(job)
        if res.get('verdict') == 'violation' and 'plan' not in res:
            if 'plan' in job:
                res['plan'] = job['plan']
            else:
                res['plan'] = run(dict(job, planonly=1)).get('plan')
        res['job'] = {k: v for k, v in job.items() if k != 'plan'}
        res['rt'] = round(time.monotonic() - t, 4)
        print(json.dumps(res), file=out, flush=True)


if __name__ == '__main__':
    main()
