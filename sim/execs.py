"""Executes one plan inside a forked child of the zygote.  A plan is JSON and fully determines the run."""
import ctypes
import gc
import hashlib
import json
import locale
import logging
import os
import pickle
import resource
import signal
import sys
import warnings
import weakref

import numpy as np

import simrt

import bad
import simenv as E
import world as W
from ops import OPS
import ref as R

LIM = 900_000_000       # steps an operation may take when run alone
KINDS = {}


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


# ------------------------------------------------------------------ outcomes
def outcome_of(fn):
    try:
        v = fn()
        simrt.disarm()          # counters stay readable; nothing below may be hit by a fault
    except BaseException as e:  # noqa: B902
        simrt.disarm()
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        chain, x = [], e
        while x is not None and len(chain) < 10:
            chain.append(type(x).__name__)
            x = x.__cause__ or x.__context__
        mro = [c.__name__ for c in type(e).__mro__]
        e.__traceback__ = None
        return ('exc', type(e).__name__, str(e)[:300], chain, mro)
    return ('ok', W.freeze(v))


def brief(o):
    return 'returned a value' if o[0] == 'ok' else 'raised %s(%s)' % (o[1], o[2][:120])


def same_outcome(a, b, tol, loose=False, scale0=1.0):
    if a[0] != b[0]:
        return '%s, expected: %s' % (brief(a), brief(b))
    if a[0] == 'exc':
        return None if a[1] == b[1] else '%s, expected: %s' % (brief(a), brief(b))
    return W.differ(a[1], b[1], tol, loose=loose, scale0=scale0)


# kind of fault -> which exception is a clean failure
def clean_failure(o, fired, base):
    if o[0] != 'exc':
        return False
    if base[0] == 'exc' and o[1] == base[1]:
        return True
    if fired in ('c', 'np'):
        return 'MemoryError' in o[4] or o[1] == 'RuntimeError'
    if fired in ('int', 'py'):
        return bool({'SimInterrupt', 'SimTimeout', 'SimMemory', 'SimDepth'} & set(o[3]))
    return False


def judge(o, base, fired, tol, scale0):
    """None if acceptable"""
    d = same_outcome(o, base, tol, scale0=scale0)
    if d is None:
        return None
    if fired and clean_failure(o, fired, base):
        return None
    return d


def tolerance(specs, refs):
    low = False
    big = 1.0
    for s in specs:
        if s['k'] == 'arr':
            low |= s['dt'] in ('float32', 'complex64', 'float16')
            if s.get('f') in ('b', 'r'):
                big = 1e4 if s.get('f') == 'b' else max(big, 300.0)
    return (1e-4 if low else 1e-9), (big * 10 if low else max(1.0, big))


def amplify(o, specs):
    """extrapolating extension modes turn rounding errors of single precision inputs into larger ones"""
    txt = json.dumps(o['a'])
    if '"smooth"' not in txt and '"antireflect"' not in txt:
        return 1.0
    todo, seen, L, nd = [o['a']], set(), 2, 1
    while todo:
        for i in W.refs_in(todo.pop()):
            if i not in seen:
                seen.add(i)
                s = specs[i]
                if s['k'] in ('name', 'wav', 'cust'):
                    L = max(L, R.wavelet(s['n']).L)
                elif s['k'] == 'arr':
                    nd = max(nd, len(s['sh']))
                todo.append(s.get('v'))
    return float(L) ** min(nd, 2)


def fork_call(fn, what='in the isolated fault-free call'):
    """run fn in a forked copy of this process; returns its pickled result; a crash is a violation"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        rc = 0
        try:
            try:
                data = pickle.dumps(('ok', fn()), 4)
            except Violation as v:
                data = pickle.dumps(('viol', v.cls, v.msg), 4)
            except BaseException as e:  # noqa: B902
                import traceback
                data = pickle.dumps(('err', traceback.format_exc()), 4)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:  # noqa: B902
            rc = 84
        os._exit(rc)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if data:
        v = pickle.loads(data)
        if v[0] == 'ok':
            return v[1]
        if v[0] == 'viol':
            raise Violation(v[1], v[2])
        raise RuntimeError('in forked call: ' + v[1])
    raise Violation('crash', 'crash %s: %s' % (what, status(st)))


def status(st):
    if os.WIFSIGNALED(st):
        return 'signal %s' % signal.Signals(os.WTERMSIG(st)).name
    return {81: 'deadlock', 82: 'no progress within the step budget', 83: 'memory violation'}.get(
        os.WEXITSTATUS(st), 'exit %d' % os.WEXITSTATUS(st))


def arm(fault, counts):
    """arm one fault at a fraction of the counted events; returns what was armed"""
    if not fault or not counts:
        simrt.arm()
        return None
    k = fault['k']
    if k == 'c' and counts['c']:
        simrt.arm(1 + int(fault['frac'] * counts['c']), 0, 0, 0, fault.get('sticky', 0))
    elif k == 'np' and counts['np']:
        simrt.arm(0, 1 + int(fault['frac'] * counts['np']), 0, 0, fault.get('sticky', 0))
    elif k in ('int', 'py') and counts['lines']:
        simrt.arm(0, 0, 1 + int(fault['frac'] * counts['lines']), 2 if k == 'py' else fault.get('ik', 0))
    else:
        simrt.arm()
        return None
    return k


def disarm(k):
    c, n, lines, cf, nf, inf = simrt.disarm()
    fired = (k == 'c' and cf) or (k == 'np' and nf) or (k in ('int', 'py') and inf)
    return {'c': c, 'np': n, 'lines': lines}, (k if fired else None)


def first_ndim(v):
    if isinstance(v, np.ndarray):
        return v.ndim
    for x in (v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else ()):
        n = first_ndim(x)
        if n is not None:
            return n
    return None


NONE_AXES = ('dwtn', 'wavedecn', 'swtn', 'mran', 'fswavedecn', 'idwtn', 'waverecn', 'iswtn')


def vary(P, op, a, f):
    """the same request written in another documented way: enumerated modes, lists, other spelling, defaults"""
    a = dict(a)
    if f & 1 and 'm' in a and op not in ('pad', 'mra', 'mra2', 'mran') and not OPS[op].kinds & {'tree', 'bad'}:
        one = lambda m: getattr(P.Modes, m) if isinstance(m, str) and m in P.Modes.modes else m  # noqa: E731
        a['m'] = tuple(map(one, a['m'])) if isinstance(a['m'], tuple) else one(a['m'])
    if f & 8 and op in NONE_AXES and isinstance(a.get('axes'), tuple):
        n = first_ndim(a.get('x', a.get('c')))
        if n and a['axes'] == tuple(range(n)):
            a['axes'] = None
    if f & 2 and isinstance(a.get('axes'), tuple):
        a['axes'] = list(a['axes'])
    if f & 4 and isinstance(a.get('w'), str) and not OPS[op].kinds & {'tree'}:
        a['w'] = a['w'].upper() if op not in ('dfreq', 'lens') else a['w']
    if f & 16 and isinstance(a.get('x'), np.ndarray) and a['x'].dtype == np.float64 and a['x'].dtype.isnative and \
            a['x'].size < 500 and op in ('dwt', 'dwt2', 'dwtn', 'wavedec', 'wavedec2', 'wavedecn', 'downcoef', 'upcoef',
                                         'swt', 'swtn', 'threshold', 'cwt', 'fswavedecn'):
        a['x'] = a['x'].tolist()
    return a


DUCKS = ('dwt', 'dwt2', 'dwtn', 'wavedec', 'wavedec2', 'wavedecn', 'downcoef', 'upcoef', 'swt', 'swtn', 'threshold', 'cwt',
         'fswavedecn')


class Duck:
    """an array-like of the caller's; converting it runs the caller's code"""

    def __init__(self, a, fn):
        self.a, self.fn = a, fn

    def __array__(self, dtype=None, copy=None):
        if self.fn:
            f, self.fn = self.fn, None
            f()
        return np.array(self.a, dtype=dtype)

    def __len__(self):
        return len(self.a)


def call(P, o, objs, duck=None, args=None):
    a = W.resolve(o['a'], objs)
    if o.get('f'):
        a = vary(P, o['op'], a, o['f'])
    if duck:
        a['x'] = Duck(a['x'], duck)
    elif args is not None:
        args += [a, W.digest(a)]
    return OPS[o['op']].real(P, a)


def can_duck(o, objs):
    x = W.resolve(o['a'], objs).get('x') if o['op'] in DUCKS else None
    return isinstance(x, np.ndarray) and x.dtype == np.float64 and x.dtype.isnative and x.flags.writeable and not o.get('f')


def nested_ops(o):
    """the calls a step makes besides its own: in a forked child, or from a callback in the middle of it"""
    if o['op'] == 'fork':
        return o['a']['ops']
    return [o['nest']['o']] if o.get('nest') else []


def flat(thread):
    """the calls of one caller in order, those of its forked children included"""
    return [q for o in thread for q in (o['a']['ops'] if o['op'] == 'fork' else [o])]


def pairs(plan, base):
    """every call of the plan with its outcome alone"""
    for t, bt in zip(plan['threads'], base):
        for o, (out, c) in zip(t, bt):
            for q, (o2, _) in zip(nested_ops(o), c.get('sub', ())):
                yield q, o2
            if o['op'] != 'fork':
                yield o, out


def baseline(P, plan, each_forked):
    """every op alone, on its own fresh world, nothing injected -> [[(outcome, counts)]]"""
    simrt.memcfg(0, 0, 0)

    def one(o):
        sub = [one(q) for q in nested_ops(o)]
        if o['op'] == 'fork':
            return ('ok', None), {'steps': 1000, 'lines': 0, 'c': 0, 'np': 0, 'sub': sub}
        simrt.npmem(1)
        simrt.solo(1, LIM)
        E.events(False)
        objs = W.build_real(P, plan['world'])
        simrt.arm()
        out = outcome_of(lambda: call(P, o, objs))
        counts, _ = disarm(None)
        rep = simrt.report()
        counts['steps'] = rep['csteps'] + rep['pysteps'] + sum(c['steps'] for _, c in sub)
        counts['sub'] = sub
        return out, counts

    def allops():
        return [[one(o) for o in t] for t in plan['threads']]
    if each_forked:
        return [[fork_call(lambda o=o: one(o)) for o in t] for t in plan['threads']]
    return fork_call(allops)


def check_reference(plan, base):
    n = 0
    specs = plan['world']
    if any('cut' in s or 0 in s.get('sh', ()) for s in specs):
        return 0
    tol, sc = tolerance(specs, None)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        for o, out in pairs(plan, base):
            f = OPS[o['op']].ref
            if f is None:
                if out[0] == 'ok' and 'bad' in OPS[o['op']].kinds:
                    raise Violation('reference', '%s %s: an invalid request was accepted' % (o['op'], o['a'].get('c')))
                if out[0] == 'exc' and o['op'] == 'bad' and bad.ROWS[o['a']['c']][0].__name__ not in out[4]:
                    raise Violation('reference', 'bad %s: refused with %s(%s) instead of the documented %s' % (
                        o['a']['c'], out[1], out[2][:100], bad.ROWS[o['a']['c']][0].__name__))
                continue
            exp = f(W.resolve(o['a'], W.build_ref(specs)))
            if exp is NotImplemented:
                continue
            n += 1
            d = ('%s instead of a result' % brief(out)) if out[0] == 'exc' else \
                W.differ(out[1], W.freeze(exp), max(tol, 1e-8), loose=True,
                         scale0=sc * (amplify(o, specs) if tol > 1e-6 else 1))
            if d:
                raise Violation('reference', '%s run alone disagrees with the reference model: %s' % (o['op'], d))
    return n


class Pool:
    """the caller's objects: what must never change"""

    def __init__(self, objs):
        self.objs = objs
        self.bufs = [W.base_of(o) if isinstance(o, np.ndarray) else o for o in objs]
        self.ref = [W.digest(b) for b in self.bufs]
        self.elems = [self.ids(o) for o in objs]

    @staticmethod
    def ids(o):
        if isinstance(o, dict):
            return [(k, id(v)) for k, v in o.items()]
        if isinstance(o, list):
            return [id(v) for v in o]
        return None

    def changed(self):
        for i, b in enumerate(self.bufs):
            if W.digest(b) != self.ref[i] or self.ids(self.objs[i]) != self.elems[i]:
                return i
        return None


def scribble(v, depth=0):
    """the caller overwrites everything it was handed back"""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel():
                scribble(x, depth + 1)
        elif v.flags.writeable and v.size:
            v.fill(np.array(77).astype(v.dtype))
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x, depth + 1)
        v.clear()
    elif isinstance(v, list):
        for x in v:
            scribble(x, depth + 1)
        v.clear()
    elif isinstance(v, tuple):
        for x in v:
            scribble(x, depth + 1)
    elif type(v).__name__ == 'FswavedecnResult':
        scribble(W.fs_parts(v)[0])


def zero_level(o, objs, out):
    """requests for no transform at all hand the caller's own array back"""
    if o['op'] in ('wavedec', 'wavedec2', 'wavedecn', 'mra', 'mra2', 'mran', 'swt', 'swt2', 'swtn'):
        return isinstance(out, list) and len(out) < 2
    if o['op'] in ('waverec', 'waverec2', 'waverecn', 'imra', 'iswt', 'iswt2', 'iswtn'):
        c = W.resolve(o['a'], objs)
        return any(isinstance(v, (list, tuple)) and len(v) < 2 for v in c.values())
    if o['op'] == 'fsrec':
        return all(len(x) == 1 for x in objs[o['a']['r']['$']].coeff_slices)
    return o['op'] == 'pack'


def forked(P, o, objs):
    """the life of a child process forked in the middle of whatever its parent's threads were doing"""
    simrt.die_fd(-1)
    simrt.solo(1, LIM)
    simrt.arm()
    out = [outcome_of(lambda q=q: call(P, q, objs)) for q in o['a']['ops']]
    simrt.sweep()
    if simrt.mem()[6]:
        raise Violation('memory', 'damage to the heap of the child process')
    return out


TWO = 2.0
LIBC = ctypes.CDLL(None)


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class Ambient:
    """process-wide state that no library call may change"""

    def __init__(self):
        import sys as _s
        _s.stdout.flush()
        self.fd = os.memfd_create('stdout')
        os.dup2(self.fd, 1)
        import copy
        import itertools
        import math
        import threading
        self.mods = [(m, dict(vars(m))) for m in (np, np.fft, np.linalg, np.random, warnings, os, os.path, math, copy, pickle,
                                                  itertools, threading, signal, gc)]
        self.ref = self.take()

    @staticmethod
    def take():
        import builtins
        import random
        import threading
        rs = np.random.get_state()
        fds = set(os.listdir('/proc/self/fd'))
        return {
            'numpy error state': repr(np.geterr()), 'numpy error callback': repr(np.geterrcall()),
            'numpy print options': repr(np.get_printoptions()),
            'warning filters': repr(warnings.filters), 'warning hook': (id(warnings.showwarning), id(warnings.warn)),
            'numpy global random state': (rs[0], rs[1].tobytes(), rs[2:]), 'random state': hash(random.getstate()),
            'working directory': os.getcwd(), 'environment': dict(os.environ), 'sys.path': list(sys.path),
            'recursion limit': sys.getrecursionlimit(), 'gc': (gc.isenabled(), gc.get_threshold()),
            'signal handlers': [repr(signal.getsignal(s)) for s in range(1, 32)],
            'signal mask': sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())), 'timers': signal.getitimer(signal.ITIMER_REAL)[1],
            'umask': umask(), 'locale': locale.setlocale(locale.LC_ALL), 'logging': (logging.root.level, len(logging.root.handlers)),
            'floating point environment': (1.0 + float.fromhex('0x1.8p-53'), float.fromhex('0x1p-1074') * TWO,
                                           1.0 + float.fromhex('0x1p-54') * TWO, -1.0 - float.fromhex('0x1p-54') * TWO / TWO),
            'resource limits': [resource.getrlimit(k) for k in (resource.RLIMIT_STACK, resource.RLIMIT_NOFILE, resource.RLIMIT_AS)],
            'open files': len(fds), 'threads': threading.active_count(),
            'numpy buffer size': np.getbufsize(), 'hooks': (id(sys.excepthook), id(sys.stdout), id(sys.stderr),
                                                           id(builtins.open), sys.gettrace(), sys.getprofile(),
                                                           id(sys.displayhook), sys.getswitchinterval()),
        }

    def again(self):
        self.ref = self.take()

    def changed(self):
        now = self.take()
        for k in self.ref:
            if now[k] != self.ref[k]:
                return '%s changed' % k
        for m, d in self.mods:
            for k, v in d.items():
                if vars(m).get(k, self) is not v and not k.startswith('__'):
                    return 'attribute %s of module %s was replaced' % (k, m.__name__)
        sys.stdout.flush()
        LIBC.fflush(None)
        if os.fstat(self.fd).st_size:
            return 'something was written to standard output'
        return None


def describe(plan, i):
    s = dict(plan['world'][i])
    return 'caller object #%d %s' % (i, {k: v for k, v in s.items() if k in ('k', 'sh', 'dt', 'n', 'v')})


@kind('calls')
def exec_calls(P, plan, st):
    base = baseline(P, plan, plan.get('iso') == 'fork')
    st['refs'] = check_reference(plan, base) if plan.get('ref', 1) else 0
    tol, sc = tolerance(plan['world'], None)
    steps = sum(c['steps'] for t in base for _, c in t)
    mem = plan.get('mem', {})
    simrt.memcfg(mem.get('poison', 0), mem.get('align', 0), 0)
    simrt.npmem(1)
    sched = dict(plan['sched'])
    sched['max_steps'] = 30 * steps + 3_000_000
    sched['mean_c'] = max(sched['mean_c'], steps / 60_000)      # bounds the cost of long kernels
    simrt.solo(1, LIM)
    objs = W.build_real(P, plan['world'])
    simrt.solo(0)
    pool = Pool(objs)
    viols = []
    fired_kinds = st.setdefault('faults', {})
    immut = plan.get('immut', 1)

    amb = Ambient() if plan.get('ambient') == 1 else None
    amb2 = Ambient() if plan.get('ambient') == 2 else None      # looked at once all threads are done

    def thread(ti):
        raw = []
        for oi, o in enumerate(plan['threads'][ti]):
            out0, counts = base[ti][oi]
            if o['op'] == 'fork':
                try:
                    outs = fork_call(lambda: forked(P, o, objs), 'in a child process forked by thread %d' % ti)
                except Violation as v:
                    viols.append(('fork', v.msg))
                    return
                fired_kinds['fork'] = fired_kinds.get('fork', 0) + 1
                st['ops'] = st.get('ops', 0) + len(outs)
                for q, got, (exp, _) in zip(o['a']['ops'], outs, counts['sub']):
                    d = same_outcome(got, exp, tol, scale0=sc)
                    if d:
                        viols.append(('fork', 'thread %d op %d (%s in a forked child): %s' % (ti, oi, q['op'], d)))
                continue
            f0 = o.get('fault')
            tries = [f0] + [dict(f0, frac=x) for x in f0.get('more', ())] + [None] if f0 else [None]
            for f in tries:
                inner, duck, nest = [], None, o.get('nest')
                own = objs                        # or objects that live for this call only
                if o.get('eph'):
                    own = W.build_real(P, plan['world'], W.closure(plan['world'], o['a']))

                def callback():
                    inner.append(outcome_of(lambda: call(P, nest['o'], objs)))
                if nest and nest.get('duck') and can_duck(o, own):
                    duck = callback
                    k = arm(None, None)
                elif nest and counts['lines']:
                    simrt.set_nested(callback)
                    simrt.arm(0, 0, 1 + int(nest['frac'] * counts['lines']), 4)
                    k = None
                else:
                    k = arm(f, counts)
                args = [] if immut else None
                out = outcome_of(lambda: raw.append(call(P, o, own, duck, args)) or raw[0])
                _, fired = disarm(k)
                if fired:
                    fired_kinds[fired] = fired_kinds.get(fired, 0) + 1
                st['ops'] = st.get('ops', 0) + 1
                where = 'thread %d op %d (%s)%s' % (ti, oi, o['op'], '' if not fired else
                                                    ' with fault %s at %.4f' % (fired, f['frac']))
                d = judge(out, out0, fired, tol, sc)
                if inner:
                    kd = 'callback' if duck else 'reentry'
                    fired_kinds[kd] = fired_kinds.get(kd, 0) + 1
                    st['ops'] += 1
                    where += ' interrupted at %.4f by %s' % (nest['frac'], nest['o']['op'])
                    d2 = same_outcome(inner[0], counts['sub'][0][0], tol, scale0=sc)
                    if d2:
                        viols.append(('nested', '%s: the inner call: %s' % (where, d2)))
                        return
                if args and args[1] != W.digest(args[0]):
                    viols.append(('mutated', '%s: an argument was modified in place' % where))
                    return
                if raw and plan.get('scribble') and not zero_level(o, own, raw[0]):
                    scribble(raw[0])
                raw.clear()
                own = args = None
                if amb and o['op'] == 'ambient':
                    amb.again()
                elif amb:
                    ch = amb.changed()
                    if ch:
                        viols.append(('ambient', '%s: %s' % (where, ch)))
                        return
                if d:
                    viols.append(('retry' if (f is None and f0) else 'fault' if fired else 'result',
                                  '%s: %s' % (where, d)))
                if immut:
                    ch = pool.changed()
                    if ch is not None:
                        viols.append(('mutated', '%s: %s was modified' % (where, describe(plan, ch))))
                        return
                if out[0] == 'exc':
                    simrt.note(len(out[1]))
                if fired:
                    st['clean' if out[0] == 'exc' else 'survived'] = st.get(
                        'clean' if out[0] == 'exc' else 'survived', 0) + 1

    E.events(bool(plan['sched'].get('instr')))
    if len(plan['threads']) == 1 and not plan.get('threaded'):
        simrt.solo(1, sched['max_steps'])
        thread(0)
        rep = simrt.report()
        simrt.solo(0)
    else:
        rep = E.run_threads([lambda i=i: thread(i) for i in range(len(plan['threads']))], sched,
                            sum(c['lines'] for t in base for _, c in t))
    E.events(False, False)
    simrt.sweep()
    ch = amb2 and amb2.changed()
    if ch:
        viols.append(('ambient', 'after all calls: %s' % ch))
    m = simrt.mem()
    if m[6]:
        viols.insert(0, ('memory', {1: 'free of a pointer the allocator does not know (double free or foreign pointer)',
                                    2: 'write outside an allocated block (guard zone damaged)'}[m[6]]))
    finish(st, rep, plan)
    if viols:
        raise Violation(*viols[0])


@kind('leak')
def exec_leak(P, plan, st):
    """The same history again and again in one process: once everything it made is dropped, nothing may accumulate.
    Cached objects that later repetitions reuse are fine; growth in every repetition is not."""
    base = baseline(P, plan, False)
    mem = plan.get('mem', {})
    simrt.memcfg(mem.get('poison', 0), mem.get('align', 0), 0)
    simrt.npmem(1)
    simrt.solo(1, 10 ** 15)
    E.events(False)
    fk = st.setdefault('faults', {})
    st['clean'] = st['survived'] = 0

    def rep(refs=None):
        objs = W.build_real(P, plan['world'])
        if refs is not None:
            watch(objs, refs, 'an array the caller passed in')
        for ti, t in enumerate(plan['threads']):
            for oi, o in enumerate(t):
                k = arm(o.get('fault'), base[ti][oi][1])
                fired = None
                got = None
                try:
                    got = call(P, o, objs)
                    fired = disarm(k)[1]
                    st['survived'] += bool(fired)
                except (Exception, KeyboardInterrupt) as e:  # noqa: B902
                    fired = disarm(k)[1]
                    st['clean'] += bool(fired)
                    if refs is None:
                        e.__traceback__ = None
                        e.__context__ = e.__cause__ = None
                    del e
                if refs is not None:
                    watch(got, refs, 'something %s returned' % o['op'])
                del got
                if fired:
                    fk[fired] = fk.get(fired, 0) + 1
                st['ops'] = st.get('ops', 0) + 1
        objs.clear()

    def use():
        gc.collect()
        sys._clear_type_cache()         # CPython's attribute cache keeps up to 4096 fresh name strings alive
        m = simrt.mem()
        return m[0], m[3], sys.getallocatedblocks(), len(os.listdir('/proc/self/fd'))

    def run(n):
        for _ in range(n):
            rep()
        return use()
    run(2)
    u = [use()] + [run(2) for _ in range(3)]
    bad = grown(u, 2)
    if bad:
        n = 25 if sum(c['steps'] for t in base for _, c in t) < 500_000 else 8
        u = [use()] + [run(n) for _ in range(6)]         # confirm over a long run before saying so
        bad = grown(u[2:], n)
    refs = []
    rep(refs)
    gc.collect()
    kept = [what for ref, what in refs if ref() is not None]
    simrt.sweep()
    m = simrt.mem()
    r = simrt.report()
    finish(st, r, plan)
    st['nsw'] = 0
    st['digest'] = hashlib.blake2b(json.dumps([plan['world'], plan['threads'], st['faults'], st['clean']]).encode(),
                                   digest_size=8).hexdigest()
    if m[6]:
        raise Violation('memory', {1: 'free of a pointer the allocator does not know (double free or foreign pointer)',
                                   2: 'write outside an allocated block (guard zone damaged)'}[m[6]])
    if bad:
        raise Violation('leak', 'every repetition of the history leaves %s behind (counts over time: %s)' % (
            bad, [x[LEAKS.index(bad)] for x in u]))
    if kept:
        raise Violation('leak', '%s is still alive after the caller dropped everything' % kept[0])


def watch(x, refs, what, deep=0):
    """weak references to every array and tree in x"""
    if isinstance(x, np.ndarray):
        while isinstance(x, np.ndarray):
            refs.append((weakref.ref(x), what))
            x = x.base
    elif isinstance(x, dict) and deep < 5:
        for v in x.values():
            watch(v, refs, what, deep + 1)
    elif isinstance(x, (list, tuple)) and deep < 5:
        for v in x:
            watch(v, refs, what, deep + 1)
    elif hasattr(x, '__dict__') and hasattr(x, '__weakref__') and not isinstance(x, type):
        refs.append((weakref.ref(x), what))


LEAKS = ['blocks of the C extensions', 'array buffers', 'interpreter memory blocks', 'open files']


def grown(u, per):
    """which resource grew by at least half a unit per repetition throughout"""
    for i, name in enumerate(LEAKS):
        v = [x[i] for x in u]
        if all(b - a >= per / 2 for a, b in zip(v, v[1:])):
            return name
    return None


def sample(plan, st, rep):
    """one line of what this run was, for the evidence file"""
    def o1(o):
        f = o.get('fault')
        if o['op'] == 'fork':
            return 'fork(%s)' % '; '.join(q['op'] for q in o['a']['ops'])
        if o.get('nest'):
            return '%s<-%s@%.2f' % (o['op'], o['nest']['o']['op'], o['nest']['frac'])
        return o['op'] + ('!%s@%.2f' % (f.get('k', f.get('kind')), f.get('frac', 0)) if f else '')
    t = ' | '.join('; '.join(o1(o) for o in t) for t in plan['threads'])
    sw = ' '.join('%d->%d:%s' % (s[2], s[1], E.locname(s[4]).split('/')[-1]) for s in rep['switches'][1:6])
    st['sample'] = ('seed %s callers [%s] switches %d [%s]' % (plan.get('seed'), t, rep['nsw'], sw))[:600]


def finish(st, rep, plan=None):
    if plan:
        sample(plan, st, rep)
    st['steps'] = st.get('steps', 0) + rep['csteps'] + rep['pysteps']
    st['nsw'] = rep['nsw']
    st['digest'] = '%016x' % rep['digest']
    st['kinds'] = rep['kinds']
    st['switches'] = rep['switches']
    h = 0
    for p, to, fr, kd, loc in rep['switches']:
        h = hash((h, to, fr, kd, loc))
    st['inter'] = h & ((1 << 64) - 1)


# ------------------------------------------------------------------ entry
def execute(P, plan):
    st = {}
    try:
        KINDS[plan['kind']](P, plan, st)
        st['verdict'] = 'ok'
    except Violation as v:
        st['verdict'] = 'violation'
        st['class'], st['msg'] = v.cls, v.msg
    return st
