"""Persistent objects (wavelets, fully separable results) across copies, checkpoints and process restarts; and the
packaged data sets read through a simulated disk.

kind 'objs'  one caller: objects in slots, edits, copies, checkpoints of all slots, crashes
kind 'data'  one or several callers reading data sets, with I/O, allocation and interrupt faults
"""
import copy
import hashlib
import json
import os
import pickle
import warnings

import numpy as np

import simrt

import execs as X
import ref as R
import simenv as E
import world as W
from execs import Violation


# ------------------------------------------------------------------ objects described by recipes
def make(P, rc):
    """build the object a recipe describes: constructor, then the edits in order"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        k = rc['k']
        if k == 'disc':
            o = P.Wavelet(rc['n'])
        elif k == 'cust':
            o = P.Wavelet(rc['name'], filter_bank=[[float.fromhex(v) for v in f] for f in
                                                   R.GOLDEN['discrete'][rc['n']]['filters']])
        elif k == 'cont':
            o = P.ContinuousWavelet(rc['n'], np.dtype(rc['dt']))
        else:
            x = W.make_array(rc['x'])
            ws = [make(P, w) for w in rc['ws']]
            o = P.fswavedecn(x, ws if len(ws) > 1 else ws[0], mode=rc['m'], levels=rc['lv'], axes=rc['ax'])
    for e in rc['edits']:
        edit(o, e)
    return o


def edit(o, e):
    if e[0] == 'fs':
        keys = [(0,) * len(o.axes)] + o.detail_keys()
        key = keys[e[1] % len(keys)]
        g = np.random.Generator(np.random.PCG64(e[2]))
        cur = o[key]
        v = g.standard_normal(cur.shape).astype(cur.dtype)
        if e[3] == 'approx' and len(o.axes) == o.ndim:
            g = np.random.Generator(np.random.PCG64(e[2]))
            o.approx = g.standard_normal(o.approx.shape).astype(cur.dtype)
        elif e[3] == 'whole':
            o.coeffs = (o.coeffs * 2.0).astype(o.coeffs.dtype)
        else:
            o[key] = v
    else:
        setattr(o, e[0], e[1])


def image(P, o):
    """everything a user can observe of the object"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if type(o).__name__ == 'FswavedecnResult':
            return {'coeffs': np.array(o.coeffs), 'slices': repr(o.coeff_slices), 'axes': tuple(o.axes),
                    'levels': list(o.levels), 'modes': list(o.modes), 'names': list(o.wavelet_names),
                    'keys': repr(o.detail_keys()), 'ws': [image(P, w) for w in o.wavelets],
                    'rec': np.array(P.fswaverecn(o)), 'nd': (o.ndim, o.ndim_transform)}
        a = {k: W.freeze(v) for k, v in W.wave_attrs(o).items()}
        a['str'], a['repr'], a['type'] = str(o), repr(o), type(o).__name__
        if hasattr(o, 'dec_lo'):
            a['bank'] = W.freeze([list(f) for f in o.filter_bank])
            a['len'] = len(o)
            a['fun'] = W.freeze(list(o.wavefun(2)))
            a['dwt'] = W.freeze(list(P.dwt(np.arange(9.0) ** 1.5, o, 'periodization')))
        else:
            try:
                a['fun'] = W.freeze(list(o.wavefun(5)))
            except Exception as e:  # noqa: B902
                a['fun'] = type(e).__name__
        return a


def exact(a, b, path='object'):
    if isinstance(b, dict):
        for k in b:
            d = exact(a.get(k), b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return '%s: %r instead of %r' % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = exact(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or a.dtype != b.dtype or a.shape != b.shape:
            return '%s: another array type or shape' % path
        return None if a.tobytes() == b.tobytes() else '%s: values differ' % path
    return None if type(a) is type(b) and (a == b or a != a and b != b) else '%s: %r instead of %r' % (path, a, b)


class Objs:
    def __init__(self, P, plan, st, images):
        self.P, self.plan, self.st, self.images = P, plan, st, images
        self.slot, self.rc = {}, {}
        self.durable = None

    def want(self, rc):
        k = json.dumps(rc, sort_keys=True)
        if k not in self.images:
            def fresh():
                simrt.arm()
                E.events(False)
                return image(self.P, make(self.P, rc))
            self.images[k] = X.fork_call(fresh, 'while building a fresh object')
        return self.images[k]

    amb = None

    def checkall(self, where):
        ch = self.amb.changed() if self.amb else None
        if ch:
            raise Violation('ambient', '%s: %s' % (where, ch))
        for i in sorted(self.slot):
            d = exact(image(self.P, self.slot[i]), self.want(self.rc[i]), 'object %d' % i)
            if d:
                raise Violation('state', '%s: %s (recipe %s)' % (where, d, json.dumps(self.rc[i])[:200]))

    def attempt(self, o, f, where):
        """run f under the step's fault; retried without it when it failed cleanly"""
        flt = o.get('fault')
        if flt:
            def one():
                simrt.arm()
                E.events(False)
                X.outcome_of(lambda: f() and None)
                c = simrt.disarm()
                return {'c': c[0], 'np': c[1], 'lines': c[2]}
            cnt = X.fork_call(one)
            kk = X.arm(flt, cnt)
        res = {}

        def go():
            res['v'] = f()
        out = X.outcome_of(go)
        if flt:
            _, fired = X.disarm(kk)
            if fired:
                self.st['faults'][fired] = self.st['faults'].get(fired, 0) + 1
                if out[0] == 'exc' and X.clean_failure(out, fired, ('ok',)):
                    self.st['clean'] = self.st.get('clean', 0) + 1
                    self.checkall(where + ' (failed)')
                    out = X.outcome_of(go)
                    where = 'the retry of ' + where
        if out[0] == 'exc':
            raise Violation('result', '%s: %s' % (where, X.brief(out)))
        return res['v']

    def step(self, i, o):
        k, a, P = o['op'], o['a'], self.P
        where = 'step %d (%s %s)' % (i, k, {q: v for q, v in a.items() if q != 'rc'})
        self.st['ops'] = self.st.get('ops', 0) + 1
        self.st['probes'][k] = self.st['probes'].get(k, 0) + 1
        if k == 'new':
            self.slot[a['s']] = self.attempt(o, lambda: make(P, a['rc']), where)
            self.rc[a['s']] = a['rc']
        elif k == 'edit':
            n = a['s']
            if n not in self.slot:
                return
            es = a['fs'] if self.rc[n]['k'] == 'fs' else a['cont'] if self.rc[n]['k'] == 'cont' else a['disc']
            self.rc[n] = dict(self.rc[n], edits=self.rc[n]['edits'] + es)
            for e in es:
                edit(self.slot[n], e)
        elif k == 'copy':
            if a['s'] not in self.slot:
                return
            src = self.slot[a['s']]
            how = a['how']
            if how == 'copy' and self.rc[a['s']]['k'] == 'fs':
                how = 'deepcopy'
            f = {'copy': lambda: copy.copy(src), 'deepcopy': lambda: copy.deepcopy(src),
                 'pickle': lambda: pickle.loads(pickle.dumps(src, a['proto']))}[how]
            self.slot[a['t']] = self.attempt(o, f, where)
            self.rc[a['t']] = self.rc[a['s']]
            if self.slot[a['t']] is src:
                raise Violation('copy', '%s: the copy is the original object' % where)
        elif k == 'drop':
            self.slot.pop(a['s'], None)
            self.rc.pop(a['s'], None)
        elif k == 'ckpt':
            s = self.attempt(o, lambda: pickle.dumps(self.slot, a['proto']), where)
            self.durable = (s, json.loads(json.dumps({str(q): v for q, v in self.rc.items()})))
        else:
            raise AssertionError(k)
        self.checkall(where)

    def restore(self, o, where):
        s, rc = self.durable
        self.slot = self.attempt(o, lambda: pickle.loads(s), where)
        self.rc = {int(q): v for q, v in rc.items()}
        self.checkall(where)


def oseg(P, plan, start, durable, images):
    st = {'faults': {}, 'probes': {}}
    mem = plan.get('mem', {})
    simrt.memcfg(mem.get('poison', 0), mem.get('align', 0), 0)
    simrt.npmem(1)
    simrt.solo(1, X.LIM)
    E.events(False)
    s = Objs(P, plan, st, images)
    s.amb = X.Ambient() if plan.get('ambient') else None
    s.durable = durable
    steps = plan['threads'][0]
    if start:
        st['probes']['restart' if durable else 'restart_without_checkpoint'] = 1
        if durable:
            s.restore(steps[start - 1], 'step %d (restart from the last checkpoint)' % (start - 1))
    nxt = None
    for i in range(start, len(steps)):
        if steps[i]['op'] == 'crash':
            nxt = i + 1
            break
        s.step(i, steps[i])
    rep = simrt.report()
    E.events(False, False)
    simrt.sweep()
    if simrt.mem()[6]:
        raise Violation('memory', 'allocator reports damage (%d)' % simrt.mem()[6])
    X.finish(st, rep, plan)
    st.pop('switches')
    return nxt, s.durable, st, images


@X.kind('objs')
def exec_objs(P, plan, st):
    start, durable, h, images = 0, None, 0, {}
    st.update(faults={}, probes={}, kinds=[], switches=[], inter=0, nsw=0)
    while True:
        start, durable, s, images = X.fork_call(lambda: oseg(P, plan, start, durable, images), 'during the history')
        merge(st, s)
        h = hash((h, int(s['digest'], 16)))
        st['digest'] = '%016x' % (h & (2 ** 64 - 1))
        if start is None:
            return


def merge(st, s):
    for k in ('faults', 'probes'):
        for q, v in s.pop(k).items():
            st[k][q] = st[k].get(q, 0) + v
    for k in ('ops', 'steps', 'clean', 'survived'):
        st[k] = st.get(k, 0) + s.get(k, 0)
    st['sample'] = s['sample']


# ------------------------------------------------------------------ data sets
def read(P, o):
    a = o['a']
    D = __import__('pywt.data', fromlist=['data'])
    if o['op'] == 'signal':
        return D.demo_signal(a['n'], a['len'])
    return getattr(D, o['op'])()


def golden_image(v):
    h = hashlib.blake2b(digest_size=10)
    W.snap(list(v) if isinstance(v, tuple) else v, h)
    return h.hexdigest()


@X.kind('data')
def exec_data(P, plan, st):
    import pywt.data  # noqa: F401
    D = E.DISK
    simrt.npmem(1)
    simrt.memcfg(plan['mem'].get('poison', 0), plan['mem'].get('align', 0), 0)
    st.update(faults={}, probes={})

    def key(o):
        return json.dumps([o['op'], o['a'].get('n'), o['a'].get('len')])
    ops = {key(o): o for t in plan['threads'] for o in X.flat(t)}

    def fresh(o):
        """what this read gives as the first and only call of a process, on a healthy disk; and what it costs"""
        simrt.npmem(1)
        simrt.solo(1, X.LIM)
        E.events(False)
        D.arm({})
        simrt.arm()
        out = X.outcome_of(lambda: read(P, o))
        c = simrt.disarm()
        rep = simrt.report()
        d = D.disarm()
        return out, {'c': c[0], 'np': c[1], 'lines': c[2], 'reads': d['reads'], 'opens': d['opens'],
                     'steps': rep['csteps'] + rep['pysteps']}
    base = {k: X.fork_call(lambda o=o: fresh(o)) for k, o in ops.items()}
    gold = R.GOLDEN.get('data', {})
    for k, (out, _) in base.items():
        o = ops[k]
        if o['op'] != 'signal':
            if out[0] != 'ok':
                raise Violation('reference', '%s: %s on a healthy disk' % (o['op'], X.brief(out)))
            if o['op'] != 'nino' and golden_image(out[1]) != gold[o['op']]:
                raise Violation('reference', '%s does not return the packaged data' % o['op'])
            st['refs'] = st.get('refs', 0) + 1
    viols = []
    multi = len(plan['threads']) > 1
    D.arm(plan.get('disk') or {}) if multi else None

    def thread(ti):
        for oi, o in enumerate(plan['threads'][ti]):
            if o['op'] == 'fork':
                try:
                    outs = X.fork_call(lambda: forked(o), 'in a child process forked by thread %d' % ti)
                except Violation as v:
                    viols.append(('fork', v.msg))
                    return
                st['faults']['fork'] = st['faults'].get('fork', 0) + 1
                for q, out in zip(o['a']['ops'], outs):
                    d = X.same_outcome(out, base[key(q)][0], 0.0)
                    if d:
                        viols.append(('fork', 'caller %d step %d (%s in a forked child): %s' % (ti, oi, q['op'], d)))
                        return
                continue
            b, cnt = base[key(o)]
            f = o.get('fault')
            for flt in [f] + ([None] if f else []):
                disk = None
                kk = None
                if not multi:
                    disk = (flt or {}).get('disk')
                    D.arm(plandisk(disk, cnt))
                mflt = flt if flt and flt.get('k') else None
                kk = X.arm(mflt, cnt) if mflt else None
                if kk is None:
                    simrt.arm()
                raw = []
                out = X.outcome_of(lambda: raw.append(read(P, o)) or raw[0])
                fired = None
                if kk:
                    _, fired = X.disarm(kk)
                hit = []
                if not multi:
                    hit = D.disarm()['fired']
                for q in set(hit) | ({fired} if fired else set()):
                    st['faults'][q] = st['faults'].get(q, 0) + 1
                st['ops'] = st.get('ops', 0) + 1
                st['probes'][o['op']] = st['probes'].get(o['op'], 0) + 1
                where = 'caller %d step %d (%s %s)%s' % (ti, oi, o['op'], o['a'] if o['op'] == 'signal' else '',
                                                        ' with %s' % json.dumps(flt) if flt else '')
                bad = [q for q in hit if q != 'short']
                d = X.same_outcome(out, b, 0.0)
                if d and out[0] == 'exc' and (bad or fired and X.clean_failure(out, fired, b)):
                    st['clean'] = st.get('clean', 0) + 1
                    d = None
                elif d and multi and D.fired and out[0] == 'exc' and [q for q in D.fired if q != 'short']:
                    st['clean'] = st.get('clean', 0) + 1
                    D.plan = {}                       # the fault was transient: from here on the disk is healthy
                    D.fired.clear()
                    out = X.outcome_of(lambda: raw.append(read(P, o)) or raw[0])
                    d = X.same_outcome(out, b, 0.0)
                elif (bad or fired) and out[0] == 'ok':
                    st['survived'] = st.get('survived', 0) + 1
                if raw and plan.get('scribble'):
                    X.scribble(raw[-1])
                if d:
                    viols.append(('result', '%s: %s' % (where, d)))
                    return
                ch = amb.changed() if amb else None
                if ch:
                    viols.append(('ambient', '%s: %s' % (where, ch)))
                    return
    def forked(o):
        simrt.die_fd(-1)
        simrt.solo(1, X.LIM)
        simrt.arm()
        return [X.outcome_of(lambda q=q: read(P, q)) for q in o['a']['ops']]

    amb = X.Ambient() if plan.get('ambient') and not multi else None
    E.events(bool(plan['sched'].get('instr')))
    sched = dict(plan['sched'])
    if multi:
        sched['max_steps'] = 60 * sum(c['steps'] for _, c in base.values()) * 4 + 3_000_000
        rep = E.run_threads([lambda i=i: thread(i) for i in range(len(plan['threads']))], sched,
                            sum(base[k][1]['lines'] for k in base))
        for q in D.disarm()['fired']:
            st['faults'][q] = st['faults'].get(q, 0) + 1
    else:
        simrt.solo(1, X.LIM)
        thread(0)
        rep = simrt.report()
    E.events(False, False)
    X.finish(st, rep, plan)
    if viols:
        raise Violation(*viols[0])


def plandisk(d, cnt):
    """fix fractional fault positions to the number of events a healthy read makes"""
    if not d:
        return {}
    d = dict(d)
    if d.get('kind') == 'eio':
        d['at'] = 1 + int(d['frac'] * max(1, cnt['reads']))
    if d.get('kind') == 'open':
        d['at'] = 1 + int(d['frac'] * max(1, cnt['opens']))
    return d
