"""Wavelet packet trees as stateful objects: histories of operations, faults, checkpoints and crash-restarts against an
executable model that shares no code with the library.

Plan: {"kind":"tree", "world":[..], "tree":{dim,data,w,m,lv,axes,aslist}, "threads":[[op..]], "sched", "mem"}
op  : {"op":name, "a":{...}, "fault":{...}|null}
Operations address the root or a node handle kept by an earlier step ("on": slot).
"""
import copy
import pickle
from itertools import product

import numpy as np

import simrt

import ref as R
import simenv as E
import world as W
import execs as X
from execs import Violation


class MErr(Exception):
    """the model's prediction: the request fails with one of these exception types"""

    def __init__(self, *kinds):
        super().__init__(kinds)
        self.kinds = kinds


def graycode(level, x, y):
    out = []
    for i in range(2 ** level):
        g = i ^ (i >> 1)
        out.append(''.join(y if g >> (level - 1 - b) & 1 else x for b in range(level)))
    return out


# ------------------------------------------------------------------ the model
class MTree:
    def __init__(self, cfg, data, wav):
        self.dim, self.w, self.m, self.lv = cfg['dim'], wav, cfg['m'], cfg['lv']
        nd = None if data is None else np.asarray(data).ndim
        ax = cfg['axes']
        if self.dim == 1:
            self.axes = (ax if ax >= 0 or nd is None else ax + nd,)
            self.parts = ('a', 'd')
        elif self.dim == 2:
            self.axes = tuple(ax)
            self.parts = ('a', 'h', 'v', 'd')
        else:
            self.axes = tuple(range(nd)) if ax is None else tuple(ax)
            self.parts = tuple(''.join(k) for k in product('ad', repeat=len(self.axes)))
        self.pl = len(self.parts[0])
        self.key = {'a': 'aa', 'h': 'da', 'v': 'ad', 'd': 'dd'} if self.dim == 2 else {p: p for p in self.parts}
        if self.lv is None:
            sh = np.asarray(data).shape
            self.lv = R.max_level(min(sh[a] for a in self.axes), wav.L)
        self.root = MNode(self, None, None if data is None else np.asarray(data), '')
        self.size = None if data is None else np.asarray(data).shape

    trace = None

    def changed(self):
        """a state a caller may see when the operation under way is cut short"""
        if self.trace is not None:
            self.trace()


class MNode:
    def __init__(self, t, parent, data, name):
        self.t, self.parent = t, parent
        self.path = '' if parent is None else parent.path + name
        self.level = 0 if parent is None else parent.level + 1
        self.data = data
        self.shape0 = None if data is None else data.shape
        self.sub = {p: None for p in t.parts}

    def decompose(self):
        t = self.t
        if not self.level < t.lv:
            raise MErr('ValueError')
        if self.data is None:
            raise MErr()                               # never generated
        x = self.data
        if x.size == 0 or any(m for m in [t.m in ('reflect', 'antireflect') and x.shape[a] == 1 for a in t.axes]):
            raise MErr('ValueError')
        n = len(t.axes)
        c = R.dwtn(x, [t.w] * n, [t.m] * n, t.axes)
        dt = R.out_dtype(x)
        for p in t.parts:
            self.sub[p] = MNode(t, self, c[t.key[p]].astype(dt), p)
        t.changed()

    def child(self, part, decompose):
        if part not in self.t.parts:
            raise MErr('ValueError')
        if self.sub[part] is None and decompose and self.data is not None:
            self.decompose()
        return self.sub[part]

    def get(self, path):
        if len(path) > self.t.lv * self.t.pl:
            raise MErr('IndexError')
        if not path:
            return self
        c = self.child(path[:self.t.pl], True)
        if c is None:
            raise MErr('TypeError', 'KeyError', 'ValueError', 'IndexError')
        return c.get(path[self.t.pl:])

    def set(self, path, data):
        if len(self.path) + len(path) > self.t.lv * self.t.pl:
            raise MErr('IndexError')
        if path:
            p = path[:self.t.pl]
            c = self.child(p, False)
            if c is None:
                c = self.sub[p] = MNode(self.t, self, None, p)
                self.t.changed()
            c.set(path[self.t.pl:], data)
        else:
            self.data = np.asarray(data).astype(R.out_dtype(data))

    def delete(self, path):
        n = self.get(path)
        n.parent.sub[n.path[-self.t.pl:]] = None
        n.parent = None

    def any_sub(self):
        return any(v is not None for v in self.sub.values())

    def rec(self):
        """value of the node as its subnodes imply it"""
        if not self.any_sub():
            return self.data
        t = self.t
        c = {t.key[p]: (n.rec() if n is not None else None) for p, n in self.sub.items()}
        c = {k: v for k, v in c.items() if v is not None}
        if not c:
            raise MErr('ValueError')
        shapes = {v.shape for v in c.values()}
        if len(shapes) > 1:
            raise MErr('ValueError', 'RuntimeError')
        sh = next(iter(shapes))
        if any(R.idwt_len(sh[a], t.w.L, t.m) < 1 for a in t.axes):
            raise MErr('ANY')              # coefficients shorter than the filter: nothing to reconstruct
        n = len(t.axes)
        r = R.idwtn(c, [t.w] * n, [t.m] * n, t.axes)
        r = r.astype(np.result_type(*[R.out_dtype(v) for v in c.values()]))
        if self.shape0 is not None:
            r = r[tuple(slice(s) for s in self.shape0)]
        return r

    def reconstruct(self, update):
        if not self.any_sub():
            return self.data
        r = self.rec()
        if self.parent is None and self is self.t.root and self.t.size is not None:
            r = r[tuple(slice(s) for s in self.t.size)]
        if update:
            self.data = r
        return r

    def walk(self, f, decompose):
        if f(self) and self.level < self.t.lv:
            for p in self.t.parts:
                c = self.child(p, decompose)
                if c is not None:
                    c.walk(f, decompose)

    def walk_depth(self, f, decompose):
        if self.level < self.t.lv:
            for p in self.t.parts:
                c = self.child(p, decompose)
                if c is not None:
                    c.walk_depth(f, decompose)
        f(self)

    def leaves(self, decompose):
        out = []

        def f(n):
            if n.level == self.t.lv and n.data is not None or not decompose and not n.any_sub():
                out.append(n)
                return False
            return True
        self.walk(f, decompose)
        return out

    def get_level(self, level, order, decompose):
        t = self.t
        if order not in ('natural', 'freq') or level > t.lv:
            raise MErr('ValueError')
        out = []

        def f(n):
            if n.level == level:
                out.append(n)
                return False
            return True
        self.walk(f, decompose)
        if order == 'natural':
            return out
        if t.dim == 1:
            d = {n.path: n for n in out}
            return [d[p] for p in graycode(level, 'a', 'd') if p in d]
        rows = {}
        for n in out:
            r = ''.join({'a': 'l', 'h': 'h', 'v': 'l', 'd': 'h'}[c] for c in n.path)
            k = ''.join({'a': 'l', 'h': 'l', 'v': 'h', 'd': 'h'}[c] for c in n.path)
            rows.setdefault(r, {})[k] = n
        g = graycode(level, 'l', 'h')
        return [[rows[r][k] for k in g if k in rows[r]] for r in g if r in rows]


def mimage(n, deep=True):
    return (n.path, None if n.data is None else n.data, {p: mimage(c) for p, c in n.sub.items() if c is not None})


def show(v):
    """result of a model or real operation as comparable values"""
    if isinstance(v, MNode) or hasattr(v, 'get_subnode'):
        return [v.path, v.level, None if v.data is None else np.array(np.asarray(v.data))]
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, np.ndarray):
        return np.array(v)
    return v


# ------------------------------------------------------------------ real side
def build(P, cfg, objs):
    d = cfg['data']
    if d is not None:
        d = W.resolve(d, objs)
        if cfg.get('aslist'):
            d = d.tolist()
    w = W.resolve(cfg['w'], objs)
    kw = {'mode': cfg['m']}
    if cfg['lv'] is not None:
        kw['maxlevel'] = cfg['lv']
    if cfg['dim'] == 1:
        return P.WaveletPacket(d, w, axis=cfg['axes'], **kw)
    ax = None if cfg['axes'] is None else tuple(cfg['axes'])
    if cfg['dim'] == 2:
        return P.WaveletPacket2D(d, w, axes=ax, **kw)
    return P.WaveletPacketND(d, w, axes=ax, **kw)


def rdata(d):
    return None if d is None else np.asarray(d)


def rimage(n, parts, ml):
    """tree below n, read without any side effect; also checks the invariants every node must satisfy"""
    sub = {}
    for p in parts:
        c = n.get_subnode(p, False)
        if c is not None:
            if c.path != n.path + p or c.level != n.level + 1 or c.node_name != p:
                raise Violation('structure', 'node under %r part %r calls itself %r level %d' % (n.path, p, c.path, c.level))
            if c.parent is not n:
                raise Violation('structure', 'node %r does not point back at its parent' % c.path)
            if c.mode != n.mode or c.axes != n.axes or c.wavelet is not n.wavelet:
                raise Violation('structure', 'node %r has other transform settings than its parent' % c.path)
            sub[p] = rimage(c, parts, ml)
    if n.has_any_subnode != bool(sub) or n.is_empty != (n.data is None) or n.maxlevel != ml:
        raise Violation('structure', 'node %r: has_any_subnode %s, is_empty %s, maxlevel %s contradict its state' % (
            n.path, n.has_any_subnode, n.is_empty, n.maxlevel))
    if len(n.path_tuple) != n.level or ''.join(n.path_tuple) != n.path:
        raise Violation('structure', 'node %r: path_tuple %r' % (n.path, n.path_tuple))
    return (n.path, rdata(n.data), sub)


def same_data(a, b, tol, sc):
    if a is None or b is None:
        return (a is None) == (b is None)
    return W.differ(a, b, tol, loose=True, scale0=sc) is None


def diff_image(r, m, tol, sc):
    if not same_data(r[1], m[1], tol, sc):
        if r[1] is None or m[1] is None:
            return 'node %r is %s, the model says %s' % (m[0], *['empty' if v[1] is None else 'filled' for v in (r, m)])
        return 'node %r: %s' % (m[0], W.differ(r[1], m[1], tol, 'data', True, sc))
    if set(r[2]) != set(m[2]):
        return 'node %r has subnodes %s, the model says %s' % (m[0], sorted(r[2]), sorted(m[2]))
    for p in m[2]:
        d = diff_image(r[2][p], m[2][p], tol, sc)
        if d:
            return d
    return None


class Sim:
    """one tree with its model, a node-handle table, and the durable checkpoint"""

    def __init__(self, P, plan, st):
        self.P, self.plan, self.st = P, plan, st
        self.objs = W.build_real(P, plan['world'])
        self.robjs = W.build_ref(plan['world'])
        self.pool = X.Pool(self.objs)
        cfg = plan['tree']
        self.tol, self.sc = X.tolerance(plan['world'], None)
        self.tol = max(self.tol, 1e-8)
        d = None if cfg['data'] is None else self.robjs[cfg['data']['$']]
        self.model = MTree(cfg, d, W.resolve(cfg['w'], self.robjs))
        self.tree = build(P, cfg, self.objs)
        self.held = {}
        self.mheld = {}
        self.durable = None
        self.copies = []

    # --- one operation on the real tree / on the model
    def real(self, o):
        a, n = o['a'], self.tree
        if a.get('on') is not None:
            n = self.held.get(a['on'], self.tree)
        k = o['op']
        path = a.get('path')
        if isinstance(path, dict):
            path = tuple(path['T'])
        if k == 'get':
            v = n[path]
            self.keep = v
            return v
        if k == 'sub':
            return n.get_subnode(path, a['dec'])
        if k == 'set':
            n[path] = self.value(a, self.objs, self.held, self.tree)
            return None
        if k == 'del':
            del n[path]
            return None
        if k == 'dec':
            v = n[path].decompose()
            return [x for x in v] if a.get('list') else None
        if k == 'rec':
            if n is self.tree and a.get('dflt'):
                return n.reconstruct()
            return n.reconstruct(update=a['upd'])
        if k == 'nrec':
            return n[path].reconstruct(update=a['upd'])
        if k == 'level':
            if self.model.dim == 'n':
                return n.get_level(a['l'], decompose=a['dec'])
            return n.get_level(a['l'], a['order'], a['dec'])
        if k == 'leaves':
            return n.get_leaf_nodes(a['dec'])
        if k in ('walk', 'wdepth'):
            out = []

            def f(node, lim):
                out.append(node)
                return node.level < lim
            getattr(n, 'walk' if k == 'walk' else 'walk_depth')(f, (a['lim'],), decompose=a['dec'])
            return out
        if k == 'str':
            return str(n)[:len(n.path) + 1]
        raise AssertionError(k)

    def value(self, a, objs, held, tree):
        v = a['v']
        if v['k'] == 'node':
            n = held.get(v['slot'], tree)
            return n
        x = objs[v['i']] if 'i' in v else v['x']
        return x.tolist() if v.get('list') else x

    def mod(self, o):
        a, n = o['a'], self.model.root
        if a.get('on') is not None:
            n = self.mheld.get(a['on'], self.model.root)
        k = o['op']
        path = a.get('path')
        if isinstance(path, dict):
            if k in ('set',):
                raise MErr('TypeError')
            path = ''.join(path['T'])
        if not isinstance(path, str) and k in ('get', 'set', 'del', 'dec', 'nrec'):
            raise MErr('TypeError')
        if k == 'get':
            return n.get(path)
        if k == 'sub':
            return n.child(path, a['dec'])
        if k == 'set':
            v = self.value(a, self.robjs, self.mheld, self.model.root)
            if isinstance(v, MNode):
                v = v.data
            n.set(path, v)
            return None
        if k == 'del':
            return n.delete(path)
        if k == 'dec':
            x = n.get(path)
            x.decompose()
            return [x.sub[p] for p in self.model.parts] if a.get('list') else None
        if k == 'rec':
            return n.reconstruct(True if n is self.model.root and a.get('dflt') else a['upd'])
        if k == 'nrec':
            return n.get(path).reconstruct(a['upd'])
        if k == 'level':
            return n.get_level(a['l'], a['order'], a['dec'])
        if k == 'leaves':
            return n.leaves(a['dec'])
        if k in ('walk', 'wdepth'):
            out = []

            def f(node):
                out.append(node)
                return node.level < a['lim']
            (n.walk if k == 'walk' else n.walk_depth)(f, a['dec'])
            return out
        if k == 'str':
            return n.path + ':'
        raise AssertionError(k)

    def ambiguous(self, o):
        """requests whose meaning nobody has defined: assigning an empty node, decomposing an
        empty node, deleting a node from itself,
        reconstructing from coefficients shorter than the filter"""
        if o['op'] == 'set' and o['a']['v']['k'] == 'node':
            return self.mheld.get(o['a']['v']['slot'], self.model.root).data is None
        if o['op'] == 'del' and o['a']['path'] in ('', {'T': []}):
            return True
        if o['op'] in ('rec', 'nrec'):
            keep = self.model, self.mheld
            self.model, self.mheld = self.fork_model()
            try:
                self.mod(o)
            except MErr as e:
                return 'ANY' in e.kinds
            finally:
                self.model, self.mheld = keep
        if o['op'] == 'dec':
            m, held = self.fork_model()
            n = held.get(o['a'].get('on')) if o['a'].get('on') is not None else None
            p = o['a'].get('path')
            try:
                n = (n or m.root).get(p if isinstance(p, str) else ''.join(p['T']) if isinstance(p, dict) else '')
                return n.data is None
            except MErr:
                return False
        return False

    def fork_model(self):
        t, self.model.trace = self.model.trace, None
        m = copy.deepcopy((self.model, self.mheld))
        self.model.trace = t
        return m

    def diff_state(self, model, mheld):
        """None when the tree and every node handle the caller kept agree with the model"""
        d = diff_image(rimage(self.tree, model.parts, model.lv), mimage(model.root), self.tol, self.sc)
        for k in self.held:
            if d:
                return d
            d = diff_image(rimage(self.held[k], model.parts, model.lv), mimage(mheld[k]), self.tol, self.sc)
            if d:
                d = 'kept node: ' + d
        return d

    def compare(self, where):
        d = self.diff_state(self.model, self.mheld)
        if d:
            raise Violation('state', '%s: %s' % (where, d))
        i = self.pool.changed()
        if i is not None:
            raise Violation('mutated', '%s: %s was modified' % (where, X.describe(self.plan, i)))
        ch = self.amb.changed() if self.amb else None
        if ch:
            raise Violation('ambient', '%s: %s' % (where, ch))

    amb = None

    def counts(self, f):
        """events the step produces from here when nothing is injected (measured in a copy of the process)"""
        def one():
            simrt.arm()
            E.events(False)
            try:
                X.outcome_of(f)
            finally:
                pass
            c = simrt.disarm()
            return {'c': c[0], 'np': c[1], 'lines': c[2]}
        return X.fork_call(one)

    def attached(self, path, on):
        if isinstance(path, dict):
            path = ''.join(path['T'])
        if not isinstance(path, str) or any(path[i:i + self.model.pl] not in self.model.parts
                                            for i in range(0, len(path), self.model.pl)):
            return True
        n = self.held.get(on, self.tree) if on is not None else self.tree
        pl = self.model.pl
        while path:
            n = n.get_subnode(path[:pl], False)
            if n is None:
                return False
            path = path[pl:]
        return True

    def step(self, i, o):
        st = self.st
        st['ops'] = st.get('ops', 0) + 1
        k = o['op']
        probe = st.setdefault('probes', {})
        probe[k] = probe.get(k, 0) + 1
        if k in ('ckpt', 'dcopy', 'swap'):
            return getattr(self, 'op_' + k)(i, o)
        where = 'step %s (%s %s)' % (i, k, {q: v for q, v in o['a'].items() if q != 'v'})
        if self.ambiguous(o):
            return
        f = o.get('fault')
        states = []
        if f:
            cnt = self.counts(lambda: self.real(o))
            states.append(self.fork_model())
            self.model.trace = lambda: states.append(self.fork_model())
        exp = self.expect(o)
        self.model.trace = None
        if f:
            states.append(self.fork_model())
            kk = X.arm(f, cnt)
        res = {}

        def go():
            res['v'] = self.real(o)
        out = X.outcome_of(go)
        if f:
            _, fired = X.disarm(kk)
            w = where
            if fired:
                st['faults'][fired] = st['faults'].get(fired, 0) + 1
                w += ' with fault %s at %.4f' % (fired, f['frac'])
            if out[0] == 'exc' and fired and not (exp[0] == 'exc' and out[1] in exp[1]) and X.clean_failure(
                    out, fired, ('ok',)):
                st['clean'] = st.get('clean', 0) + 1
                why = None
                for m, held in states:
                    d = self.diff_state(m, held)
                    if d is None:
                        break
                    why = why or d
                else:
                    raise Violation('fault', '%s failed and left the tree in a state no step of the operation '
                                    'passes through (nearest: %s)' % (w, why))
                self.model, self.mheld = m, held
                if k == 'del' and not self.attached(o['a']['path'], o['a'].get('on')):
                    return                                # the failed deletion had already taken effect
                exp = self.expect(o)
                out = X.outcome_of(go)
                w = 'the retry of ' + w
            elif fired:
                st['survived'] = st.get('survived', 0) + 1
            where = w
        if exp[0] == 'exc':
            if out[0] != 'exc' or out[1] not in exp[1]:
                raise Violation('result', '%s: %s, the model predicts %s' % (where, X.brief(out), '/'.join(exp[1])))
        elif out[0] == 'exc':
            raise Violation('result', '%s: %s, the model succeeds' % (where, X.brief(out)))
        else:
            if exp[1] is not None or res['v'] is not None:
                d = diff_val(show(res['v']), exp[1], self.tol, self.sc)
                if d:
                    raise Violation('result', '%s: %s' % (where, d))
            if k == 'get' and o['a'].get('keep') is not None:
                self.held[o['a']['keep']] = res['v']
                self.mheld[o['a']['keep']] = exp[2]
        self.compare(where)

    def expect(self, o):
        try:
            v = self.mod(o)
            return 'ok', show(v), v
        except MErr as e:
            return 'exc', e.kinds, None

    # --- durability
    def faulty(self, o, f, where):
        """run f under the step's fault; -> value or None when it failed cleanly"""
        flt = o.get('fault')
        cnt = self.counts(f) if flt else None
        kk = X.arm(flt, cnt)
        res = {}

        def go():
            res['v'] = f()
        out = X.outcome_of(go)
        _, fired = X.disarm(kk)
        if fired:
            self.st['faults'][fired] = self.st['faults'].get(fired, 0) + 1
        if out[0] == 'exc':
            if fired and X.clean_failure(out, fired, ('ok',)):
                self.st['clean'] = self.st.get('clean', 0) + 1
                return None
            raise Violation('result', '%s: %s' % (where, X.brief(out)))
        return res['v']

    def op_ckpt(self, i, o):
        where = 'step %s (checkpoint)' % i
        proto = o['a'].get('proto', 4)
        s = self.faulty(o, lambda: pickle.dumps(self.tree, proto), where)
        if s is not None:
            self.durable = (s, copy.deepcopy(self.model))
            self.probe(i, o, lambda: pickle.loads(s))
        self.compare(where)

    def restore(self, o, where):
        """first thing a restarted process does: load the last durable checkpoint"""
        s, m = self.durable
        t = self.faulty(o, lambda: pickle.loads(s), where)
        if t is None:
            t = pickle.loads(s)
        self.tree, self.model = t, copy.deepcopy(m)
        self.meta(where)
        self.compare(where)

    def meta(self, where):
        t, m, cfg = self.tree, self.model, self.plan['tree']
        ax = t.axes if isinstance(t.axes, tuple) else (t.axes,)
        if tuple(ax) != tuple(m.axes) or t.mode != m.m or t.maxlevel != m.lv:
            raise Violation('restore', '%s: axes %r mode %r maxlevel %r instead of %r %r %r' % (
                where, t.axes, t.mode, t.maxlevel, m.axes, m.m, m.lv))
        ref = build(self.P, cfg, self.objs).wavelet
        if W.digest(ref) != W.digest(t.wavelet):
            raise Violation('restore', '%s: the wavelet of the restored tree differs' % where)
        if type(t).__name__ != {1: 'WaveletPacket', 2: 'WaveletPacket2D'}.get(cfg['dim'], 'WaveletPacketND'):
            raise Violation('restore', '%s: restored as %s' % (where, type(t).__name__))

    def op_dcopy(self, i, o):
        """an independent copy; the original lives on and must not notice what happens to the copy, nor vice versa"""
        where = 'step %d (deep copy)' % i
        t = self.faulty(o, lambda: copy.deepcopy(self.tree), where)
        if t is None:
            t = copy.deepcopy(self.tree)
        self.copies.append((t, copy.deepcopy(self.model)))
        if o['a'].get('scrib'):
            # the arrays are copies too: overwriting them in place reaches nobody else
            u = copy.deepcopy(t)
            todo = [u]
            while todo:
                n = todo.pop()
                if isinstance(n.data, np.ndarray) and n.data.flags.writeable:
                    n.data[...] = 77
                todo += [q for q in (n.get_subnode(x, False) for x in self.model.parts) if q is not None]
            self.compare(where + ', after overwriting the data of a copy')
        self.check_copies(where)
        self.probe(i, o, lambda: copy.deepcopy(t))

    def probe(self, i, o, make):
        """what a copy looks like is not all it is: work on one more copy, which is then thrown away"""
        if not o['a'].get('probe'):
            return
        keep = self.tree, self.model, self.held, self.mheld
        self.tree, self.model, self.held, self.mheld = make(), copy.deepcopy(self.model), {}, {}
        try:
            for q in o['a']['probe']:
                self.step('%s, on a throw-away copy,' % i, q)
        finally:
            self.tree, self.model, self.held, self.mheld = keep

    def op_swap(self, i, o):
        """go on working on a copy made earlier"""
        if self.copies:
            n = o['a'].get('n', 0) % len(self.copies)
            t, m = self.copies[n]
            self.copies[n] = (self.tree, self.model)
            self.tree, self.model = t, m
            self.held, self.mheld = {}, {}
            self.meta('step %d (continue on a copy)' % i)
            self.compare('step %d (continue on a copy)' % i)

    def check_copies(self, where):
        for t, m in self.copies:
            d = diff_image(rimage(t, m.parts, m.lv), mimage(m.root), self.tol, self.sc)
            if d:
                raise Violation('copy', '%s: an independent copy of the tree changed: %s' % (where, d))


def diff_val(a, b, tol, sc):
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return 'returned %s items instead of %d' % (len(a) if isinstance(a, list) else a, len(b))
        for x, y in zip(a, b):
            d = diff_val(x, y, tol, sc)
            if d:
                return d
        return None
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        if a is None or b is None:
            return 'returned %s' % ('nothing' if a is None else 'a value instead of nothing')
        return W.differ(np.asarray(a), b, tol, 'value', True, sc)
    return None if a == b else 'returned %r instead of %r' % (a, b)


def segment(P, plan, start, durable):
    """one process lifetime: from step `start` to the next crash (or the end)"""
    st = {'faults': {}, 'probes': {}}
    mem = plan.get('mem', {})
    simrt.memcfg(mem.get('poison', 0), mem.get('align', 0), 0)
    simrt.npmem(1)
    simrt.solo(1, X.LIM)
    E.events(False)
    s = Sim(P, plan, st)
    s.amb = X.Ambient() if plan.get('ambient') else None
    s.durable = durable
    steps = plan['threads'][0]
    if start:
        st['probes']['restart' if durable else 'restart_without_checkpoint'] = 1
        if durable:
            s.restore(steps[start - 1], 'step %d (restart from the last checkpoint)' % (start - 1))
    s.compare('after construction')
    nxt = None
    for i in range(start, len(steps)):
        o = steps[i]
        if o['op'] == 'crash':
            nxt = i + 1
            break
        s.step(i, o)
        if s.copies:
            s.check_copies('step %d (%s)' % (i, o['op']))
    rep = simrt.report()
    E.events(False, False)
    simrt.sweep()
    m = simrt.mem()
    if m[6]:
        raise Violation('memory', 'allocator reports damage (%d)' % m[6])
    X.finish(st, rep, plan)
    st.pop('switches')
    return nxt, s.durable, st


# ------------------------------------------------------------------ a short tree history as one call
def _steps(a):
    for o in a['steps']:
        q = dict(o['a'])
        if isinstance(q.get('path'), tuple):
            q['path'] = {'T': list(q['path'])}
        yield {'op': o['op'], 'a': q}


def call_real(P, a):
    """build a tree, run the steps, return what every step returned and the final state"""
    s = Sim.__new__(Sim)
    s.P, s.held, s.mheld, s.objs = P, {}, {}, None
    s.model = type('Dim', (), {'dim': a['cfg']['dim']})
    s.tree = build(P, a['cfg'], None)
    cfg = a['cfg']
    if cfg['dim'] == 'n':
        k = np.ndim(cfg['data']) if cfg['axes'] is None else len(cfg['axes'])
        parts = [''.join(q) for q in product('ad', repeat=k)]
    else:
        parts = 'ad' if cfg['dim'] == 1 else 'ahvd'
    out = []
    for o in _steps(a):
        if o['op'] in ('pick', 'deep'):
            t = pickle.loads(pickle.dumps(s.tree, o['a']['proto'])) if o['op'] == 'pick' else copy.deepcopy(s.tree)
            if o['a']['go']:
                s.tree, s.held = t, {}
            else:
                out.append(raw_image(t, parts))
            continue
        v = s.real(o)
        if o['op'] == 'get' and o['a'].get('keep') is not None:
            s.held[o['a']['keep']] = v
        out.append(np.array(np.asarray(v)) if o['op'] in ('rec', 'nrec') and v is not None else show(v))
    out.append(raw_image(s.tree, parts))
    return out


def raw_image(n, parts):
    d = None if n.data is None else np.array(np.asarray(n.data))
    return [n.path, d, [raw_image(c, parts) for c in (n.get_subnode(p, False) for p in parts) if c is not None]]


def model_image(n):
    return [n.path, n.data, [model_image(n.sub[p]) for p in n.t.parts if n.sub[p] is not None]]


def call_ref(a):
    s = Sim.__new__(Sim)
    cfg = a['cfg']
    d = cfg['data']
    s.model, s.mheld, s.robjs = MTree(cfg, None if d is None else np.asarray(d), cfg['w']), {}, None
    out = []
    try:
        for o in _steps(a):
            if o['op'] in ('pick', 'deep'):
                if o['a']['go']:
                    s.mheld = {}
                else:
                    out.append(model_image(s.model.root))
                continue
            if s.ambiguous(o):
                return NotImplemented
            v = s.mod(o)
            if o['op'] == 'get' and o['a'].get('keep') is not None:
                s.mheld[o['a']['keep']] = v
            out.append(show(v))
    except MErr:
        return NotImplemented
    out.append(model_image(s.model.root))
    return out


@X.kind('tree')
def exec_tree(P, plan, st):
    """A crash ends the process; the next segment runs in a fresh fork of the pristine image, which has never seen the
    tree, and gets nothing but the bytes of the last completed checkpoint."""
    start, durable, h = 0, None, 0
    st.update(faults={}, probes={}, kinds=[], switches=[], inter=0, nsw=0)
    forks = any(o['op'] == 'crash' for o in plan['threads'][0])
    while True:
        run = (lambda: segment(P, plan, start, durable))
        start, durable, s = X.fork_call(run, 'during the history') if forks else run()
        for k in ('faults', 'probes'):
            for q, v in s.pop(k).items():
                st[k][q] = st[k].get(q, 0) + v
        for k in ('ops', 'steps', 'clean', 'survived'):
            st[k] = st.get(k, 0) + s.get(k, 0)
        h = hash((h, int(s['digest'], 16)))
        st['digest'] = '%016x' % (h & (2 ** 64 - 1))
        st['sample'] = s['sample']
        if start is None:
            return


@X.kind('lazy')
def exec_lazy(P, plan, st):
    """several threads read one shared tree, which decomposes itself lazily underneath them"""
    mem = plan.get('mem', {})
    simrt.memcfg(mem.get('poison', 0), mem.get('align', 0), 0)
    simrt.npmem(1)
    probe = st.setdefault('probes', {})
    st['faults'] = {}

    def alone(i):
        """the same reads by one thread on a tree of its own"""
        simrt.solo(1, X.LIM)
        E.events(False)
        s = Sim(P, plan, {'faults': {}})
        simrt.arm()
        out = [X.outcome_of(lambda o=o: show(s.real(o))) for o in X.flat(plan['threads'][i])]
        rep = simrt.report()
        return out, rep['csteps'] + rep['pysteps'], rep['pysteps']
    base = [X.fork_call(lambda i=i: alone(i)) for i in range(len(plan['threads']))]
    steps = sum(b[1] for b in base)
    # the sequential result against the model
    simrt.solo(1, X.LIM)
    E.events(False)
    s = Sim(P, plan, st)
    n = 0
    for i, t in enumerate(plan['threads']):
        ms = Sim.__new__(Sim)
        ms.__dict__.update(s.__dict__)
        ms.model, ms.mheld = copy.deepcopy(s.model), {}
        for o, out in zip(X.flat(t), base[i][0]):
            try:
                exp = ('ok', show(ms.mod(o)))
            except MErr as e:
                exp = ('exc', e.kinds)
            n += 1
            d = None
            if exp[0] != out[0] or exp[0] == 'exc' and out[1] not in exp[1]:
                d = '%s, the model predicts %s' % (X.brief(out), exp[1] if exp[0] == 'exc' else 'a value')
            elif exp[0] == 'ok':
                d = diff_val(out[1], exp[1], s.tol, s.sc)
            if d:
                raise Violation('reference', 'caller %d (%s %s) run alone: %s' % (i, o['op'], o['a'], d))
    st['refs'] = n
    for o in plan.get('pre', []):
        s.real(o)
    simrt.solo(0)
    sched = dict(plan['sched'])
    sched['max_steps'] = 60 * steps + 3_000_000
    viols = []

    def thread(ti):
        bi = -1
        for oi, o in enumerate(plan['threads'][ti]):
            if o['op'] == 'fork':
                try:
                    outs = X.fork_call(lambda: forked(o), 'in a child process forked by thread %d' % ti)
                except Violation as v:
                    viols.append(('fork', v.msg))
                    return
                st['faults']['fork'] = st['faults'].get('fork', 0) + 1
                for q, out in zip(o['a']['ops'], outs):
                    bi += 1
                    if not judge(out, base[ti][0][bi], 'caller %d step %d (%s %s in a forked child)' % (
                            ti, oi, q['op'], q['a'])):
                        return
                continue
            bi += 1
            out = X.outcome_of(lambda: show(s.real(o)))
            st['ops'] = st.get('ops', 0) + 1
            probe[o['op']] = probe.get(o['op'], 0) + 1
            if not judge(out, base[ti][0][bi], 'caller %d step %d (%s %s)' % (ti, oi, o['op'], o['a'])):
                return

    def forked(o):
        simrt.die_fd(-1)
        simrt.solo(1, X.LIM)
        simrt.arm()
        return [X.outcome_of(lambda q=q: show(s.real(q))) for q in o['a']['ops']]

    def judge(out, b, where):
        d = None
        if out[0] != b[0] or out[0] == 'exc' and out[1] != b[1]:
            d = '%s, expected: %s' % (X.brief(out), X.brief(b))
        elif out[0] == 'ok':
            d = diff_val(out[1], b[1], s.tol, s.sc)
        if d:
            viols.append(('result', '%s: %s' % (where, d)))
        return not d
    E.events(bool(sched.get('instr')))
    rep = E.run_threads([lambda i=i: thread(i) for i in range(len(plan['threads']))], sched,
                        sum(b[2] for b in base))
    E.events(False, False)
    X.finish(st, rep, plan)
    if viols:
        raise Violation(*viols[0])
    # whatever was materialised must be the packet coefficients
    simrt.solo(1, X.LIM)

    def coherent(r, m):
        if not same_data(r[1], m.data, s.tol, s.sc):
            raise Violation('state', 'node %r of the shared tree ended with wrong data' % r[0])
        for p, c in r[2].items():
            coherent(c, m.child(p, True))
        if r[2] and set(r[2]) != set(s.model.parts):
            raise Violation('state', 'node %r of the shared tree ended with subnodes %s only' % (r[0], sorted(r[2])))
    coherent(rimage(s.tree, s.model.parts, s.model.lv), s.model.root)
    i = s.pool.changed()
    if i is not None:
        raise Violation('mutated', X.describe(plan, i))
