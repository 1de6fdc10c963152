"""Plan generators: (property, seed) -> plan.  Everything random about a run is drawn here from one PRNG."""
import json

import ops
import world as W
from ops import G, KIN, OPS, mutate_copy, names, rng, spoil

GEN = {}


def gen(prop):
    def deco(f):
        GEN[prop] = f
        return f
    return deco


def make(prop, seed, tier='quick'):
    r = rng('plan', prop, seed)
    p = GEN[prop](r, tier)
    p['prop'], p['seed'] = prop, seed
    return json.loads(json.dumps(p))


def sched(r, busy=False):
    s = {'seed': r.getrandbits(62), 'mean_py': r.choice([2, 4, 10, 30, 200, 1e12]),
         'mean_c': r.choice([2, 5, 20, 100, 1000, 1e12]), 'novel_py': r.choice([0, 0, .1, .4]),
         'novel_c': r.choice([0, 0.05, .3]), 'prel': r.choice([0, .1, .3, .7]), 'max_steps': 0,
         'instr': r.random() < (0.3 if busy else 0.1)}
    if s['mean_py'] > 1e9 and s['mean_c'] > 1e9 and not s['novel_py'] and not s['novel_c'] and s['prel'] < .3:
        s['prel'] = .5
    if r.random() < .25:          # few switches, at Python lines drawn uniformly over the whole run
        s.update(at=[r.random() for _ in range(r.choice([1, 1, 1, 2, 2, 3]))], mean_py=1e12, novel_py=0, novel_c=0,
                 prel=0, instr=False)
    return s


def mem(r):
    return {'poison': r.choice([0, 1, 1, 2, 3, 5]), 'align': r.choice([0, 0, r.randrange(1, 1 << 20)])}


def fault(r, kinds):
    k = r.choice(kinds)
    f = {'k': k, 'frac': r.random()}
    if k == 'int':
        f['ik'] = r.choice([0, 0, 1, 1, 2, 3])
    elif k != 'py' and r.random() < 0.15:
        f['sticky'] = 1
    if r.random() < 0.12:
        f['frac'] = r.choice([0.0, 0.999999])
    if r.random() < .5:               # the same call again, failing elsewhere
        f['more'] = [r.random() for _ in range(r.choice([1, 2, 4]))]
    return f


def one(g, pool, weights=None):
    n = g.r.choice(pool)
    o = {'op': n, 'a': OPS[n].gen(g)}
    if g.r.random() < .2:
        o['f'] = g.r.randrange(1, 32)
    if g.r.random() < .25:
        o['eph'] = 1                  # with objects built for this call and dropped after it
    x = g.r.random()
    if x < .03:
        odd_world(g, o, x < .015)
    return o


def odd_world(g, o, empty):
    """make the inputs of one operation unusual, beyond what the reference model covers: arrays without elements along
    one axis, or user-defined wavelets with filters of odd length"""
    todo, seen = list(W.refs_in(o['a'])), set()
    j = g.r.randrange(3)
    cut = g.r.choice([1, 1, 1, 3, 99])
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        s = g.world[i]
        if s['k'] in ('list', 'tuple', 'dict'):
            todo += W.refs_in(s['v'])
        elif empty and s['k'] == 'arr' and len(s['sh']) > 1:
            s['sh'][j % len(s['sh'])] = 0
        elif not empty and s['k'] == 'cust':
            s['cut'] = cut


def crowd(r, pool, nthreads, nops, g=None, same=None):
    """threads of ops; with high probability the threads do related work on shared or look-alike inputs"""
    g = g or G(r)
    x = r.random()
    if x < .03:                       # many callers
        nthreads, nops = r.randint(5, 8), 1
    theme = [one(g, pool) for _ in range(nops)]
    if x > .95:                       # a slow caller while others make many short calls
        o = theme[0]
        g.small = r.random() < .7
        return g, [[o]] + [[dict(o, a=mutate_copy(g, o)) if r.random() < .6 else {'op': o['op'], 'a': OPS[o['op']].gen(g)}
                            for _ in range(r.randint(3, 12))] for _ in range(r.choice([1, 1, 2]))]
    threads = []
    style = same or r.choice(['same', 'same', 'like', 'like', 'like', 'mix', 'free'])
    for t in range(nthreads):
        ops_ = []
        for o in theme:
            s = style if style != 'mix' else r.choice(['same', 'like', 'free'])
            if s == 'same' or t == 0:
                ops_.append(dict(o))
            elif s == 'like':
                if r.random() < 0.75:
                    ops_.append(dict(o, a=mutate_copy(g, o)))
                else:
                    ops_.append({'op': o['op'], 'a': OPS[o['op']].gen(g)})
            else:
                ops_.append(one(g, pool))
        if r.random() < 0.3:
            r.shuffle(ops_)
        threads.append(ops_)
    return g, threads


def conc(pool, r, wobj=0.0, bad=0.0):
    n = r.choice([2, 2, 2, 3, 3, 4])
    k = r.choice([1, 1, 2, 2, 3])
    g, th = crowd(r, pool, n, k)
    if r.random() < bad:
        th[r.randrange(len(th))].append(refusal(g))
    return {'kind': 'calls', 'world': g.world, 'threads': th, 'sched': sched(r), 'mem': mem(r)}


@gen('C01')
def _(r, tier):
    return conc(names('fwd', exclude=('pack', 'shapes')) + ['dwt', 'downcoef', 'swt', 'dwtn', 'wph'], r, bad=.1)


@gen('C02')
def _(r, tier):
    return conc(names('inv') + ['idwt', 'upcoef', 'iswtn', 'wph', 'wp1'], r, bad=.1)


def hist(r, pool, lo, hi, faults, pf=.5, bad=.1, g=None, repeat=.35):
    """a single caller's history; some steps repeat an earlier step or its look-alike"""
    g = g or G(r)
    out = []
    for _ in range(r.randint(lo, hi)):
        x = r.random()
        if out and x < repeat:
            o = r.choice(out)
            o = dict(o, a=o['a'] if r.random() < .5 else mutate_copy(g, o))
            o.pop('fault', None)
        elif x > 1 - bad:
            o = refusal(g, r.choice(out) if out else None)
        else:
            o = one(g, pool)
        if faults and r.random() < pf:
            o['fault'] = fault(r, faults)
        out.append(o)
    return {'kind': 'calls', 'world': g.world, 'threads': [out], 'sched': sched(r), 'mem': mem(r)}


def marathon(r, pool):
    """one caller making very many small calls of one or two kinds"""
    g = G(r)
    g.small = True
    pool = r.sample(pool, r.choice([1, 1, 2]))
    out = []
    for _ in range(r.randint(25, 110)):
        x = r.random()
        if out and x < .25:
            o = r.choice(out)
            out.append(dict(o, a=o['a'] if x < .18 else mutate_copy(g, o)))
        else:
            out.append(one(g, pool))
    return {'kind': 'calls', 'world': g.world, 'threads': [out], 'sched': sched(r), 'mem': mem(r)}


ALL = names('fwd', 'inv', 'cw', 'wobj', 'hist', 'pkg', 'alias') + ['wph'] * 4


@gen('C03')
def _(r, tier):
    pool = names('wobj', 'cw') * 2 + ['alias', 'dwt', 'wavedec', 'dwtn', 'idwt', 'swt', 'fswavedecn', 'swt2', 'wph', 'wph', 'dataset']
    if r.random() < .015:
        p = marathon(r, pool)
        p['scribble'] = int(r.random() < .5)
        return p
    g = G(r)
    n = r.choice([2, 2, 3, 3, 4])
    g, th = crowd(r, pool, n, r.choice([1, 2, 2, 3]), g=g)
    return {'kind': 'calls', 'world': g.world, 'threads': th, 'sched': sched(r, True), 'mem': mem(r),
            'scribble': int(r.random() < .5)}


def other(r, tree, objs, data, faults, disk=True, **extra):
    """with the given probabilities a history on a packet tree, on persistent objects or on the data sets"""
    x = r.random()
    p = None
    if x < tree:
        w = dict(WT, ckpt=.5, dcopy=.5, swap=.5)
        p = tree_plan(r, [1, 2, 'n'], w, 2, 10, faults)
    elif x < tree + objs:
        p = objs_plan(r, [None, None, 'fs'], faults)
    elif x < tree + objs + data:
        p = data_plan(r, [f for f in faults if f != 'c'], disk)
    if p:
        p.update(extra)
    return p


@gen('C04')
def _(r, tier):
    ks = r.choice([['c'], ['c', 'np'], ['np'], ['c', 'c', 'np'], ['py', 'c']])
    p = other(r, .1, .04, .03, ['c', 'np', 'py'], False)
    if p:
        return p
    if r.random() < .3:
        p = conc(ALL, r, bad=.1)
        for t in p['threads']:
            for o in t:
                if r.random() < .5:
                    o['fault'] = fault(r, ks)
        return p
    p = hist(r, ALL, 1, 5, ks, .85)
    return p


@gen('C05')
def _(r, tier):
    p = hist(r, ALL, 1, 4, ['c', 'np', 'int', 'np', 'c', 'py'], r.choice([0, .5, .9]), bad=.15)
    p['kind'] = 'leak'
    return p


@gen('C06')
def _(r, tier):
    pool = ALL + ['pack'] * 4
    p = conc(pool, r, bad=.15) if r.random() < .35 else hist(r, pool, 1, 5, None, 0, bad=.15)
    p['mem'] = {'poison': r.choice([1, 1, 2, 3, 5, 9]), 'align': r.randrange(1, 1 << 20)}
    p['scribble'] = 1
    return p


@gen('C07')
def _(r, tier):
    p = other(r, .1, .03, .02, ['c', 'np', 'int'])
    if p:
        return p
    if r.random() < .3:
        p = conc(ALL, r, bad=.3)
        for t in p['threads']:
            for o in t:
                if r.random() < .4:
                    o['fault'] = fault(r, ['c', 'np', 'int'])
    else:
        p = hist(r, ALL, 1, 6, ['c', 'np', 'int', 'int'], r.choice([0, .5, .8]), bad=.2)
    p['ref'] = 0
    return p


@gen('C08')
def _(r, tier):
    p = other(r, .3, .05, .05, ['int'], False)
    if p:
        return p
    if r.random() < .3:
        p = conc(ALL, r)
        for t in p['threads']:
            for o in t:
                if r.random() < .6:
                    o['fault'] = fault(r, ['int'])
        p['ambient'] = 2
        return p
    p = hist(r, ALL, 1, 6, ['int'], .85)
    p['ambient'] = 1
    return p


@gen('C09')
def _(r, tier):
    p = other(r, .07, .05, .03, ['c', 'np', 'int'], ambient=1)
    if p:
        return p
    if r.random() < .2:
        p = conc([n for n in ALL if n != 'ambient'], r, bad=.2)
        p['ambient'] = 2
        if r.random() < .4:
            for t in p['threads']:
                for o in t:
                    if r.random() < .5:
                        o['fault'] = fault(r, ['c', 'np', 'int'])
        return p
    if r.random() < .015:
        p = marathon(r, names('fwd', 'inv', 'cw', 'wobj') + names('cw') * 3)
        p['iso'], p['ambient'], p['scribble'] = 'fork', 1, int(r.random() < .5)
        return p
    p = hist(r, ALL + ['ambient'] * 8, 2, 9, r.choice([None, ['int'], ['c', 'np', 'int']]), .4, bad=.2, repeat=.55)
    p['iso'], p['ambient'], p['scribble'] = 'fork', 1, int(r.random() < .5)
    return p


# ------------------------------------------------------------------ packet trees
from itertools import product as _product  # noqa: E402

import ref as _R  # noqa: E402


class TG:
    """generator of packet-tree plans"""

    def __init__(self, r, dims, empty=.15, lv_cost=2e5, g=None):
        self.r, self.g = r, g or G(r)
        self.dim = r.choice(dims)
        g = self.g
        if self.dim == 1:
            nd = r.choice([1, 1, 1, 2, 3])
            k, hi, self.lvmax = 1, {1: 40, 2: 10, 3: 7}[nd], 4
        elif self.dim == 2:
            nd = r.choice([2, 2, 2, 3])
            k, hi, self.lvmax = 2, 13, 3
        else:
            nd = r.choice([1, 2, 2, 3, 3])
            k = r.randint(1, nd)
            hi, self.lvmax = {1: 24, 2: 11, 3: 7}[nd], {1: 4, 2: 2, 3: 2}[k]
        sh = [r.randint(2, hi) for _ in range(nd)]
        axes = r.sample(range(nd), k)
        if r.random() < .5 and self.dim != 1:
            axes = list(range(nd))[-k:] if r.random() < .5 else axes
        self.ax = list(axes)
        neg = [a - nd if r.random() < .4 else a for a in axes]
        self.data = None
        self.m = g.mode()
        self.wild = self.m in ('smooth', 'antireflect')       # extrapolation amplifies rounding
        dt = self.pickdt(0.15)
        if r.random() > empty:
            self.data = g.arr(sh, dt, lay=r.choice(['C', 'C', 'C', 'F', 'neg', 'step', 'view']))
        self.sh, self.dt = sh, g.world[-1]['dt'] if self.data else dt
        w, self.rw = g.wav(0.04, name=r.choice(['haar', 'db2', 'bior1.3', 'sym3', 'rbio2.2', 'coif1']) if self.wild else
                            None if self.dim == 1 else r.choice(ops.SHORT))
        lv = r.choice([None, None] + list(range(1, self.lvmax + 1))) if self.data else r.randint(1, self.lvmax)
        if lv is None:
            lv2 = _R.max_level(min(sh[a] for a in self.ax), self.rw.L)
            if lv2 > self.lvmax:
                lv = self.lvmax
        self.lv = lv if lv is not None else lv2
        while self.lv > 1 and self.cost(k, lv_cost) > lv_cost:
            self.lv -= 1
            lv = self.lv
        ax = neg[0] if self.dim == 1 else neg
        if self.data is None:
            ax = axes[0] if self.dim == 1 else axes        # negative axes need data to refer to
        elif self.dim == 'n' and k == nd and r.random() < .4:
            ax, self.ax = None, list(range(nd))
        self.parts = {1: ['a', 'd'], 2: ['a', 'h', 'v', 'd']}.get(self.dim) or [
            ''.join(q) for q in _product('ad', repeat=k)]
        self.cfg = {'dim': self.dim, 'data': self.data, 'w': w, 'm': self.m, 'lv': lv, 'axes': ax,
                    'aslist': int(self.data is not None and self.dt[0] != 'c' and ax is not None and r.random() < .1)}
        self.paths = []

    def cost(self, k, cap):
        """multiply-adds of a full decomposition"""
        sh, n, tot = list(self.sh), 1, 0
        for _ in range(self.lv):
            for a in self.ax:
                sh[a] = _R.dwt_len(sh[a], self.rw.L, self.m)
            n *= 2 ** k
            c = n * self.rw.L * k
            for q in sh:
                c *= q
            tot += c
        return tot

    def pickdt(self, odd):
        dt = self.g.dt(odd)
        return {'float32': 'float64', 'complex64': 'complex128', 'float16': 'float64'}.get(dt, dt) if self.wild else dt

    def path(self, lo=1, fresh=.4, deep=None):
        r = self.r
        if self.paths and r.random() > fresh:
            p = r.choice(self.paths)
            x = r.random()
            n = len(self.parts[0])
            if x < .25 and len(p) > n:
                p = p[:-n]
            elif x < .5:
                p = p + r.choice(self.parts)
            elif x < .65:
                p = p[:-n] + r.choice(self.parts)
        else:
            k = r.randint(lo, max(lo, self.lv))
            p = ''.join(r.choice(self.parts) for _ in range(k))
        p = p[:self.lv * len(self.parts[0])] if r.random() < .93 else p
        self.paths.append(p)
        return p

    def bad(self):
        return self.r.choice(['q', 'aq' if self.dim != 'n' else 'az' * 2, 'a' * 60, 7, None, {'T': ['a', 3]} if 0 else 5.5])

    def shape_at(self, path):
        sh = list(self.sh)
        for _ in range(len(path) // len(self.parts[0])):
            for a in self.ax:
                sh[a] = _R.dwt_len(sh[a], self.rw.L, self.m)
        return sh

    def value(self, path):
        r = self.r
        if r.random() < .2:
            return {'k': 'node', 'slot': r.randrange(3)}
        sh = self.shape_at(path)
        if r.random() < (.08 if path else .25):
            sh[r.choice(self.ax)] += r.choice([1, 2])
        dt = self.dt if r.random() < .6 else self.pickdt(.3)
        return {'k': 'arr', 'i': self.g.arr(sh, dt, lay=r.choice(['C', 'C', 'F', 'neg', 'step', 'view']))['$'],
                'list': int(r.random() < .08)}

    def op(self, weights):
        r = self.r
        k = r.choices(list(weights), list(weights.values()))[0]
        on = r.randrange(3) if r.random() < .18 else None
        a = {}
        if k in ('get', 'del', 'dec', 'nrec', 'set'):
            a['path'] = self.path()
            if r.random() < .06:
                a['path'] = self.bad()
            elif r.random() < .08 and isinstance(a['path'], str) and k != 'set':
                n = len(self.parts[0])
                a['path'] = {'T': [a['path'][i:i + n] for i in range(0, len(a['path']), n)]}
            if on is not None and isinstance(a['path'], str):
                a['path'] = a['path'][:len(self.parts[0]) * r.choice([1, 1, 2])]
            if k == 'del' and not a['path']:
                a['path'] = r.choice(self.parts)
        if k == 'set':
            if r.random() < .08:
                a['path'] = ''
            a['v'] = self.value(a['path'] if isinstance(a['path'], str) else '')
            if on is not None:
                on = None
        if k == 'get' and r.random() < .5:
            a['keep'] = r.randrange(3)
        if k == 'sub':
            a['path'], a['dec'] = r.choice(self.parts + ['x']), int(r.random() < .6)
        if k == 'dec':
            a['list'] = int(r.random() < .6)
        if k in ('rec', 'nrec'):
            a['upd'] = int(r.random() < .5)
            if k == 'rec' and r.random() < .3:
                a['dflt'] = 1
        if k == 'level':
            a['order'] = r.choice(['natural', 'natural', 'freq', 'freq', 'sideways'] if r.random() < .2 else
                                  ['natural', 'freq'])
            if self.dim == 'n':
                a['order'] = 'natural'
            a['l'] = 0 if r.random() < .08 else r.randint(1, max(1, self.lv)) + (1 if r.random() < .05 else 0)
            a['dec'] = int(r.random() < .6)
            on = None
        if k in ('leaves', 'walk', 'wdepth'):
            a['dec'] = int(r.random() < .5)
            a['lim'] = r.randint(0, 4)
        if k == 'ckpt':
            a['proto'] = r.choice([2, 3, 4, 5])
        if k == 'swap':
            a['n'] = r.randrange(3)
        if on is not None and k not in ('ckpt', 'crash', 'dcopy', 'swap', 'level'):
            a['on'] = on
        return {'op': k, 'a': a}


WT = {'get': 5, 'set': 3, 'del': 2, 'dec': 1, 'rec': 3, 'nrec': 1, 'level': 2, 'leaves': 2, 'walk': 1, 'wdepth': .7,
      'sub': 1, 'str': .3}
PROBE = {'get': 2, 'set': 2, 'del': 1, 'dec': 1, 'rec': 4, 'nrec': 1, 'leaves': 1, 'level': .5}


def tree_plan(r, dims, weights, lo, hi, faults=('c', 'np', 'int'), empty=.15):
    t = TG(r, dims, empty)
    if t.dim == 'n':
        weights = {k: v for k, v in weights.items()}
    pf = r.choice([0, .3, .6])
    out = []
    for _ in range(r.randint(lo, hi)):
        o = t.op(weights)
        if o['op'] == 'crash' and r.random() < .8 and not any(q['op'] == 'ckpt' for q in out):
            out.append({'op': 'ckpt', 'a': {'proto': r.choice([2, 3, 4, 5])}})
        if o['op'] == 'dcopy' and r.random() < .5:
            o['a']['scrib'] = 1
        if o['op'] == 'dcopy' and r.random() < .4:
            out.append(o)
            o = {'op': 'swap', 'a': {'n': r.randrange(3)}}
        if r.random() < pf and o['op'] not in ('swap', 'str'):
            o['fault'] = fault(r, list(faults))
        if o['op'] in ('ckpt', 'dcopy') and r.random() < .6:
            o['a']['probe'] = [t.op(PROBE) for _ in range(r.randint(1, 4))]
        out.append(o)
    return {'kind': 'tree', 'tree': t.cfg, 'world': t.g.world, 'threads': [out], 'sched': sched(r), 'mem': mem(r)}


@gen('C10')
def _(r, tier):
    return tree_plan(r, [1], WT, 2, 14)


@gen('C11')
def _(r, tier):
    return tree_plan(r, [2, 'n'], WT, 2, 10)


@gen('C13')
def _(r, tier):
    w = dict(WT, ckpt=3, crash=3, dcopy=2, swap=1.5)
    return tree_plan(r, [1, 2, 'n'], w, 3, 12)


@gen('C15')
def _(r, tier):
    t = TG(r, [1, 1, 2, 'n'], 0, 4e4)
    n = r.choice([2, 2, 3, 3])
    th = []
    for i in range(n):
        ops_ = []
        for _ in range(r.randint(1, 4)):
            k = r.choice(['get', 'get', 'get', 'level', 'level', 'leaves'])
            if th and r.random() < .5:
                ops_.append(json.loads(json.dumps(r.choice(r.choice(th)))))
                continue
            a = {}
            if k == 'get':
                a['path'] = t.path(fresh=.6)
            elif k == 'level':
                a['order'] = 'natural' if t.dim == 'n' else r.choice(['natural', 'freq'])
                a['l'], a['dec'] = r.randint(1, max(1, t.lv)), 1
            else:
                a['dec'] = 1
            ops_.append({'op': k, 'a': a})
        th.append(ops_)
    return {'kind': 'lazy', 'tree': t.cfg, 'world': t.g.world, 'threads': th, 'sched': sched(r, True), 'mem': mem(r)}


# ------------------------------------------------------------------ persistent objects, data sets
CNAMES = sorted(_R.GOLDEN['continuous'])


def recipe(r, kind=None):
    k = kind or r.choice(['disc', 'disc', 'cust', 'cont', 'cont'])
    if k == 'disc':
        return {'k': k, 'n': r.choice(ops.DISCRETE), 'edits': []}
    if k == 'cust':
        n = r.choice(ops.SHORT)
        return {'k': k, 'n': n, 'name': r.choice(['', 'mine', n, 'db2', 'name with blanks', 'sym5']), 'edits': []}
    if k == 'cont':
        n = r.choice(ops.CWN)
        if r.random() < .4 and n[:4] in ('cmor', 'shan', 'fbsp'):
            n = {'cmor': 'cmor%s-%s', 'shan': 'shan%s-%s', 'fbsp': 'fbsp%d-%s-%s' % (r.randint(1, 4), '%s', '%s')}[n[:4]] % (
                r.choice([1.5, 0.75, 2.0]), r.choice([1.0, 0.5, 2.5]))
        return {'k': k, 'n': n, 'dt': r.choice(['float64', 'float64', 'float32']), 'edits': []}
    nd = r.choice([1, 2, 2, 3])
    kx = r.randint(1, nd)
    ax = r.sample(range(nd), kx)
    sh = [r.randint(3, {1: 20, 2: 8, 3: 5}[nd]) for _ in range(nd)]
    ws = [recipe(r, r.choice(['disc', 'cust'])) for _ in range(kx)]
    for w in ws:
        w['n'] = r.choice(['haar', 'db2', 'sym3', 'bior1.3', 'bior2.2', 'coif1'])
    if r.random() < .5:
        ws = ws[:1]
    lv = [r.randint(0, 2) for _ in range(kx)]
    return {'k': 'fs', 'x': {'k': 'arr', 'sh': sh, 'dt': r.choice(['float64', 'float32', 'complex128', 'complex64']),
                             'lay': r.choice(['C', 'F', 'neg']), 's': r.randrange(1 << 30), 'f': 'n'},
            'ws': ws, 'm': r.choice(['symmetric', 'periodization', 'zero', 'periodic']), 'lv': lv, 'ax': ax, 'edits': []}


def edits(r):
    d = [[r.choice(['orthogonal', 'biorthogonal']), r.randrange(2)] for _ in range(r.randint(1, 2))]
    c = []
    for _ in range(r.randint(1, 3)):
        a = r.choice(['lower_bound', 'upper_bound', 'center_frequency', 'bandwidth_frequency', 'fbsp_order', 'orthogonal',
                      'biorthogonal', 'bounds', 'bounds'])
        v = r.choice([0.5, 1.25, 2.0, 3.7])
        if a == 'bounds':
            c += [['lower_bound', -2 * v], ['upper_bound', 2 * v]]
        elif a == 'lower_bound':
            c.append([a, -v])
        elif a in ('orthogonal', 'biorthogonal'):
            c.append([a, r.randrange(2)])
        elif a == 'fbsp_order':
            c.append([a, r.randint(1, 4)])
        else:
            c.append([a, v])
    f = [['fs', r.randrange(50), r.randrange(1 << 30), r.choice(['key', 'key', 'approx', 'whole'])]]
    return {'disc': d, 'cont': c, 'fs': f}


def objs_plan(r, kinds, faults=('c', 'np', 'int', 'c')):
    out = []
    n = r.randint(2, 9)
    pf = r.choice([0, .3, .6])
    for i in range(n):
        k = r.choices(['new', 'edit', 'copy', 'ckpt', 'crash', 'drop'], [3, 3, 4, 2, 1.5, .5])[0] if i else 'new'
        a = {'s': r.randrange(3)}
        if k == 'new':
            a['rc'] = recipe(r, r.choice(kinds))
        elif k == 'edit':
            a.update(edits(r))
        elif k == 'copy':
            a.update(t=r.randrange(4), how=r.choice(['pickle', 'pickle', 'copy', 'deepcopy']),
                     proto=r.choice([2, 3, 4, 5]))
            if a['t'] == a['s']:
                a['t'] = 3
        elif k == 'ckpt':
            a = {'proto': r.choice([2, 3, 4, 5])}
        elif k == 'crash':
            a = {}
            if r.random() < .8 and not any(o['op'] == 'ckpt' for o in out):
                out.append({'op': 'ckpt', 'a': {'proto': r.choice([2, 3, 4, 5])}})
        o = {'op': k, 'a': a}
        if k in ('new', 'copy', 'ckpt', 'crash') and r.random() < pf:
            o['fault'] = fault(r, list(faults))
        out.append(o)
    return {'kind': 'objs', 'threads': [out], 'sched': sched(r), 'mem': mem(r)}


@gen('C12')
def _(r, tier):
    return objs_plan(r, [None])


_trees13 = GEN['C13']


@gen('C13')
def _(r, tier):
    return objs_plan(r, ['fs', 'fs', None]) if r.random() < .25 else _trees13(r, tier)


SETS = ['ascent', 'aero', 'camera', 'ecg', 'nino']
SIGNALS = ['Blocks', 'Bumps', 'HeaviSine', 'Doppler', 'Ramp', 'HiSine', 'LoSine', 'LinChirp', 'TwoChirp', 'QuadChirp',
           'MishMash', 'WernerSorrows', 'HypChirps', 'LinChirps', 'Chirps', 'Gabor', 'sineoneoverx', 'Piece-Regular',
           'Piece-Polynomial', 'Riemann', 'list', 'nonsense']


def dread(r):
    if r.random() < .2:
        n = r.choice(SIGNALS)
        return {'op': 'signal', 'a': {'n': n if r.random() < .7 else n.upper(),
                                      'len': None if n in ('Gabor', 'sineoneoverx', 'list') and r.random() < .8 else
                                      r.choice([16, 64, 100, 257])}}
    return {'op': r.choice(SETS + ['ecg', 'nino', 'ecg', 'nino']), 'a': {}}


def dfault(r, faults=('np', 'int', 'int'), ondisk=True):
    x = r.random()
    if x < .35 or not ondisk:
        return fault(r, list(faults))
    k = r.choice(['eio', 'trunc', 'flip', 'open', 'none'])
    d = {'frac': r.random()}
    if k != 'none':
        d['kind'] = k
    if k == 'flip':
        d['bit'] = 1 << r.randrange(8)
        if r.random() < .4:
            d['frac'] = r.choice([0, 1]) * .999999 + (1 if r.random() < .5 else 0) * 0
    if k == 'open':
        d['errno'] = r.choice([2, 5, 13, 24, 12])       # ENOENT EIO EACCES EMFILE ENOMEM
    if r.random() < .4 or k == 'none':
        d['short'] = r.randint(1, 5000)
    return {'disk': d}


@gen('C14')
def _(r, tier):
    return data_plan(r)


def data_plan(r, faults=('np', 'int', 'int'), ondisk=True):
    if r.random() < .5 or not ondisk:
        out = []
        pf = r.choice([0, .4, .7])
        for _ in range(r.randint(2, 7)):
            o = dread(r) if not out or r.random() < .5 else json.loads(json.dumps(r.choice(out)))
            o.pop('fault', None)
            if r.random() < pf:
                o['fault'] = dfault(r, faults, ondisk)
            out.append(o)
        th, disk = [out], None
    else:
        n = r.choice([2, 3, 4])
        few = [dread(r) for _ in range(r.choice([1, 1, 2]))]
        th = [[json.loads(json.dumps(r.choice(few))) for _ in range(r.randint(1, 3))] for _ in range(n)]
        disk = None
        if r.random() < .4:
            disk = {'kind': 'eio', 'at': r.randint(1, 6)} if r.random() < .5 else {'kind': 'open', 'at': 1, 'errno': 5}
        if r.random() < .3:
            disk = dict(disk or {}, short=r.randint(1, 5000))
    s = sched(r)
    return {'kind': 'data', 'threads': th, 'disk': disk, 'sched': s, 'mem': mem(r), 'scribble': int(r.random() < .7)}


# ------------------------------------------------------------------ forks and re-entrant calls
@gen('C16')
def _(r, tier):
    x = r.random()
    if x < .2:
        p = GEN['C15'](r, tier)
        every = json.loads(json.dumps([o for q in p['threads'] for o in q]))
        forks(r, p, lambda t: r.choice(every))
        return p
    if x < .3:
        p = data_plan(r, ('np',), True)
        while len(p['threads']) < 2:
            p = data_plan(r, ('np',), True)
        p['disk'] = None
        every = json.loads(json.dumps([o for q in p['threads'] for o in q]))
        forks(r, p, lambda t: r.choice(every))
        return p
    g, th = crowd(r, ALL, r.choice([2, 2, 3, 3]), r.choice([1, 2, 2, 3]))
    p = {'kind': 'calls', 'world': g.world, 'threads': th, 'sched': sched(r), 'mem': mem(r)}
    every = [o for q in th for o in q]

    def one2(t):
        y = r.random()
        if y < .55:
            return dict(r.choice(every))
        if y < .85:
            o = r.choice(every)
            return {'op': o['op'], 'a': mutate_copy(g, o)}
        return one(g, ALL)
    forks(r, p, one2)
    return p


def forks(r, p, pick):
    """one or two of the callers fork a child process somewhere among their calls"""
    for t in r.sample(range(len(p['threads'])), r.choice([1, 1, 2]) if len(p['threads']) > 1 else 1):
        th = p['threads'][t]
        th.insert(r.randint(0, len(th)), {'op': 'fork', 'a': {'ops': [pick(t) for _ in range(r.randint(1, 3))]}})


@gen('C17')
def _(r, tier):
    if r.random() < .25:
        p = conc(ALL, r)
        g = G(r, p['world'])
    else:
        g = G(r)
        p = hist(r, ALL, 1, 5, None, 0, bad=.05, g=g)
    for t in p['threads']:
        for o in t:
            if r.random() < .8:
                x = r.random()
                if x < .3:
                    q = {'op': o['op'], 'a': o['a']}
                elif x < .6:
                    q = {'op': o['op'], 'a': mutate_copy(g, o)}
                elif x < .8:
                    q = {'op': o['op'], 'a': OPS[o['op']].gen(g)}
                else:
                    q = one(g, ALL)
                if r.random() < .2:
                    o.pop('f', None)
                o['nest'] = {'frac': r.random(), 'o': q, 'duck': int(r.random() < .6)}
    return p


# ------------------------------------------------------------------ refusals
def refusal(g, o=None, twin=.55):
    """a senseless request: a twin of the given call with one argument spoilt, or one out of the table"""
    x = g.r.random()
    q = spoil(g, o) if o and x < twin else None
    if q is None and o and x < .85:
        return {'op': 'bad', 'a': OPS['bad'].gen(g, o['op'])}
    n = g.r.choice(['bad', 'bad', 'spoil'])
    return q or {'op': n, 'a': OPS[n].gen(g)}


@gen('C18')
def _(r, tier):
    p = other(r, .1, 0, .02, ['c', 'np', 'int'], ambient=1)
    if p:
        return p
    ks = r.choice([None, None, ['int'], ['np'], ['c', 'np', 'int']])
    many = r.random() < .45
    if many:
        p = conc([n for n in ALL if n != 'ambient'] if r.random() < .15 else r.choice(KIN[:4] * 2 + KIN[4:])[0], r)
        g = G(r, p['world'])
        p['ambient'] = 2
    else:
        g = G(r)
        p = hist(r, ALL, 1, 4, None, bad=0, g=g)
        p['iso'], p['ambient'] = r.choice(['fork', 0]), 1
    seen = []
    for t in p['threads']:
        for o in list(t):
            for _ in range(r.choice([1, 2, 3, 4] if many else [1, 1, 2, 3])):
                x = r.random()
                q = json.loads(json.dumps(r.choice(seen))) if seen and x < .25 else refusal(g, o, .25 if many else .55)
                if seen and x < .1:
                    q['a'] = mutate_copy(g, q)
                seen.append(q)
                t.insert(r.choice([0, len(t), t.index(o), t.index(o) + 1]), q)
        for o in t:
            if ks and r.random() < .35:
                o['fault'] = fault(r, ks)
            elif r.random() < .08:
                o['nest'] = {'frac': r.random(), 'o': refusal(g, o) if r.random() < .7 else one(g, ALL), 'duck': int(r.random() < .6)}
    p['scribble'] = int(r.random() < .3)
    return p
