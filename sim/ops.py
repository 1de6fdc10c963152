"""The caller operations: for each one a generator (argument choice), the real call and, where the reference model
covers it, the expected result.  Argument values are JSON with {"$": i} references into the world."""
import json
import random

import numpy as np

import bad
import ref as R

OPS = {}


class Op:
    def __init__(self, name, kinds, gen, real, ref):
        self.name, self.kinds, self.gen, self.real, self.ref = name, kinds, gen, real, ref


def op(name, *kinds):
    def deco(cls):
        OPS[name] = Op(name, set(kinds), cls.gen, cls.real, getattr(cls, 'ref', None))
        return cls
    return deco


DISCRETE = sorted(R.GOLDEN['discrete'])
SHORT = [n for n in DISCRETE if len(R.GOLDEN['discrete'][n]['filters'][0]) <= 12]
BYLEN = {n: [q for q in DISCRETE if len(R.GOLDEN['discrete'][q]['filters'][0]) ==
             len(R.GOLDEN['discrete'][n]['filters'][0])] for n in DISCRETE}
CONT = sorted(R.GOLDEN['continuous'])
FDT = ['float64'] * 6 + ['float32'] * 4 + ['complex128'] * 3 + ['complex64'] * 3
ODDT = ['float16', 'int32', 'int8', 'uint16', 'int64', 'bool', 'clongdouble', 'longdouble', 'uint8']
LAYS = ['C'] * 8 + ['F', 'neg', 'step', 'view', 'ro', 'bs']
PER = 'periodization'


class G:
    """Argument generator over a seeded PRNG and a growing world."""

    def __init__(self, rng, world=None):
        self.r = rng
        self.small = False            # short arrays only: for runs of very many calls
        self.world = world if world is not None else []

    def add(self, spec):
        self.world.append(spec)
        return {'$': len(self.world) - 1}

    def dt(self, odd=0.12):
        return self.r.choice(ODDT) if self.r.random() < odd else self.r.choice(FDT)

    def arr(self, sh, dt=None, lay=None, f=None, odd=0.12, ro=True):
        r = self.r
        dt = dt or self.dt(odd)
        lay = lay or r.choice(LAYS)
        if lay == 'ro' and not ro:
            lay = 'C'
        f = f or r.choice('nnnnnicrb')
        return self.add({'k': 'arr', 'sh': [int(x) for x in sh], 'dt': dt, 'lay': lay, 's': r.randrange(1 << 30),
                         'f': f})

    def wname(self, long=0.12):
        r = self.r
        if r.random() < 0.35:
            return r.choice(['haar', 'db1', 'db2', 'db3', 'db4', 'sym4', 'bior2.2', 'bior1.3', 'coif1', 'rbio2.4'])
        return r.choice(DISCRETE) if r.random() < long * 2 else r.choice(SHORT)

    def wav(self, long=0.12, form=None, name=None):
        """-> (ref, RefWavelet)"""
        r = self.r
        n = name or self.wname(long)
        form = form or r.choice(['name', 'name', 'wav', 'wav', 'wav', 'cust'])
        spec = {'k': form, 'n': n}
        if form == 'cust':
            spec['p'] = r.randrange(4)
            if r.random() < .3:         # named like some built-in wavelet whose filters are as long
                spec['nm'] = r.choice(BYLEN[n])
        return self.add(spec), R.wavelet(n)

    def wavs(self, naxes, p_each=0.25, long=0.12):
        """wavelet argument for an n-d routine -> (json, [RefWavelet])"""
        if naxes > 2:
            long = 0            # work grows with the power of the filter length
        if self.r.random() < p_each:
            ws = [self.wav(long) for _ in range(naxes)]
            return {'T': [w[0] for w in ws]}, [w[1] for w in ws]
        w, rw = self.wav(long)
        return w, [rw] * naxes

    def mode(self, n=None, reflect_ok=True):
        ms = R.MODES if reflect_ok else [m for m in R.MODES if m not in ('reflect', 'antireflect')]
        return self.r.choice(ms)

    def modes(self, naxes, p_each=0.25, reflect_ok=True):
        if self.r.random() < p_each:
            ms = [self.mode(None, reflect_ok) for _ in range(naxes)]
            return {'T': ms}, ms
        m = self.mode(None, reflect_ok)
        return m, [m] * naxes

    def hi(self, nd, base):
        """upper bound of an axis length; a few inputs are much larger than the rest"""
        if self.small:
            return min(base, {1: 9, 2: 5, 3: 3}.get(nd, 2))
        if self.r.random() < .045:
            base *= {1: self.r.choice([4, 8, 8, 20, 60, 120]), 2: self.r.choice([2, 4, 5])}.get(nd, 2)
        return base

    def n1(self, lo=1, hi=40):
        r = self.r
        big = self.hi(1, hi)
        if self.small:
            return r.randint(lo, max(lo, big))
        if big != hi:
            return r.randint(big // 2, big)
        return r.choice([r.randint(lo, min(hi, 9)), r.randint(lo, hi), r.randint(lo, hi)])

    def tall(self, sh, lo=1, q=1):
        """a few 2-D inputs are very long along one axis"""
        if len(sh) == 2 and not self.small and self.r.random() < .02:
            i = self.r.randrange(2)
            sh[i], sh[1 - i] = q * (self.r.randint(300, 1500) // q), q * max(lo, self.r.randint(1, 3) // q)
        return sh

    def shape(self, nd, hi=None, lo=1):
        hi = self.hi(nd, hi or {1: 40, 2: 11, 3: 6, 4: 4}[nd])
        return self.tall([self.r.randint(lo, max(lo, hi)) for _ in range(nd)], lo)

    def axes(self, nd, k):
        a = self.r.sample(range(nd), k)
        if self.r.random() < 0.5:
            a = [x - nd if self.r.random() < 0.5 else x for x in a]
        return a


def okmodes(sh, axes, modes, fix=True):
    """reflect modes reject length-1 axes: avoid them unless an error is wanted"""
    return all(not (m in ('reflect', 'antireflect') and sh[a] == 1) for a, m in zip(axes, modes))


def aslist(v, n):
    return list(v) if isinstance(v, (list, tuple)) else [v] * n


def cast(v, dt):
    if isinstance(v, np.ndarray):
        return v.astype(dt)
    if isinstance(v, dict):
        return {k: cast(x, dt) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [cast(x, dt) for x in v]
    return v


def dts(*vs):
    """result dtype over every array found"""
    found = []

    def walk(v):
        if isinstance(v, np.ndarray):
            found.append(R.out_dtype(v))
        elif isinstance(v, dict):
            [walk(x) for x in v.values()]
        elif isinstance(v, (list, tuple)):
            [walk(x) for x in v]
    for v in vs:
        walk(v)
    return np.result_type(*found)


# ================================================================= single level, forward
@op('dwt', 'fwd')
class _:
    def gen(g):
        nd = g.r.choice([1, 1, 1, 2, 3])
        sh = [g.n1()] if nd == 1 else g.shape(nd)
        ax = g.r.randrange(-nd, nd)
        w, _ = g.wav(0.3)
        m = g.mode()
        if not okmodes(sh, [ax], [m]):
            m = 'symmetric'
        return {'x': g.arr(sh), 'w': w, 'm': m, 'ax': ax}

    def real(P, a):
        return P.dwt(a['x'], a['w'], a['m'], axis=a['ax'])

    def ref(a):
        return cast(R.dwt_axis(a['x'], a['w'], a['m'], a['ax']), R.out_dtype(a['x']))


@op('dwt_list', 'fwd')
class _:
    """array_like input that is not an ndarray"""
    def gen(g):
        n = g.n1(2, 20)
        x = [g.r.randint(-9, 9) if g.r.random() < .5 else g.r.uniform(-3, 3) for _ in range(n)]
        return {'x': g.add({'k': 'val', 'v': x}), 'w': g.wav()[0], 'm': g.mode()}

    def real(P, a):
        return P.dwt(a['x'], a['w'], a['m'])

    def ref(a):
        return cast(R.dwt_axis(np.array(a['x'], dtype=float), a['w'], a['m'], -1), 'f8')


@op('downcoef', 'fwd')
class _:
    def gen(g):
        w, rw = g.wav(0.2)
        n = g.n1(2)
        m = g.mode()
        lv = g.r.randint(1, 3) if g.r.random() < .85 else g.r.randint(4, 8)
        if m in ('reflect', 'antireflect'):
            k = n
            for _ in range(lv):
                if k < 2:
                    m = 'zero'
                k = R.dwt_len(k, rw.L, m)
        return {'p': g.r.choice('ad'), 'x': g.arr([n]), 'w': w, 'm': m, 'l': lv}

    def real(P, a):
        return P.downcoef(a['p'], a['x'], a['w'], a['m'], a['l'])

    def ref(a):
        return cast(R.downcoef(a['p'], a['x'], a['w'], a['m'], a['l']), R.out_dtype(a['x']))


@op('upcoef', 'inv')
class _:
    def gen(g):
        return {'p': g.r.choice('ad'), 'x': g.arr([g.n1(1, 12)]), 'w': g.wav(0.15)[0],
                'l': g.r.randint(1, 3) if g.r.random() < .9 else g.r.randint(4, 6),
                'take': g.r.choice([0, 0, g.r.randint(1, 30)])}

    def real(P, a):
        return P.upcoef(a['p'], a['x'], a['w'], a['l'], a['take'])

    def ref(a):
        return cast(R.upcoef(a['p'], a['x'], a['w'], a['l'], a['take']), R.out_dtype(a['x']))


@op('dwt2', 'fwd')
class _:
    def gen(g):
        nd = g.r.choice([2, 2, 2, 3])
        sh = g.shape(nd)
        axes = g.axes(nd, 2)
        w, _ = g.wavs(2)
        m, ms = g.modes(2)
        if not okmodes(sh, axes, ms):
            m = 'zero'
        return {'x': g.arr(sh), 'w': w, 'm': m, 'axes': {'T': axes}}

    def real(P, a):
        return P.dwt2(a['x'], a['w'], a['m'], axes=a['axes'])

    def ref(a):
        c = R.dwtn(a['x'], aslist(a['w'], 2), aslist(a['m'], 2), a['axes'])
        return cast((c['aa'], (c['da'], c['ad'], c['dd'])), R.out_dtype(a['x']))


@op('dwtn', 'fwd')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 2, 3, 3, 4])
        sh = g.shape(nd)
        k = g.r.randint(1, nd)
        axes = g.axes(nd, k)
        w, _ = g.wavs(k)
        m, ms = g.modes(k)
        if not okmodes(sh, axes, ms):
            m = 'periodic'
        return {'x': g.arr(sh), 'w': w, 'm': m, 'axes': {'T': axes}}

    def real(P, a):
        return P.dwtn(a['x'], a['w'], a['m'], axes=a['axes'])

    def ref(a):
        k = len(a['axes'])
        return cast(R.dwtn(a['x'], aslist(a['w'], k), aslist(a['m'], k), a['axes']), R.out_dtype(a['x']))


# ================================================================= multilevel, forward
def deep(g, nd):
    """many levels now and then: short filters, no mode that amplifies"""
    return nd < 3 and not g.small and g.r.random() < .1


def gen_deep(g, nd, k):
    sh = [g.r.randint(20, 400)] if nd == 1 else [g.r.randint(12, 40) for _ in range(nd)]
    axes = g.axes(nd, k)
    w, rw = g.wav(0, name=g.r.choice(['haar', 'haar', 'db2', 'bior1.3', 'coif1', 'sym3']))
    m = g.r.choice(['symmetric', 'periodization', 'zero', 'periodic', 'constant', 'antisymmetric'])
    mx = min(R.max_level(sh[a], rw.L) for a in axes)
    lv = g.r.choice([None, mx, max(mx - 1, 1), g.r.randint(3, max(mx, 3))])
    return {'x': g.arr(sh), 'w': w, 'm': m, 'l': lv, 'axes': {'T': axes}}


def gen_multi(g, nd, k):
    if deep(g, nd):
        return gen_deep(g, nd, k)
    sh = [g.n1(4, 48)] if nd == 1 else g.shape(nd, {2: 14, 3: 7}[nd], 2)
    axes = g.axes(nd, k)
    w, rws = g.wavs(k, 0.25 if k > 1 else 0, 0.08)
    m, ms = g.modes(k, 0.25 if k > 1 else 0)
    mx = min(R.max_level(sh[a], rw.L) for a, rw in zip(axes, rws))
    lv = g.r.choice([None, g.r.randint(0, max(mx, 1)), g.r.randint(0, max(mx, 1)), 1, 2] + [mx + 1] * (g.r.random() < .1))
    lv_eff = mx if lv is None else lv
    cur = [sh[a] for a in axes]
    bad = False
    for _ in range(lv_eff):
        bad |= any(c == 1 and q in ('reflect', 'antireflect') for c, q in zip(cur, ms))
        cur = [R.dwt_len(c, rw.L, q) for c, rw, q in zip(cur, rws, ms)]
    if bad:
        m = 'symmetric'
    return {'x': g.arr(sh), 'w': w, 'm': m, 'l': lv, 'axes': {'T': axes}}


def ref_multi(a):
    axes = a['axes']
    k = len(axes)
    ws, ms = aslist(a['w'], k), aslist(a['m'], k)
    x = np.asarray(a['x'])
    lv = a['l']
    if lv is None:
        lv = min(R.max_level(x.shape[ax], w.L) for ax, w in zip(axes, ws))
    if lv == 0:
        return [x]
    return cast(R.wavedecn(x, ws, ms, lv, axes), R.out_dtype(x))


@op('wavedec', 'fwd')
class _:
    def gen(g):
        return gen_multi(g, g.r.choice([1, 1, 2]), 1)

    def real(P, a):
        return P.wavedec(a['x'], a['w'], a['m'], a['l'], a['axes'][0])

    def ref(a):
        c = ref_multi(a)
        return [c[0]] + [d['d'] for d in c[1:]]


@op('wavedec2', 'fwd')
class _:
    def gen(g):
        return gen_multi(g, g.r.choice([2, 2, 3]), 2)

    def real(P, a):
        return P.wavedec2(a['x'], a['w'], a['m'], a['l'], a['axes'])

    def ref(a):
        c = ref_multi(a)
        return [c[0]] + [(d['da'], d['ad'], d['dd']) for d in c[1:]]


@op('wavedecn', 'fwd')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 3])
        return gen_multi(g, nd, g.r.randint(1, nd))

    def real(P, a):
        return P.wavedecn(a['x'], a['w'], a['m'], a['l'], a['axes'])

    ref = ref_multi


def ref_fs(x, ws, ms, lvs, axes):
    dt = R.out_dtype(x) if any(lvs) else np.asarray(x).dtype
    v = R.work(x)
    sl = []
    for ax, w, m, lv in zip(axes, ws, ms, lvs):
        c = R.wavedecn(v, [w], [m], lv, [ax])
        parts = [c[0]] + [d['d'] for d in c[1:]]
        pos, s = 0, []
        for p in parts:
            s.append(slice(pos, pos + p.shape[ax]))
            pos += p.shape[ax]
        sl.append(s)
        v = np.concatenate(parts, axis=ax)
    return v.astype(dt), sl


@op('fswavedecn', 'fwd')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 2, 3])
        sh = g.shape(nd, {1: 30, 2: 12, 3: 6}[nd], 2)
        k = g.r.randint(1, nd)
        axes = g.axes(nd, k)
        w, rws = g.wavs(k, 0.3, 0.05)
        m, ms = g.modes(k, 0.3, False)
        mx = [R.max_level(sh[a], rw.L) for a, rw in zip(axes, rws)]
        lv = g.r.choice([None, g.r.randint(0, max(min(mx), 1)), {'T': [g.r.randint(0, max(q, 1)) for q in mx]}])
        return {'x': g.arr(sh), 'w': w, 'm': m, 'l': lv, 'axes': {'T': axes}}

    def real(P, a):
        r = P.fswavedecn(a['x'], a['w'], a['m'], levels=a['l'], axes=a['axes'])
        return [r.coeffs, [[(int(s.start), int(s.stop)) for s in x] for x in r.coeff_slices], list(r.levels), list(r.modes),
                {str(k): r[k] for k in r.detail_keys()}]

    def ref(a):
        axes = a['axes']
        k = len(axes)
        ws, ms = aslist(a['w'], k), aslist(a['m'], k)
        x = np.asarray(a['x'])
        lv = a['l']
        if lv is None:
            lv = [R.max_level(x.shape[ax], w.L) for ax, w in zip(axes, ws)]
        lv = aslist(lv, k)
        c, sl = ref_fs(x, ws, ms, lv, axes)
        det = {}
        for key in np.ndindex(*[l + 1 for l in lv]):
            if any(key):
                ss = [slice(None)] * x.ndim
                for ax, s, q in zip(axes, sl, key):
                    ss[ax] = s[q]
                det[str(tuple(int(q) for q in key))] = c[tuple(ss)]
        return [c, [[(s.start, s.stop) for s in x] for x in sl], list(lv), list(ms), det]


@op('fs_roundtrip', 'inv')
class _:
    def gen(g):
        return OPS['fswavedecn'].gen(g)

    def real(P, a):
        r = P.fswavedecn(a['x'], a['w'], a['m'], levels=a['l'], axes=a['axes'])
        return [P.fswaverecn(r), P.fswaverecn(r)]

    def ref(a):
        e = OPS['fswavedecn'].ref(a)
        c, sl, lv, ms, _d = e
        axes = a['axes']
        ws = aslist(a['w'], len(axes))
        v = R.work(c)
        for ax, w, m, s in list(zip(axes, ws, ms, sl)):
            ax = ax % v.ndim
            parts = [v[(slice(None),) * ax + (slice(*q),)] for q in s]
            v = R.waverecn([parts[0]] + [{'d': p} for p in parts[1:]], [w], [m], [ax])
        v = v.astype(c.dtype)
        return [v, v]


def gen_fs(g):
    """a FswavedecnResult in the world: one that another operation uses already, or a new one"""
    have = [i for i, s in enumerate(g.world) if s['k'] == 'fs']
    if have and g.r.random() < .4:
        return {'$': g.r.choice(have)}
    nd = g.r.choice([1, 2, 2, 3])
    sh = g.shape(nd, {1: 30, 2: 12, 3: 6}[nd], 2)
    k = g.r.randint(1, nd)
    axes = [x % nd for x in g.axes(nd, k)]
    w, rws = g.wavs(k, 0.3, 0.05)
    ms = [g.mode(None, False)] * k if g.r.random() < .6 else [g.mode(None, False) for _ in range(k)]
    sl = []
    for ax, rw, m in zip(axes, rws, ms):
        lens, n = [], sh[ax]
        for _ in range(g.r.randint(0, max(1, R.max_level(n, rw.L)))):
            n = R.dwt_len(n, rw.L, m)
            lens.insert(0, n)
        lens.insert(0, n)
        pos = [sum(lens[:i]) for i in range(len(lens) + 1)]
        sl.append([[a, b] for a, b in zip(pos, pos[1:])])
        sh[ax] = pos[-1]
    ws = w['T'] if 'T' in w else [w] * k
    return g.add({'k': 'fs', 'v': {'c': g.arr(sh), 'w': ws, 'm': ms, 'sl': sl, 'axes': axes}})


@op('fsrec', 'inv')
class _:
    """reconstruction from a fully separable decomposition that other callers hold too"""
    def gen(g):
        return {'r': gen_fs(g)}

    def real(P, a):
        return P.fswaverecn(a['r'])

    def ref(a):
        r = a['r']
        v = R.work(r['c'])
        for ax, w, m, s in zip(r['axes'], r['w'], r['m'], r['sl']):
            parts = [v[(slice(None),) * ax + (slice(*q),)] for q in s]
            v = R.waverecn([parts[0]] + [{'d': p} for p in parts[1:]], [w], [m], [ax])
        # axes without levels are passed through unconverted
        return v.astype(R.out_dtype(r['c'])) if any(len(s) > 1 for s in r['sl']) else v.astype(np.asarray(r['c']).dtype)


@op('fsget', 'inv')
class _:
    """queries of a fully separable decomposition that other callers hold too"""
    def gen(g):
        return {'r': gen_fs(g)}

    def real(P, a):
        r = a['r']
        return [{str(k): np.array(r[k]) for k in r.detail_keys()}, np.array(r.approx), list(r.levels), list(r.modes), int(r.ndim),
                int(r.ndim_transform), tuple(r.axes)]

    def ref(a):
        r = a['r']
        c = np.asarray(r['c'])
        det = {}
        for key in np.ndindex(*[len(s) for s in r['sl']]):
            ss = [slice(None)] * c.ndim
            for ax, s, q in zip(r['axes'], r['sl'], key):
                ss[ax] = slice(*s[q])
            det[str(tuple(int(q) for q in key))] = c[tuple(ss)]
        ap = det.pop(str((0,) * len(r['axes'])))
        return [det, ap, [len(s) - 1 for s in r['sl']], list(r['m']), c.ndim, len(r['axes']), tuple(r['axes'])]


# ================================================================= single level, inverse
def coeff_arrs(g, sh, dt, n, same=0.85):
    return [g.arr(sh, dt if g.r.random() < same else None, odd=0.05) for _ in range(n)]


@op('idwt', 'inv')
class _:
    def gen(g):
        nd = g.r.choice([1, 1, 1, 2])
        w, rw = g.wav(0.3)
        ax = g.r.randrange(-nd, nd)
        m = g.mode()
        lo = 1 if m == PER else rw.L // 2
        sh = g.shape(nd, 9)
        sh[ax] = lo + g.r.randint(0, g.hi(1, 14))
        dt = g.dt(0.05)
        a, d = coeff_arrs(g, sh, dt, 2)
        q = g.r.random()
        if q < 0.12:
            a = None
        elif q < 0.24:
            d = None
        return {'a': a, 'd': d, 'w': w, 'm': m, 'ax': ax}

    def real(P, a):
        return P.idwt(a['a'], a['d'], a['w'], a['m'], a['ax'])

    def ref(a):
        r = R.idwt_axis(a['a'], a['d'], a['w'], a['m'], a['ax'])
        return cast(r, dts(a['a'], a['d']))


@op('idwt2', 'inv')
class _:
    def gen(g):
        nd = g.r.choice([2, 2, 3])
        axes = g.axes(nd, 2)
        w, rws = g.wavs(2, 0.3, 0.05)
        m, ms = g.modes(2)
        sh = g.shape(nd, 4)
        for ax, rw, q in zip(axes, rws, ms):
            sh[ax] = (1 if q == PER else rw.L // 2) + g.r.randint(0, 5)
        cs = coeff_arrs(g, sh, g.dt(0.05), 4)
        for i in range(4):
            if g.r.random() < 0.06:
                cs[i] = None
        if all(c is None for c in cs):
            cs[0] = g.arr(sh)
        inner = g.add({'k': g.r.choice(['tuple', 'list']), 'v': cs[1:]})
        c = g.add({'k': g.r.choice(['tuple', 'list']), 'v': [cs[0], inner]})
        return {'c': c, 'w': w, 'm': m, 'axes': {'T': axes}}

    def real(P, a):
        return P.idwt2(a['c'], a['w'], a['m'], a['axes'])

    def ref(a):
        ll, (h, v, d) = a['c']
        c = {'aa': ll, 'da': h, 'ad': v, 'dd': d}
        return cast(R.idwtn(c, aslist(a['w'], 2), aslist(a['m'], 2), a['axes']), dts(list(c.values())))


@op('idwtn', 'inv')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 3])
        k = g.r.randint(1, nd)
        axes = g.axes(nd, k)
        w, rws = g.wavs(k, 0.3, 0.05)
        m, ms = g.modes(k)
        sh = g.shape(nd, 3)
        for ax, rw, q in zip(axes, rws, ms):
            sh[ax] = (1 if q == PER else rw.L // 2) + g.r.randint(0, 3)
        dt = g.dt(0.05)
        keys = [''.join('ad'[b] for b in i) for i in np.ndindex(*([2] * k))]
        g.r.shuffle(keys)
        v = {}
        for q in keys:
            u = g.r.random()
            if u < 0.9 or not v:
                v[q] = coeff_arrs(g, sh, dt, 1)[0]
            elif u < 0.95:
                v[q] = None
        return {'c': g.add({'k': 'dict', 'v': v}), 'w': w, 'm': m, 'axes': {'T': axes}}

    def real(P, a):
        return P.idwtn(a['c'], a['w'], a['m'], a['axes'])

    def ref(a):
        k = len(a['axes'])
        return cast(R.idwtn(a['c'], aslist(a['w'], k), aslist(a['m'], k), a['axes']), dts(a['c']))


# ================================================================= multilevel, inverse
def gen_rec(g, nd, k, form, miss=1):
    """random coefficients with the shapes of a real decomposition, sharing one caller-owned container"""
    axes = g.axes(nd, k)
    w, rws = g.wavs(k, 0.25 if k > 1 else 0, 0.05)
    m, ms = g.modes(k, 0.25 if k > 1 else 0)
    sh = [g.n1(6, 40)] if nd == 1 else g.shape(nd, {2: 12, 3: 6}[nd], 3)
    lv = g.r.choice([0, 1, 1, 2, 2, 3, 4 if k == 1 else 1])
    if deep(g, nd):
        lv = g.r.randint(4, 7) if nd == 1 else g.r.randint(2, 4)
        w, rw = g.wav(0, name=g.r.choice(['haar', 'haar', 'db2', 'bior1.3', 'coif1', 'sym3']))
        m = g.r.choice(['symmetric', 'periodization', 'zero', 'periodic'])
        rws, ms = [rw] * k, [m] * k
    dt = g.dt(0.05)
    shapes, cur = [], list(sh)
    for _ in range(lv):
        for ax, rw, q in zip(axes, rws, ms):
            cur[ax] = R.dwt_len(cur[ax], rw.L, q)
        shapes.append(list(cur))
    out = []
    top = g.arr(shapes[-1] if lv else sh, dt, odd=0.05)
    if lv and g.r.random() < 0.06 * miss:
        top = None
    keys = [''.join('ad'[b] for b in i) for i in np.ndindex(*([2] * k))][1:]
    for i, s in enumerate(reversed(shapes)):
        if form == 'wavedec':
            d = g.arr(s, dt, odd=0.05) if i < lv - 1 or g.r.random() < 1 - 0.1 * miss else None
        elif form == 'wavedec2':
            d = g.add({'k': 'tuple', 'v': [g.arr(s, dt) if g.r.random() < 1 - 0.03 * miss else None for _ in range(3)]})
        else:
            kk = list(keys)
            g.r.shuffle(kk)
            d = g.add({'k': 'dict', 'v': {q: g.arr(s, dt) for q in kk}})
        out.append(d)
    if top is None and form == 'wavedec' and out and out[0] is None:
        out[0] = g.arr(shapes[-1], dt)
    c = g.add({'k': 'list', 'v': [top] + out})
    return {'c': c, 'w': w, 'm': m, 'axes': {'T': axes}}


def ref_rec(c, a):
    k = len(a['axes'])
    return cast(R.waverecn(c, aslist(a['w'], k), aslist(a['m'], k), a['axes']), dts(c))


@op('waverec', 'inv')
class _:
    def gen(g):
        return gen_rec(g, g.r.choice([1, 1, 2]), 1, 'wavedec')

    def real(P, a):
        return P.waverec(a['c'], a['w'], a['m'], a['axes'][0])

    def ref(a):
        c = a['c']
        if c[0] is None and all(d is None for d in c[1:]):
            return NotImplemented
        if len(c) == 1:
            return c[0]
        return ref_rec([c[0]] + [{'d': d} for d in c[1:]], a)


@op('waverec2', 'inv')
class _:
    def gen(g):
        return gen_rec(g, g.r.choice([2, 2, 3]), 2, 'wavedec2')

    def real(P, a):
        return P.waverec2(a['c'], a['w'], a['m'], a['axes'])

    def ref(a):
        c = a['c']
        if len(c) == 1:
            return c[0]
        return ref_rec([c[0]] + [dict(zip(('da', 'ad', 'dd'), d)) for d in c[1:]], a)


@op('waverecn', 'inv')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 3])
        return gen_rec(g, nd, g.r.randint(1, nd), 'wavedecn')

    def real(P, a):
        return P.waverecn(a['c'], a['w'], a['m'], a['axes'])

    def ref(a):
        if len(a['c']) == 1:
            return a['c'][0]
        return ref_rec(a['c'], a)


# ================================================================= stationary
def gen_swt(g, nd, k):
    lv = g.r.choice([1, 1, 2, 3, 4 if nd == 1 else 1]) if nd < 3 else g.r.choice([1, 2])
    if deep(g, nd):
        lv = g.r.randint(4, 7) if nd == 1 else 3
    st = g.r.choice([0, 0, 0, 1]) if lv < 3 else 0
    axes = g.axes(nd, k)
    sh = g.shape(nd, 3)
    q = 2 ** (lv + st)
    for ax in axes:
        sh[ax] = q * g.r.randint(1, max(1, g.hi(nd, {1: 40, 2: 12, 3: 6}[nd]) // q))
    if k == nd:
        g.tall(sh, 1, q)
    w, rws = g.wavs(k, 0.25 if k > 1 else 0, 0.05)
    norm = g.r.random() < 0.3
    return {'x': g.arr(sh), 'w': w, 'l': lv, 's': st, 'axes': {'T': axes}, 'trim': g.r.random() < 0.4, 'norm': norm}


def ref_swt(a):
    k = len(a['axes'])
    ws = aslist(a['w'], k)
    if a['norm']:
        ws = [w.scaled(1 / np.sqrt(2)) for w in ws]
    lv = R.swt_max_level(np.shape(a['x'])[a['axes'][0]]) if a['l'] is None else a['l']
    r = R.swtn(a['x'], ws, lv, a['s'], a['axes'])
    return cast(r, R.out_dtype(a['x']))


@op('swt', 'fwd')
class _:
    def gen(g):
        a = gen_swt(g, g.r.choice([1, 1, 2]), 1)
        sp = g.world[a['x']['$']]
        if not a['s'] and sp['sh'][a['axes']['T'][0]] <= 96 and g.r.random() < .15:
            a['l'] = None
        return a

    def real(P, a):
        return P.swt(a['x'], a['w'], a['l'], a['s'], a['axes'][0], a['trim'], a['norm'])

    def ref(a):
        r = ref_swt(a)
        if a['trim']:
            return [r[0]['a']] + [c['d'] for c in r]
        return [(c['a'], c['d']) for c in r]


@op('swt2', 'fwd')
class _:
    def gen(g):
        return gen_swt(g, g.r.choice([2, 2, 3]), 2)

    def real(P, a):
        return P.swt2(a['x'], a['w'], a['l'], a['s'], a['axes'], a['trim'], a['norm'])

    def ref(a):
        r = ref_swt(a)
        if a['trim']:
            return [r[0]['aa']] + [(c['da'], c['ad'], c['dd']) for c in r]
        return [(c['aa'], (c['da'], c['ad'], c['dd'])) for c in r]


@op('swtn', 'fwd')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 3])
        return gen_swt(g, nd, g.r.randint(1, nd))

    def real(P, a):
        return P.swtn(a['x'], a['w'], a['l'], a['s'], a['axes'], a['trim'], a['norm'])

    def ref(a):
        r = ref_swt(a)
        if a['trim']:
            t = r[0]['a' * len(a['axes'])]
            for c in r:
                c.pop('a' * len(a['axes']))
            return [t] + r
        return r


def gen_iswt(g, nd, k, form):
    lv = g.r.choice([1, 1, 2, 3]) if k == 1 else g.r.choice([1, 1, 2])
    axes = g.axes(nd, k)
    sh = g.shape(nd, 3)
    q = 2 ** lv
    for ax in axes:
        sh[ax] = q * g.r.randint(1, max(1, g.hi(nd, {1: 32, 2: 8, 3: 4}[nd]) // q))
    if k == nd:
        g.tall(sh, 1, q)
    w, rws = g.wavs(k, 0.25 if k > 1 else 0, 0.03)
    dt = g.r.choice(FDT)
    trim = g.r.random() < 0.4
    keys = [''.join('ad'[b] for b in i) for i in np.ndindex(*([2] * k))]
    out = []
    mk = lambda: g.arr(sh, dt)  # noqa: E731
    if trim:
        out.append(mk())
    for _ in range(lv):
        if form == 'swt':
            out.append(mk() if trim else g.add({'k': 'tuple', 'v': [mk(), mk()]}))
        elif form == 'swt2':
            t = g.add({'k': 'tuple', 'v': [mk(), mk(), mk()]})
            out.append(t if trim else g.add({'k': 'tuple', 'v': [mk(), t]}))
        else:
            kk = keys[1:] if trim else list(keys)
            g.r.shuffle(kk)
            out.append(g.add({'k': 'dict', 'v': {q: mk() for q in kk}}))
    return {'c': g.add({'k': 'list', 'v': out}), 'w': w, 'axes': {'T': axes}, 'norm': g.r.random() < 0.3, 'trim': trim}


def ref_iswt(top, det, a):
    k = len(a['axes'])
    ws = aslist(a['w'], k)
    if a['norm']:
        ws = [w.scaled(np.sqrt(2)) for w in ws]
    return cast(R.iswtn(top, det, ws, a['axes']), dts(top, det))


@op('iswt', 'inv')
class _:
    def gen(g):
        return gen_iswt(g, g.r.choice([1, 1, 2]), 1, 'swt')

    def real(P, a):
        return P.iswt(a['c'], a['w'], a['norm'], a['axes'][0])

    def ref(a):
        c = a['c']
        if a['trim']:
            return ref_iswt(c[0], [{'d': d} for d in c[1:]], a)
        return ref_iswt(c[0][0], [{'d': d} for _, d in c], a)


@op('iswt2', 'inv')
class _:
    def gen(g):
        a = gen_iswt(g, 2, 2, 'swt2')
        a['axes'] = {'T': [0, 1]}
        return a

    def real(P, a):
        return P.iswt2(a['c'], a['w'], a['norm'])

    def ref(a):
        c = a['c']
        dd = lambda t: dict(zip(('da', 'ad', 'dd'), t))  # noqa: E731
        if a['trim']:
            return ref_iswt(c[0], [dd(t) for t in c[1:]], a)
        return ref_iswt(c[0][0], [dd(t) for _, t in c], a)


@op('iswtn', 'inv')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 3])
        return gen_iswt(g, nd, g.r.randint(1, nd), 'swtn')

    def real(P, a):
        return P.iswtn(a['c'], a['w'], a['axes'], a['norm'])

    def ref(a):
        c = a['c']
        k = 'a' * len(a['axes'])
        top = c[0] if a['trim'] else c[0][k]
        det = [{q: v for q, v in d.items() if q != k} for d in (c[1:] if a['trim'] else c)]
        return ref_iswt(top, det, a)


# ================================================================= multiresolution analysis
def gen_mra(g, nd, k):
    tr = g.r.choice(['swt', 'dwt'])
    if tr == 'swt':
        a = gen_swt(g, nd, k)
        a['m'] = PER
        a.pop('s'), a.pop('trim'), a.pop('norm')
        a['l'] = min(a['l'], 2)
    else:
        a = gen_multi(g, nd, k)
        a['l'] = a['l'] if a['l'] is None else min(a['l'], 2)
    a['tr'] = tr
    spec = g.world[a['x']['$']]
    if spec['dt'] in ODDT:
        spec['dt'] = 'float64'
    return a


def ref_mra(a):
    axes = a['axes']
    k = len(axes)
    ws = aslist(a['w'], k)
    x = np.asarray(a['x'])
    if a['tr'] == 'swt':
        r = R.swtn(x, [w.scaled(1 / np.sqrt(2)) for w in ws], a['l'], 0, axes)
        ap = 'a' * k
        top = r[0][ap]
        det = [{q: v for q, v in c.items() if q != ap} for c in r]
        inv = lambda t, d: R.iswtn(t, d, [w.scaled(np.sqrt(2)) for w in ws], axes)  # noqa: E731
    else:
        c = R.wavedecn(x, ws, aslist(a['m'], k), a['l'] if a['l'] is not None else min(
            R.max_level(x.shape[ax], w.L) for ax, w in zip(axes, ws)), axes)
        top, det = c[0], c[1:]
        inv = lambda t, d: R.waverecn([t] + d, ws, aslist(a['m'], k), axes)  # noqa: E731
    z = lambda d: {q: np.zeros_like(v) for q, v in d.items()}  # noqa: E731
    trim = lambda v: v[tuple(slice(s) for s in x.shape)]  # noqa: E731
    out = [trim(inv(top, [z(d) for d in det]))]
    for i, d in enumerate(det):
        item = {}
        for key in d:
            dd = [z(q) for q in det]
            dd[i][key] = d[key]
            item[key] = trim(inv(np.zeros_like(top), dd))
        out.append(item)
    return cast(out, R.out_dtype(x))


@op('mra', 'fwd', 'inv')
class _:
    def gen(g):
        return gen_mra(g, 1 if g.r.random() < .8 else 2, 1)

    def real(P, a):
        return P.mra(a['x'], a['w'], a['l'], a['axes'][0], a['tr'], a['m'])

    def ref(a):
        r = ref_mra(a)
        return [r[0]] + [d['d'] for d in r[1:]]


@op('mra2', 'fwd', 'inv')
class _:
    def gen(g):
        a = gen_mra(g, 2, 2)
        if a['tr'] == 'swt':
            a['axes'] = {'T': [0, 1]}
        return a

    def real(P, a):
        return P.mra2(a['x'], a['w'], a['l'], a['axes'], a['tr'] + '2', a['m'])

    def ref(a):
        r = ref_mra(a)
        return [r[0]] + [(d['da'], d['ad'], d['dd']) for d in r[1:]]


@op('mran', 'fwd', 'inv')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 2, 3])
        return gen_mra(g, nd, g.r.randint(1, min(nd, 2)))

    def real(P, a):
        return P.mran(a['x'], a['w'], a['l'], a['axes'], a['tr'] + 'n', a['m'])

    ref = ref_mra


@op('imra', 'inv')
class _:
    """imra / imra2 / imran: summation of caller-owned arrays"""
    def gen(g):
        form = g.r.choice(['imra', 'imra2', 'imran'])
        nd = {'imra': 1, 'imra2': 2, 'imran': g.r.choice([1, 2, 3])}[form]
        sh = g.shape(nd, 6)
        dt = g.r.choice(FDT)
        out = [g.arr(sh, dt)]
        for _ in range(g.r.randint(1, 3)):
            if form == 'imra':
                out.append(g.arr(sh, dt))
            elif form == 'imra2':
                out.append(g.add({'k': 'tuple', 'v': [g.arr(sh, dt) for _ in range(3)]}))
            else:
                out.append(g.add({'k': 'dict', 'v': {q: g.arr(sh, dt) for q in
                                                     (['d'] if nd == 1 else ['ad', 'da', 'dd'])}}))
        return {'c': g.add({'k': 'list', 'v': out}), 'f': form}

    def real(P, a):
        return getattr(P, a['f'])(a['c'])

    def ref(a):
        def tot(v):
            if isinstance(v, np.ndarray):
                return R.work(v)
            return sum(tot(x) for x in (v.values() if isinstance(v, dict) else v))
        return cast(tot(a['c']), dts(a['c']))


# ================================================================= coefficient packing
@op('pack', 'inv', 'fwd')
class _:
    """coeffs_to_array, ravel_coeffs and back, on caller-owned coefficient containers"""
    def gen(g):
        nd = g.r.choice([1, 2, 2, 3])
        k = g.r.randint(1, nd)
        form = {(1, 1): g.r.choice(['wavedec', 'wavedecn']), (2, 2): g.r.choice(['wavedec2', 'wavedecn'])}.get(
            (nd, k), 'wavedecn')
        a = gen_rec(g, nd, k, form, 0)
        uniform(g, a['c']['$'], g.r.choice(FDT))
        a.update(form=form, pad=g.r.choice([0, 0, 7, -2.5, None]), how=g.r.choice(['arr', 'arr', 'ravel', 'ravel', 'size']))
        if nd == k and g.r.random() < .7:
            a['axes'] = None
        if form != 'wavedecn' and a['how'] == 'size':
            a['how'] = 'arr'
        return {k: a[k] for k in ('c', 'form', 'pad', 'how', 'axes')}

    def real(P, a):
        kw = {} if a['axes'] is None else {'axes': a['axes']}
        if a['how'] == 'size':
            return int(P.wavedecn_size(a['c']))
        if a['how'] == 'arr':
            arr, sl = P.coeffs_to_array(a['c'], padding=a['pad'], **kw)
            back = P.array_to_coeffs(arr, sl, output_format=a['form'])
            return [arr, back]
        arr, sl, sh = P.ravel_coeffs(a['c'], **kw)
        return [arr, P.unravel_coeffs(arr, sl, sh, output_format=a['form'])]

    def ref(a):
        c = a['c']
        names = {'wavedec': ['d'], 'wavedec2': ['da', 'ad', 'dd']}.get(a['form'])
        ds = [d if isinstance(d, dict) else dict(zip(names, [d] if a['form'] == 'wavedec' else d)) for d in c[1:]]
        if a['how'] == 'size':
            return int(c[0].size + sum(v.size for d in ds for v in d.values()))
        if len(c) == 1:
            return NotImplemented
        dt = c[0].dtype.newbyteorder('=')
        if a['how'] == 'arr' and a['pad'] is None:
            return NotImplemented
        if a['how'] == 'arr':
            ax = list(range(c[0].ndim)) if a['axes'] is None else [q % c[0].ndim for q in a['axes']]
            size = list(c[0].shape)
            for d in ds:
                sh = next(iter(d.values())).shape
                for q in ax:
                    size[q] += sh[q]
            m = np.full(size, a['pad'], dtype=dt)
            m[tuple(slice(n) for n in c[0].shape)] = c[0]
            cur = list(c[0].shape)
            for d in ds:
                sh = next(iter(d.values())).shape
                for key, v in d.items():
                    s = [slice(None)] * len(size)
                    for q, ch in zip(ax, key):
                        s[q] = slice(cur[q], cur[q] + sh[q]) if ch == 'd' else slice(sh[q])
                    m[tuple(s)] = v
                for q in ax:
                    cur[q] += sh[q]
            return [m, c]
        parts = [c[0].ravel()]
        for dd in ds:
            parts += [dd[k].ravel() for k in sorted(dd)]
        return [np.concatenate(parts).astype(dt), c]


def uniform(g, i, dt):
    s = g.world[i]
    if s['k'] == 'arr':
        s['dt'] = dt
        if s['lay'] == 'bs':
            s['lay'] = 'C'
        return
    for v in (s['v'].values() if isinstance(s['v'], dict) else s['v']):
        uniform(g, v['$'], dt)


# ================================================================= continuous transform
CWN = ['gaus1', 'gaus2', 'gaus5', 'gaus8', 'mexh', 'morl', 'cgau1', 'cgau4', 'cgau8', 'shan1.5-1.0', 'fbsp1-1.5-1.0',
       'cmor1.5-1.0', 'shan0.5-2', 'fbsp2-1-0.5', 'cmor2.5-0.5', 'cmor', 'shan', 'fbsp']


def gen_cw(g, form=None):
    n = g.r.choice(CWN)
    form = form or g.r.choice(['name', 'cwav', 'cwav'])
    s = {'k': form, 'n': n}
    if form == 'cwav' and g.r.random() < 0.4:
        lo = -g.r.choice([2, 3, 4, 6.5])
        s['set'] = {'lower_bound': lo, 'upper_bound': g.r.choice([-lo, -lo, 1 - lo, 2.5])}
        if n.startswith(('cmor', 'shan', 'fbsp')) and g.r.random() < 0.6:
            s['set'].update(center_frequency=g.r.choice([0.5, 1.0, 2.0]), bandwidth_frequency=g.r.choice([0.75, 1.5]))
    return g.add(s)


@op('cwt', 'fwd', 'cw')
class _:
    def gen(g):
        nd = g.r.choice([1, 1, 2])
        sh = [g.r.randint(4, g.hi(1, 40))] if nd == 1 else [g.r.randint(1, 3), g.r.randint(4, 16)]
        ax = -1 if nd == 1 or g.r.random() < .6 else 0
        if ax == 0:
            sh = sh[::-1]
        sc = [g.r.choice([1, 2, 3, 4, 6, 2.5, 1.5, 12, 30]) for _ in range(g.r.randint(1, 4))]
        if g.r.random() < .5:
            sc = sorted(set(sc))
        if g.r.random() < .3:
            sc = g.add({'k': 'nparr', 'v': [float(q) for q in sc], 'dt': g.r.choice(['float64', 'float64', 'float32'])})
        return {'x': g.arr(sh), 'w': gen_cw(g), 'sc': sc, 'meth': g.r.choice(['conv', 'fft']), 'ax': ax,
                'p': g.r.choice([1.0, 0.25])}

    def real(P, a):
        return P.cwt(a['x'], a['sc'], a['w'], a['p'], a['meth'], a['ax'])

    def ref(a):
        x = np.asarray(a['x'])
        w = a['w']
        dt = R.out_dtype(x)
        if getattr(a['sc'], 'dtype', None) == np.float32:
            return NotImplemented           # positions are rounded in single precision then
        psi, grid = w.psi(10)
        c, f = R.cwt(x, a['sc'], psi, grid, w.cplx, a['ax'], a['p'])
        odt = np.result_type(dt, np.complex64) if w.cplx else dt
        return [c.astype(odt), f]


@op('cwavefun', 'cw', 'wobj')
class _:
    def gen(g):
        return {'w': gen_cw(g, 'cwav'), 'l': g.r.choice([3, 5, 8, 8, 10]), 'len': g.r.choice([None, None, 17, 200])}

    def real(P, a):
        if a['l'] == 8 and a['len'] is None:
            return a['w'].wavefun()
        return a['w'].wavefun(a['l'], length=a['len'])

    def ref(a):
        return list(a['w'].psi(a['l'], a['len']))


@op('cfreq', 'cw', 'wobj')
class _:
    def gen(g):
        return {'w': gen_cw(g, 'cwav'), 'p': g.r.choice([6, 8, 10]), 's': g.r.choice([1, 2, 3.5])}

    def real(P, a):
        return [float(P.central_frequency(a['w'], a['p'])), float(P.scale2frequency(a['w'], a['s'], a['p']))]

    def ref(a):
        psi, x = a['w'].psi(a['p'])
        if not R.clear_peak(psi):
            return NotImplemented
        f = R.central_frequency(psi, x)
        return [f, f / a['s']]


@op('dfreq', 'wobj')
class _:
    """centre frequency of a discrete or continuous wavelet, by object or name, both directions"""
    def gen(g):
        w = g.wav(0.05, g.r.choice(['name', 'wav', 'cust']))[0] if g.r.random() < .7 else gen_cw(g)
        return {'w': w, 'p': g.r.choice([6, 7, 8]), 's': g.r.choice([1, 2, 3.5])}

    def real(P, a):
        w, p = a['w'], a['p']
        if isinstance(w, str) and p == 8:
            f = P.central_frequency(w)
        else:
            if isinstance(w, str):
                w = P.DiscreteContinuousWavelet(w)
            f = P.central_frequency(w, p)
        return [float(f), float(P.scale2frequency(w, a['s'], p)), float(P.frequency2scale(w, a['s'], p)),
                np.asarray(P.scale2frequency(w, np.array([1., 2., 5.]), p))]

    def ref(a):
        w = a['w']
        if isinstance(w, R.CWav):
            psi, x = w.psi(a['p'])
        else:
            f = R.wavefun(w, a['p'])
            psi, x = f[1], f[-1]
        if not R.clear_peak(psi):
            return NotImplemented
        f = R.central_frequency(psi, x)
        return [f, f / a['s'], f / a['s'], f / np.array([1., 2., 5.])]


@op('integrate', 'wobj')
class _:
    def gen(g):
        return {'w': g.wav(0.05)[0] if g.r.random() < .6 else gen_cw(g), 'p': g.r.choice([3, 5, 7])}

    def real(P, a):
        return P.integrate_wavelet(a['w'], precision=a['p'])

    def ref(a):
        w = a['w']
        if isinstance(w, R.CWav):
            psi, x = w.psi(a['p'])
            return [np.cumsum(psi) * (x[1] - x[0]), x]
        f = R.wavefun(w, a['p'])
        st = f[-1][1] - f[-1][0]
        if len(f) == 3:
            return [np.cumsum(f[1]) * st, f[2]]
        return [np.cumsum(f[1]) * st, np.cumsum(f[3]) * st, f[4]]


@op('wavefun', 'wobj')
class _:
    def gen(g):
        return {'w': g.wav(0.1, g.r.choice(['wav', 'wav', 'cust']))[0], 'l': g.r.choice([1, 2, 4, 6, 8])}

    def real(P, a):
        return a['w'].wavefun(a['l'])

    def ref(a):
        return list(R.wavefun(a['w'], a['l']))


@op('wattrs', 'wobj')
class _:
    """every attribute of a (shared) wavelet object, twice: returned lists are scribbled on in between"""
    def gen(g):
        if g.r.random() < 0.7:
            return {'w': g.wav(0.4, g.r.choice(['wav', 'wav', 'cust']))[0], 'sc': g.r.random() < .7}
        return {'w': gen_cw(g, 'cwav'), 'sc': False}

    def real(P, a):
        w = a['w']
        if hasattr(w, 'dec_lo'):
            out = [list(w.dec_lo), list(w.dec_hi), list(w.rec_lo), list(w.rec_hi)]
            if a['sc']:
                for f in (w.dec_lo, w.rec_hi):
                    f[0] = 1e9
                    f.append(3.0)
                for f in w.filter_bank:
                    f[-1] = -1e9
                w.get_filters_coeffs() if False else None
            out += [[list(f) for f in w.filter_bank], [list(f) for f in w.inverse_filter_bank],
                    w.orthogonal, w.biorthogonal, w.dec_len, w.rec_len, w.name, str(w)]
            return out
        return [w.lower_bound, w.upper_bound, w.complex_cwt, w.name, w.family_name, w.short_family_name,
                w.center_frequency, w.bandwidth_frequency, w.fbsp_order, str(w)]

    def ref(a):
        w = a['w']
        if isinstance(w, R.CWav):
            return NotImplemented
        fb = [[float(v) for v in f] for f in w.fb]
        inv = [fb[2][::-1], fb[3][::-1], fb[0][::-1], fb[1][::-1]]
        return fb + [fb, inv, w.orthogonal, w.biorthogonal, w.L, w.L, w.name, R.ANY]


@op('newwav', 'wobj')
class _:
    """construct, inspect, edit and drop a Wavelet; must not be visible to anybody else"""
    def gen(g):
        kind = g.r.choice(['disc', 'disc', 'cust', 'cont', 'dc'])
        n = g.r.choice(CWN) if kind in ('cont', 'dc') and g.r.random() < .8 else g.wname(0.4)
        if kind == 'cont':
            n = g.r.choice(CWN)
        return {'kind': kind, 'n': n, 'edit': g.r.random() < 0.6}

    def real(P, a):
        if a['kind'] == 'cont':
            w = P.ContinuousWavelet(a['n'])
        elif a['kind'] == 'dc':
            w = P.DiscreteContinuousWavelet(a['n'])
        elif a['kind'] == 'disc':
            w = P.Wavelet(a['n'])
        else:
            w = P.Wavelet(a['n'] + 'x', filter_bank=[[float.fromhex(v) for v in f] for f in
                                                     R.GOLDEN['discrete'][a['n']]['filters']])
        if hasattr(w, 'dec_lo'):
            out = [[list(f) for f in w.filter_bank], w.orthogonal, w.biorthogonal, w.symmetry, w.family_name,
                   w.short_family_name, w.vanishing_moments_psi, w.vanishing_moments_phi, w.family_number]
            if a['edit']:
                w.orthogonal = not w.orthogonal
                w.biorthogonal = not w.biorthogonal
        else:
            out = [w.lower_bound, w.upper_bound, w.center_frequency, w.bandwidth_frequency, w.fbsp_order,
                   w.complex_cwt, w.symmetry, w.family_name, w.short_family_name]
            if a['edit']:
                w.lower_bound = -1.5
                w.upper_bound = 1.5
        return out

    def ref(a):
        k = 'continuous' if a['n'] in R.GOLDEN['continuous'] else 'discrete'
        if a['kind'] == 'cust' or (a['n'] not in R.GOLDEN[k]):
            return NotImplemented
        g = R.GOLDEN[k][a['n']]
        if k == 'discrete':
            fb = [[float.fromhex(v) for v in f] for f in g['filters']]
            return [fb] + [g[q] for q in ('orthogonal', 'biorthogonal', 'symmetry', 'family_name', 'short_family_name',
                                          'vanishing_moments_psi', 'vanishing_moments_phi', 'family_number')]
        return [g[q] for q in ('lower_bound', 'upper_bound', 'center_frequency', 'bandwidth_frequency', 'fbsp_order',
                               'complex_cwt', 'symmetry', 'family_name', 'short_family_name')]


@op('wcopy', 'wobj')
class _:
    """pickle round trip or copy of a (shared) wavelet object; the copy is inspected, edited and dropped"""
    def gen(g):
        w = g.wav(0.3, g.r.choice(['wav', 'wav', 'cust']))[0] if g.r.random() < .6 else gen_cw(g, 'cwav')
        return {'w': w, 'how': g.r.choice(['pickle', 'pickle', 'copy', 'deepcopy']), 'proto': g.r.choice([2, 4, 5])}

    def real(P, a):
        import copy
        import pickle
        w = a['w']
        v = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
             'pickle': lambda o: pickle.loads(pickle.dumps(o, a['proto']))}[a['how']](w)
        import world
        out = world.freeze(v)
        v.orthogonal = not v.orthogonal
        if not hasattr(v, 'dec_lo'):
            v.upper_bound = 99.0
        return out

    def ref(a):
        return NotImplemented


@op('registry', 'wobj')
class _:
    """wavelist/families/Modes; the returned lists are scribbled on"""
    def gen(g):
        f = g.r.choice([None, None] + R.GOLDEN['families'])
        return {'fam': f, 'kind': g.r.choice(['all', 'discrete', 'continuous']), 'sc': g.r.random() < .7}

    def real(P, a):
        fams, longs = P.families(), P.families(short=False)
        out = [list(fams), list(longs), None, list(P.Modes.modes), [P.Modes.from_object(m) for m in P.Modes.modes]]
        lst = P.wavelist(a['fam'], a['kind']) if a['fam'] is None else P.wavelist(a['fam'])
        out[2] = list(lst)
        if a['sc']:
            fams[:] = ['gone']
            longs.append('x')
            lst.reverse()
            lst.clear()
        return out

    def ref(a):
        gd = R.GOLDEN
        lst = gd['by_family'][a['fam']] if a['fam'] else gd[
            'wavelist' if a['kind'] == 'all' else 'wavelist_' + a['kind']]
        return [gd['families'], gd['families_long'], lst, R.MODES, R.MODE_ENUM]


# ================================================================= packet trees as one-shot operations
def gen_wp(g, dim):
    nd = dim if dim < 3 else g.r.choice([1, 2, 3])
    sh = g.shape(nd, {1: 24, 2: 9, 3: 5}[nd])
    w, rw = g.wav(0, name=g.r.choice(['haar', 'db2', 'sym3', 'bior1.3', 'rbio2.2', 'coif1']))
    m = g.r.choice(['symmetric', 'periodization', 'zero', 'periodic', 'constant', 'antisymmetric'])
    return {'x': g.arr(sh), 'w': w, 'm': m, 'l': g.r.randint(1, 3 if nd == 1 else 2 if nd == 2 else 1),
            'ord': g.r.choice(['natural', 'freq']), 'drop': g.r.random() < .5}


def wp_real(cls):
    def real(P, a):
        t = getattr(P, cls)(a['x'], a['w'], a['m'], maxlevel=a['l'])
        lv = t.get_level(a['l']) if cls == 'WaveletPacketND' else t.get_level(a['l'], 'natural')
        out = [[n.path for n in lv], [np.array(n.data) for n in lv]]
        if a['drop']:
            del t[lv[-1].path]
        out.append(np.array(t.reconstruct(update=False)))
        return out
    return real


def wp_ref(dim):
    def ref(a):
        x = np.asarray(a['x'])
        nd = x.ndim
        from itertools import product
        key = {'a': 'aa', 'h': 'da', 'v': 'ad', 'd': 'dd'} if dim == 2 else {
            ''.join(k): ''.join(k) for k in product('ad', repeat=nd)}
        ax = tuple(range(nd))
        dt = R.out_dtype(x)

        def dec(v, l):
            if l == 0:
                return [('', v.astype(dt))]
            c = R.dwtn(v, [a['w']] * nd, [a['m']] * nd, ax)
            return [(p + q, u) for p in key for q, u in dec(c[key[p]].astype(dt), l - 1)]

        def rec(leaves, l, sh):
            if l == 0:
                return leaves[0]
            n = len(leaves) // len(key)
            sub = [R.dwt_len(s, a['w'].L, a['m']) for s in sh]
            c = {key[p]: rec(leaves[i * n:(i + 1) * n], l - 1, sub) for i, p in enumerate(key)}
            c = {k: v for k, v in c.items() if v is not None}
            if not c:
                return None
            r = R.idwtn(c, [a['w']] * nd, [a['m']] * nd, ax)
            return r[tuple(slice(s) for s in sh)].astype(dt)
        lv = dec(x.astype(dt), a['l'])
        data = [v for _, v in lv]
        rd = list(data)
        if a['drop']:
            rd[-1] = None
        return [[p for p, _ in lv], data, rec(rd, a['l'], x.shape)]
    return ref


for _n, _c, _d in (('wp1', 'WaveletPacket', 1), ('wp2', 'WaveletPacket2D', 2), ('wpn', 'WaveletPacketND', 3)):
    OPS[_n] = Op(_n, {'fwd', 'tree'}, lambda g, d=_d: gen_wp(g, d), wp_real(_c), wp_ref(_d))


@op('wph', 'tree', 'hist')
class _:
    """a short history on a packet tree of one's own: lookups, assignments, deletions, reconstruction, copies"""
    def gen(g):
        import gens
        t = gens.TG(g.r, [1, 1, 1, 2, 'n'], .1, 3e4, g)
        w = {'get': 5, 'set': 3, 'del': 2, 'dec': 1, 'rec': 3, 'nrec': 1, 'level': 2, 'leaves': 2, 'walk': 1, 'wdepth': .5,
             'sub': 1, 'pick': .8, 'deep': .4}
        steps = []
        for _ in range(g.r.randint(1, 5)):
            for _ in range(8):
                o = t.op(w)
                if o['op'] in ('pick', 'deep'):
                    o['a'] = {'proto': g.r.choice([2, 4, 5]), 'go': int(g.r.random() < .6)}
                if o['a'].get('v', {}).get('k') == 'arr':
                    o['a']['v']['x'] = {'$': o['a']['v'].pop('i')}
                if o['a'].get('path') != 7 and o['a'].get('path', '') is not None:
                    break
            steps.append(o)
        return {'cfg': t.cfg, 'steps': steps}

    def real(P, a):
        import treesim
        return treesim.call_real(P, a)

    def ref(a):
        import treesim
        return treesim.call_ref(a)


# ================================================================= the caller changes process-wide settings
@op('ambient', 'ambient')
class _:
    """settings that must not influence any result"""
    def gen(g):
        r = g.r
        return {'c': r.choice(['print', 'err', 'rand', 'warn', 'cwd', 'env', 'gc', 'rec', 'ctx']), 'v': r.randrange(100)}

    def real(P, a):
        import gc
        import os
        import random
        import sys
        import warnings
        c, v = a['c'], a['v']
        if c == 'print':
            np.set_printoptions(precision=1 + v % 4, threshold=3, edgeitems=1, suppress=bool(v % 2), linewidth=20 + v)
        elif c == 'err':
            np.seterr(all=['ignore', 'warn'][v % 2])
        elif c == 'rand':
            random.seed(v)
            np.random.seed(v)
        elif c == 'warn':
            warnings.resetwarnings()
            warnings.simplefilter(['ignore', 'once'][v % 2])
        elif c == 'cwd':
            os.chdir(['/usr', '/'][v % 2])
        elif c == 'env':
            os.environ['HOME'] = '/elsewhere%d' % v
            os.environ.pop('TZ', None)
        elif c == 'gc':
            gc.set_threshold(100 + v)
        elif c == 'rec':
            sys.setrecursionlimit(900 + v)
        elif c == 'ctx':
            import decimal
            decimal.getcontext().prec = 3 + v % 5


# ================================================================= packaged data
@op('dataset', 'pkg')
class _:
    def gen(g):
        n = g.r.choice(['ecg', 'nino', 'ecg', 'nino', 'aero', 'ascent', 'camera', 'signal', 'signal', 'signal'])
        a = {'n': n}
        if n == 'signal':
            a['s'] = g.r.choice(['Blocks', 'Bumps', 'Doppler', 'HeaviSine', 'QuadChirp', 'MishMash', 'Piece-Regular',
                                 'Riemann', 'HypChirps', 'Chirps'])
            a['len'] = g.r.choice([16, 64, 100])
        return a

    def real(P, a):
        import pywt.data as D
        if a['n'] == 'signal':
            return D.demo_signal(a['s'], a['len'])
        return getattr(D, a['n'])()

    def ref(a):
        return NotImplemented


# ================================================================= scalars and small helpers
@op('lens', 'fwd')
class _:
    def gen(g):
        n = g.r.randint(1, 200)
        w, rw = g.wav(0.3)
        return {'n': n, 'w': w, 'L': rw.L, 'm': g.mode()}

    def real(P, a):
        return [P.dwt_max_level(a['n'], a['L']), P.dwt_max_level(a['n'], a['w']), P.dwt_coeff_len(a['n'], a['L'], a['m']),
                P.swt_max_level(a['n']), P.dwtn_max_level((a['n'], a['n'] + 3), a['w']),
                P.dwtn_max_level((2, a['n'], a['n'] + 1), a['w'], (1, -1))]

    def ref(a):
        m = R.max_level(a['n'], a['L'])
        return [m, m, R.dwt_len(a['n'], a['L'], a['m']), R.swt_max_level(a['n']), m, m]


@op('shapes', 'fwd')
class _:
    def gen(g):
        nd = g.r.choice([1, 2, 3])
        sh = [g.r.randint(4, 30) for _ in range(nd)]
        w, rws = g.wavs(nd, 0.3, 0.05)
        m, ms = g.modes(nd)
        return {'sh': {'T': sh}, 'w': w, 'm': m, 'l': g.r.randint(1, 3), 'k': g.r.random() < .5}

    def real(P, a):
        if a['k']:
            s = P.wavedecn_shapes(a['sh'], a['w'], a['m'], a['l'], tuple(range(-len(a['sh']), 0)))
        else:
            s = P.wavedecn_shapes(a['sh'], a['w'], a['m'], a['l'])
        return [[tuple(int(q) for q in v) if isinstance(v, tuple) else
                 {k: tuple(int(q) for q in u) for k, u in v.items()} for v in s], int(P.wavedecn_size(s))]

    def ref(a):
        nd = len(a['sh'])
        ws, ms = aslist(a['w'], nd), aslist(a['m'], nd)
        cur, out, tot = list(a['sh']), [], 0
        keys = [''.join('ad'[b] for b in i) for i in np.ndindex(*([2] * nd))][1:]
        for _ in range(a['l']):
            cur = [R.dwt_len(c, w.L, m) for c, w, m in zip(cur, ws, ms)]
            out.append({k: tuple(cur) for k in keys})
            tot += len(keys) * int(np.prod(cur))
        return [[tuple(cur)] + out[::-1], tot + int(np.prod(cur))]


@op('pad', 'fwd')
class _:
    def gen(g):
        nd = g.r.choice([1, 1, 2])
        sh = [g.r.randint(2, 9) for _ in range(nd)]
        pw = {'T': [{'T': [g.r.randint(1, 9), g.r.randint(1, 9)]} for _ in range(nd)]}
        x = g.r.random()
        if x < .15:
            pw = g.r.randint(1, 9)
        elif x < .3:
            pw = {'T': [g.r.randint(1, 9), g.r.randint(1, 9)]}
        return {'x': g.arr(sh, g.r.choice(['float64', 'float32', 'complex128'])), 'pw': pw, 'm': g.mode()}

    def real(P, a):
        return P.pad(a['x'], a['pw'], a['m'])

    def ref(a):
        pw = a['pw']
        if isinstance(pw, int):
            pw = [(pw, pw)] * np.ndim(a['x'])
        elif isinstance(pw[0], int):
            pw = [pw] * np.ndim(a['x'])
        return cast(R.pad(a['x'], pw, a['m']), np.asarray(a['x']).dtype)


@op('threshold', 'fwd')
class _:
    def gen(g):
        md = g.r.choice(['soft', 'hard', 'garrote', 'greater', 'less', 'firm'])
        dt = g.r.choice(['float64', 'float32'] if md in ('greater', 'less', 'firm') else FDT)
        return {'x': g.arr(g.shape(g.r.choice([1, 2]), 12), dt, f=g.r.choice('nib')), 'v': g.r.choice([0.5, 1.0, 2.0]),
                'md': md, 'sub': g.r.choice([0, 0, -3.5])}

    def real(P, a):
        if a['md'] == 'firm':
            return P.threshold_firm(a['x'], a['v'], a['v'] + 1.5)
        return P.threshold(a['x'], a['v'], a['md'], a['sub'])

    def ref(a):
        x = np.asarray(a['x'])
        x = x.astype(x.dtype.newbyteorder('='))
        if a['md'] == 'firm':
            return cast(R.threshold_firm(x, a['v'], a['v'] + 1.5), x.dtype)
        return cast(R.threshold(x, a['v'], a['md'], a['sub']), x.dtype)


@op('alias', 'alias')
class _:
    """names kept for older callers; each use is announced by a DeprecationWarning"""
    def gen(g):
        f = g.r.choice(['intwave', 'centrfrq', 'scal2frq', 'orthfilt', 'filters', 'rfilters'])
        w = g.wav(0.05, g.r.choice(['wav', 'wav', 'cust']))[0]
        return {'f': f, 'w': w, 'p': g.r.choice([2, 3, 4]), 's': g.r.choice([1, 2, 3.5]), 'x': g.arr([g.r.choice([2, 4, 6, 12])], 'float64')}

    def real(P, a):
        f, w = a['f'], a['w']
        if f == 'intwave':
            return P.intwave(w, a['p'])
        if f == 'centrfrq':
            return float(P.centrfrq(w, a['p']))
        if f == 'scal2frq':
            return float(P.scal2frq(w, a['s'], a['p']))
        if f == 'orthfilt':
            return list(P.orthfilt(a['x']))
        return list(w.get_filters_coeffs() if f == 'filters' else w.get_reverse_filters_coeffs())

    def ref(a):
        f, w = a['f'], a['w']
        if f == 'intwave':
            return OPS['integrate'].ref(a)
        if f in ('centrfrq', 'scal2frq'):
            e = OPS['dfreq'].ref(a)
            return e if e is NotImplemented else e[0 if f == 'centrfrq' else 1]
        if f == 'orthfilt':
            return OPS['qmf'].ref(a)[1]
        if f == 'filters':
            return [[float(q) for q in x] for x in (w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi)]
        return [[float(q) for q in x[::-1]] for x in (w.rec_lo, w.rec_hi, w.dec_lo, w.dec_hi)]


@op('qmf', 'fwd')
class _:
    def gen(g):
        return {'x': g.arr([2 * g.r.randint(1, 8)], 'float64')}

    def real(P, a):
        return [P.qmf(a['x']), list(P.orthogonal_filter_bank(a['x']))]

    def ref(a):
        x = np.asarray(a['x'], dtype=float)
        q = lambda f: np.where(np.arange(len(f)) % 2 == 1, -1.0, 1.0) * f[::-1]  # noqa: E731
        rl = np.sqrt(2) * x / x.sum()
        return [q(x), [rl[::-1], q(rl)[::-1], rl, q(rl)]]


@op('listy', 'inv', 'fwd')
class _:
    """plain nested Python lists instead of arrays"""
    def gen(g):
        r = g.r
        f = r.choice(['idwt', 'waverec', 'iswt', 'upcoef', 'threshold', 'imra', 'dwt2', 'wavedec', 'swt', 'idwt2', 'wavedecn',
                      'qmf', 'pad'])
        n = 2 * r.randint(4, 8)
        row = lambda k: [r.randint(-9, 9) if r.random() < .3 else r.uniform(-3, 3) for _ in range(k)]  # noqa: E731
        w, rw = g.wav(0, name=r.choice(['haar', 'db2', 'sym2', 'bior1.3']))
        m = r.choice(['symmetric', 'periodization', 'zero'])
        if f in ('idwt', 'imra', 'iswt'):
            v = [row(n), row(n)]
        elif f == 'waverec':
            v = [row(n), row(n), row(2 * n if m == PER else 2 * n - rw.L + 2)]
        elif f in ('dwt2', 'wavedecn'):
            v = [row(n) for _ in range(n)]
        elif f == 'idwt2':
            v = [[row(4) for _ in range(4)] for _ in range(4)]
        else:
            v = row(n)
        return {'f': f, 'v': g.add({'k': 'val', 'v': v}), 'w': w, 'm': m}

    def real(P, a):
        f, v, w, m = a['f'], a['v'], a['w'], a['m']
        if f == 'idwt':
            return P.idwt(v[0], v[1], w, m)
        if f == 'idwt2':
            return P.idwt2((v[0], (v[1], v[2], v[3])), w, m)
        if f == 'waverec':
            return P.waverec(v, w, m)
        if f == 'iswt':
            return P.iswt([(v[0], v[1])], w)
        if f == 'imra':
            return P.imra(v)
        if f == 'upcoef':
            return P.upcoef('a', v, w, 2)
        if f == 'threshold':
            return P.threshold(v, 1.0, 'soft')
        if f == 'qmf':
            return P.qmf(v)
        if f == 'pad':
            return P.pad(v, (3, 2), m)
        if f == 'swt':
            return P.swt(v, w, 1)
        if f == 'dwt2':
            return P.dwt2(v, w, m)
        return getattr(P, f)(v, w, m, 1)

    def ref(a):
        return NotImplemented


# ================================================================= invalid requests: must fail cleanly, every time
# operations that share code, and the functions they share it through
KIN = [('idwt2 idwtn waverec2 waverecn mra2 mran iswt2 iswtn wp2 wpn wph fsrec fs_roundtrip imra',
        'idwt2 idwtn waverec2 waverecn iswt2 iswtn fswaverecn WaveletPacket2D WaveletPacketND'),
       ('idwt waverec upcoef iswt mra wp1 wph', 'idwt waverec upcoef iswt WaveletPacket'),
       ('dwt2 dwtn wavedec2 wavedecn swt2 swtn mra2 mran fswavedecn wp2 wpn wph',
        'dwt2 dwtn wavedec2 wavedecn swt2 swtn mra2 mran fswavedecn FswavedecnResult WaveletPacket2D WaveletPacketND'),
       ('dwt downcoef wavedec swt mra pad lens wp1 wph', 'dwt downcoef wavedec swt mra pad dwt_coeff_len from_object dwt_max_level WaveletPacket'),
       ('pack shapes wavedecn wavedec2 waverecn waverec2', 'coeffs_to_array array_to_coeffs ravel_coeffs unravel_coeffs wavedecn_size wavedecn_shapes'),
       ('cwt cfreq cwavefun integrate dfreq wavefun newwav registry wattrs',
        'cwt Wavelet ContinuousWavelet DiscreteContinuousWavelet central_frequency wavelist wavefun'),
       ('threshold dataset qmf registry', 'threshold threshold_firm demo_signal orthogonal_filter_bank wavelist')]
KIN = [(a.split(), set(b.split())) for a, b in KIN]
AKIN = {}
for _a, _b in KIN:
    for _n in _a:
        AKIN.setdefault(_n, []).extend(n for n in bad.NAMES if _b & set(bad.ROWS[n][1].__code__.co_names))


@op('bad', 'bad')
class _:
    def gen(g, near=None):
        r = g.r
        n = r.choice(SHORT[:12]) if r.random() < .5 else r.choice(['haar', 'db2', 'db3', 'bior2.2'])
        a = {'c': r.choice(AKIN.get(near) or bad.NAMES)}
        f = bad.ROWS[a['c']][1]
        for k in f.__code__.co_varnames[1:f.__code__.co_argcount]:
            a[k] = (g.arr([r.choice([5, 7, 9])], 'float64', lay='C') if k == 'x' else
                    g.arr([8], r.choice(FDT), lay='C') if k == 'e' else
                    g.arr([3, 5], r.choice(['float64', 'complex64']), lay='C') if k == 'y' else
                    g.arr([4, 8], r.choice(['float64', 'float32']), lay='C') if k == 's' else
                    g.arr([2, 4, 6], 'float64', lay='C') if k == 'z' else
                    g.wav(0, r.choice(['wav', 'wav', 'name']), n)[0] if k == 'w' else
                    n if k == 'n' else r.choice(bad.MODES) if k == 'm' else [r.randint(1, 9) for _ in range(3)])
        return a

    def real(P, a):
        return bad.run(P, a)


SPOIL_MODE = {'dwt', 'dwt2', 'dwtn', 'idwt', 'idwt2', 'idwtn', 'downcoef', 'fswavedecn', 'lens'}
SPOIL_AXES = {'dwt2', 'dwtn', 'idwt2', 'idwtn', 'swt', 'swt2', 'swtn', 'wavedec', 'wavedec2', 'wavedecn', 'fswavedecn'}
SPOIL_WAVELET = SPOIL_MODE | SPOIL_AXES | {'wph', 'iswt', 'iswt2', 'iswtn', 'cwt', 'upcoef'}


def misspell(g, n):
    """a name resembling n that is the name of no wavelet"""
    r = g.r
    while True:
        i = r.randrange(len(n) + 1)
        q = r.choice([n + n[-1], n + r.choice('0123456789x. -'), ' ' + n, n[:i] + r.choice('0q. ') + n[i:], n[:i] + n[i + 1:], n + '.0'])
        if q.lower() not in DISCRETE + CONT and q[:4].lower() not in ('gaus', 'cgau', 'shan', 'fbsp', 'cmor') and q != 'haar':
            return q


def spoil(g, o):
    """a request like this one, except for one argument that makes no sense; or None"""
    r, n, a = g.r, o['op'], o['a']
    can = [k for k, ok in (('m', SPOIL_MODE), ('w', SPOIL_WAVELET), ('ax', ('dwt', 'idwt')), ('axes', SPOIL_AXES))
           if k in a and n in ok]
    if not can:
        return None
    k = r.choice(can)
    a = json.loads(json.dumps(a))
    if k == 'm':
        b = r.choice(bad.BADM)
        if isinstance(a[k], dict) and len(a[k]['T']) > 1 and r.random() < .3:
            a[k]['T'].append(a[k]['T'][0])       # one too many
        else:
            a[k] = {'T': [b if i == 0 else x for i, x in enumerate(a[k]['T'])]} if isinstance(a[k], dict) else b
    elif k == 'w':
        q = a[k]['T'] if isinstance(a[k], dict) and 'T' in a[k] else [a[k]]
        i = r.randrange(len(q))
        v = g.world[q[i]['$']] if isinstance(q[i], dict) else {'k': 'name', 'n': q[i]}
        n_ = misspell(g, v['n']) if r.random() < .6 and v.get('n') in BYLEN else r.choice(bad.BADW)
        if len(q) > 1 and r.random() < .3:
            q = q + [q[0]]                       # one too many
        else:
            q = [n_ if j == i else x for j, x in enumerate(q)]
        a[k] = {'T': q} if len(q) > 1 else n_
    elif k == 'ax':
        a[k] = r.choice([4, 5, 9, -5, -9])
    else:
        t = a[k].get('T')
        if not t:
            return None
        t[r.randrange(len(t))] = r.choice([4, 5, 9, -5, -9])
    return {'op': 'spoil', 'a': {'c': '%s of %s' % (k, n), 'o': n, 'a': a}}


@op('spoil', 'bad')
class _:
    def gen(g):
        while True:
            n = g.r.choice(sorted(SPOIL_WAVELET))
            o = spoil(g, {'op': n, 'a': OPS[n].gen(g)})
            if o:
                return o['a']

    def real(P, a):
        return OPS[a['o']].real(P, a['a'])


def names(*kinds, exclude=()):
    return [n for n, o in sorted(OPS.items()) if o.kinds & set(kinds) and n not in exclude]


FREE = {'dwt', 'dwt2', 'dwtn', 'wavedec', 'wavedec2', 'wavedecn', 'fswavedecn', 'wph', 'cwt', 'dfreq', 'integrate', 'wavefun',
        'cwavefun', 'alias'}


def mutate_copy(g, o):
    """deep copy of an operation's arguments over fresh world objects: same shapes, other data"""
    from world import remap
    m, args = {}, o['a']
    other = g.r.random() < .3         # wavelets with other filters of the same length
    free = o['op'] in FREE and g.r.random() < .3 and not any(    # or of any length
        q in json.dumps(args) for q in ('reflect', 'smooth'))

    def cp(i):
        if i not in m:
            s = json.loads(json.dumps(g.world[i]))
            if s['k'] == 'arr':
                s['s'] = g.r.randrange(1 << 30)
            elif s['k'] in ('list', 'tuple', 'dict', 'fs'):
                s['v'] = remap(s['v'], cp)
            elif s['k'] in ('wav', 'name', 'cust') and s['n'] in BYLEN and free:
                s['n'] = g.r.choice(SHORT)
                s.pop('nm', None)
            elif s['k'] in ('cwav', 'name') and s['n'] in CWN and free and not s.get('set'):
                s['n'] = g.r.choice(CWN)
            elif s['k'] in ('wav', 'name', 'cust') and s['n'] in BYLEN and other:
                s['n'] = g.r.choice(BYLEN[s['n']])
            elif s['k'] == 'cust' and s.get('nm') and 'cut' not in s and g.r.random() < .4:
                s = {'k': 'wav', 'n': s['nm']}
            elif s['k'] == 'name' and s['n'] in BYLEN and g.r.random() < .2:
                s = {'k': 'cust', 'n': g.r.choice(BYLEN[s['n']]), 'p': 0, 'nm': s['n']}
            elif s['k'] == 'cwav' and other and 'center_frequency' in s.get('set', ()):
                s['set']['center_frequency'] = g.r.choice([0.5, 1.0, 2.0])
            g.world.append(s)
            m[i] = len(g.world) - 1
        return m[i]
    return remap(args, cp)


def rng(*parts):
    return random.Random('/'.join(str(p) for p in parts))
