"""Worlds: the objects that simulated callers share, described by JSON so that a run is a pure function of its plan.

Spec kinds
  arr   {"k":"arr","sh":[..],"dt":"float64","lay":"C|F|neg|step|ro|view|bs","s":seed,"f":"n|i|c|r|z|b"}
  name  {"k":"name","n":"db2"}            a wavelet name string
  wav   {"k":"wav","n":"db2"}             a Wavelet object
  cust  {"k":"cust","n":"db3","p":0}      a user-defined Wavelet object with the filters of n (name nm or "custom")
  cwav  {"k":"cwav","n":"cmor1.5-1.0","set":{..}}   a ContinuousWavelet object (edited by its setters)
  list/tuple/dict {"k":..., "v": [...] | {...}}      containers; leaves are refs
  fs    {"k":"fs","v":{"c":ref,"w":[ref..],"m":[..],"sl":[[[a,b]..]..],"axes":[..]}}   a FswavedecnResult object
  val   {"k":"val","v":...}
A ref is {"$": index} (or null).  Op arguments are JSON values with refs inside.
"""
import copy
import hashlib

import numpy as np

import ref as R


def make_array(spec):
    sh = tuple(spec['sh'])
    dt = np.dtype(spec['dt'])
    g = np.random.Generator(np.random.PCG64(spec['s']))
    f = spec.get('f', 'n')
    if f == 'n':
        a = g.standard_normal(sh)
        if dt.kind == 'c':
            a = a + 1j * g.standard_normal(sh)
    elif f == 'i':
        a = g.integers(-9, 10, sh).astype(float)
    elif f == 'c':
        a = np.full(sh, float(g.integers(1, 5)))
    elif f == 'r':
        a = np.arange(int(np.prod(sh)), dtype=float).reshape(sh) + g.standard_normal()
    elif f == 'b':
        a = g.standard_normal(sh) * 10.0 ** g.integers(-3, 4, sh)
    else:
        a = np.zeros(sh)
    if dt.kind in 'iu':
        a = np.rint(np.abs(a) * 5 if dt.kind == 'u' else a * 5)
    if dt.kind == 'b':
        a = a > 0
    a = np.ascontiguousarray(a.astype(dt)).reshape(sh)
    lay = spec.get('lay', 'C')
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'neg' and a.ndim:
        a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    elif lay == 'step' and a.ndim:
        b = np.full(sh[:-1] + (2 * sh[-1] + 1,), 7, dtype=dt)
        b[..., 1::2] = a
        a = b[..., 1::2]
    elif lay == 'view' and a.ndim:
        b = np.full((sh[0] + 3,) + sh[1:], 5, dtype=dt)
        b[2:2 + sh[0]] = a
        a = b[2:2 + sh[0]]
    elif lay == 'bs':
        a = a.astype(dt.newbyteorder())
    elif lay == 'ro':
        a.flags.writeable = False
    return a


def closure(specs, v):
    """indices of the world objects an expression refers to"""
    todo, seen = list(refs_in(v)), set()
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            if 'v' in specs[i]:
                todo += refs_in(specs[i]['v'])
    return seen


def build_real(pywt, specs, only=None):
    out = []
    for i, s in enumerate(specs):
        k = s['k']
        if only is not None and i not in only:
            o = None
        elif k == 'arr':
            o = make_array(s)
        elif k == 'name':
            o = s['n']
        elif k == 'wav':
            o = pywt.Wavelet(s['n'])
        elif k == 'cust':
            fb = [[float.fromhex(v) for v in f] for f in R.GOLDEN['discrete'][s['n']]['filters']]
            if 'cut' in s:
                fb = [f[:max(1, len(f) - s['cut'])] for f in fb]
            o = pywt.Wavelet(s.get('nm', 'custom'), filter_bank=fb)
            if s.get('p', 0) & 1:
                o.orthogonal = True
            if s.get('p', 0) & 2:
                o.biorthogonal = True
        elif k == 'cwav':
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o = pywt.ContinuousWavelet(s['n'])
            for a, v in sorted(s.get('set', {}).items()):
                setattr(o, a, v)
        elif k == 'val':
            o = copy.deepcopy(s['v'])
        elif k == 'nparr':
            o = np.array(s['v'], dtype=s.get('dt'))
        elif k == 'fs':
            v = resolve(s['v'], out)
            o = pywt.FswavedecnResult(v['c'], [[slice(*q) for q in x] for x in v['sl']],
                                      [pywt.Wavelet(w) if isinstance(w, str) else w for w in v['w']],
                                      [getattr(pywt.Modes, m) for m in v['m']], tuple(v['axes']))
        elif k in ('list', 'tuple', 'dict'):
            o = resolve(s['v'], out)
            if k == 'tuple':
                o = tuple(o)
        else:
            raise ValueError(k)
        out.append(o)
    return out


def build_ref(specs):
    out = []
    for s in specs:
        k = s['k']
        if k == 'arr':
            o = np.array(make_array(s))
        elif k in ('name', 'wav'):
            o = R.wavelet(s['n']) if s['n'] in R.GOLDEN['discrete'] else R.CWav(s['n'])
        elif k == 'cust':
            b = R.wavelet(s['n'])
            p = s.get('p', 0)
            o = R.RefWavelet(b.fb, bool(p & 1), bool(p & 2), s.get('nm', 'custom'), None)
        elif k == 'cwav':
            o = R.CWav(s['n'], **s.get('set', {}))
        elif k == 'val':
            o = copy.deepcopy(s['v'])
        elif k == 'nparr':
            o = np.array(s['v'], dtype=s.get('dt'))
        else:
            o = resolve(s['v'], out)
            if k == 'tuple':
                o = tuple(o)
        out.append(o)
    return out


def resolve(v, objs):
    if isinstance(v, dict):
        if '$' in v:
            return objs[v['$']]
        if 'T' in v and len(v) == 1:
            return tuple(resolve(x, objs) for x in v['T'])
        return {k: resolve(x, objs) for k, x in v.items()}
    if isinstance(v, list):
        return [resolve(x, objs) for x in v]
    return v


def refs_in(v):
    if isinstance(v, dict):
        if '$' in v:
            yield v['$']
        else:
            for x in v.values():
                yield from refs_in(x)
    elif isinstance(v, list):
        for x in v:
            yield from refs_in(x)


def remap(v, m):
    if isinstance(v, dict):
        if '$' in v:
            return {'$': m(v['$'])}
        return {k: remap(x, m) for k, x in v.items()}
    if isinstance(v, list):
        return [remap(x, m) for x in v]
    return v


# ------------------------------------------------------------------ canonical snapshots
WATTR = ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi', 'name', 'orthogonal', 'biorthogonal', 'symmetry', 'family_name',
         'short_family_name', 'family_number', 'vanishing_moments_psi', 'vanishing_moments_phi', 'dec_len', 'rec_len')
CATTR = ('name', 'orthogonal', 'biorthogonal', 'symmetry', 'family_name', 'short_family_name', 'family_number',
         'complex_cwt', 'lower_bound', 'upper_bound', 'center_frequency', 'bandwidth_frequency', 'fbsp_order')


def wave_attrs(w):
    names = WATTR if hasattr(w, 'dec_lo') else CATTR
    return {a: getattr(w, a) for a in names}


def snap(o, h):
    """feed a canonical image of o (values, dtypes, container structure) into the hash h"""
    if isinstance(o, np.ndarray):
        h.update(('A%s%s%s' % (o.dtype.str, o.shape, o.flags.writeable)).encode())
        h.update(o.tobytes())
    elif isinstance(o, dict):
        h.update(b'D%d' % len(o))
        for k in o:                          # insertion order is caller-visible too
            h.update(repr(k).encode())
            snap(o[k], h)
    elif isinstance(o, (list, tuple)):
        h.update(('%s%d' % (type(o).__name__, len(o))).encode())
        for x in o:
            snap(x, h)
    elif type(o).__name__ in ('Wavelet', 'ContinuousWavelet'):
        snap(wave_attrs(o), h)
    elif type(o).__name__ == 'FswavedecnResult':
        snap(fs_parts(o), h)
    else:
        h.update(('%s:%r' % (type(o).__name__, o)).encode())


def fs_parts(o):
    """the state of a separable decomposition: its attributes, or its public properties if they are kept otherwise"""
    d = getattr(o, '__dict__', {})
    g = lambda n: d['_' + n] if '_' + n in d else getattr(o, n)  # noqa: E731
    m = [int(x) for x in d['_mode_enums']] if '_mode_enums' in d else [str(x) for x in o.modes]
    return [g('coeffs'), repr(g('coeff_slices')), list(g('wavelets')), m, tuple(g('axes'))]


def digest(o):
    h = hashlib.blake2b(digest_size=12)
    snap(o, h)
    return h.hexdigest()


def base_of(o):
    """the whole buffer behind an array view, so that a write outside the view is seen too"""
    b = o
    while isinstance(b, np.ndarray) and isinstance(b.base, np.ndarray):
        b = b.base
    return b


def freeze(v):
    """copy of a result that nothing else can change, made of plain picklable parts"""
    if v is R.ANY:
        return v
    if isinstance(v, np.ndarray):
        return np.array(v, dtype=v.dtype.newbyteorder('='), order='K') if v.dtype != object else np.array([freeze(x) for x in v.ravel()], dtype=object)
    if isinstance(v, np.generic):
        return np.array(v)
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if type(v).__name__ in ('Wavelet', 'ContinuousWavelet'):
        return {'__w__': type(v).__name__, **{k: freeze(x) for k, x in wave_attrs(v).items()}}
    if type(v).__name__ == 'FswavedecnResult':
        c, sl, w, m, ax = fs_parts(v)
        return {'__fs__': freeze(c), 'sl': sl, 'ax': ax, 'w': freeze(w), 'm': m}
    if isinstance(v, (str, int, float, bool, complex, bytes, type(None))):
        return v
    if isinstance(v, slice):
        return ('slice', v.start, v.stop, v.step)
    return '%s:%s' % (type(v).__name__, v)


def differ(a, b, tol, path='result', loose=False, scale0=1.0):
    """None when equal, else a short description.  loose: b comes from the reference model: dtype kind/precision of
    arrays are compared only when b has one, sequences compare by position."""
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
            return '%s: %s instead of %s' % (path, type(a).__name__, type(b).__name__)
        if a.shape != b.shape:
            return '%s: shape %s instead of %s' % (path, a.shape, b.shape)
        if a.dtype != b.dtype and not (loose and (a.dtype.kind == 'c') == (b.dtype.kind == 'c') and
                                       a.dtype != object and b.dtype != object):
            return '%s: dtype %s instead of %s' % (path, a.dtype, b.dtype)
        if a.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                d = differ(x, y, tol, '%s[%d]' % (path, i), loose, scale0)
                if d:
                    return d
            return None
        if a.size == 0:
            return None
        if a.dtype.kind in 'biuSU' and b.dtype.kind in 'biuSU':
            return None if np.array_equal(a, b) else '%s: values differ' % path
        t = tol
        if a.dtype in (np.float32, np.complex64):
            t = max(tol, 3e-5)
        elif a.dtype == np.float16:
            t = max(tol, 1e-2)
        aa, bb = a.astype(np.complex128), b.astype(np.complex128)
        fin = np.isfinite(bb)
        if not np.array_equal(np.isfinite(aa), fin):
            return '%s: non-finite values at different places' % path
        if not fin.any():
            return None
        scale = max(scale0, float(np.abs(bb[fin]).max()))
        err = np.abs(np.where(fin, aa - bb, 0))
        if err.max() > t * scale:
            i = np.unravel_index(int(err.argmax()), err.shape)
            return '%s: value %r instead of %r at %s' % (path, a[i].item(), b[i].item(), tuple(int(x) for x in i))
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s instead of %s' % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in b:
            d = differ(a[k], b[k], tol, '%s[%r]' % (path, k), loose, scale0)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or (not loose and type(a) is not type(b)):
            return '%s: %s of %d instead of %s of %d' % (path, type(a).__name__, len(a), type(b).__name__, len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, tol, '%s[%d]' % (path, i), loose, scale0)
            if d:
                return d
        return None
    if isinstance(a, (float, complex)) and isinstance(b, (int, float, complex)):
        if a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(b)):
            return None
        return '%s: %r instead of %r' % (path, a, b)
    if type(a) is not type(b) and not loose:
        return '%s: %s instead of %s' % (path, type(a).__name__, type(b).__name__)
    return None if a == b else '%s: %r instead of %r' % (path, a, b)
