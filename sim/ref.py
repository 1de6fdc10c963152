"""Independent reference model of PyWavelets' numerics, in plain numpy.

Nothing here imports pywt.  Filters come from golden.json (a frozen copy of the builtin tables, sanity-checked by
golden.py); the transforms are written from their mathematical definition (index gathers over an explicitly extended
signal), not from the library's code.
"""
import json
import math
import os
from itertools import product

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'golden.json')) as _f:
    GOLDEN = json.load(_f)

MODES = ["zero", "constant", "symmetric", "periodic", "smooth", "periodization", "reflect", "antisymmetric",
         "antireflect"]


MODE_ENUM = [0, 2, 1, 4, 3, 5, 6, 7, 8]


class RefWavelet:
    """Filter bank + the attributes the transforms look at."""

    def __init__(self, fb, orthogonal=False, biorthogonal=False, name='', vm_psi=None):
        self.fb = [np.array(f, dtype=np.float64) for f in fb]
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = self.fb
        self.orthogonal = orthogonal
        self.biorthogonal = biorthogonal
        self.name = name
        self.vm_psi = vm_psi
        self.L = len(self.dec_lo)

    def scaled(self, s):
        return RefWavelet([f * s for f in self.fb], self.orthogonal, self.biorthogonal, self.name, self.vm_psi)


_cache = {}


def wavelet(name):
    if name not in _cache:
        g = GOLDEN['discrete'][name]
        _cache[name] = RefWavelet([[float.fromhex(v) for v in f] for f in g['filters']], g['orthogonal'],
                                  g['biorthogonal'], name, g['vanishing_moments_psi'])
    return _cache[name]


def out_dtype(x):
    x = np.asarray(x)
    dt = x.dtype
    if dt in (np.float64, np.float32, np.complex64, np.complex128):
        return dt
    if dt == np.half:
        return np.dtype('float32')
    if dt.kind == 'c':                  # in other byte order, or wider
        return np.dtype('complex64' if dt.itemsize == 8 else 'complex128')
    return np.dtype('float64')


def work(x):
    x = np.asarray(x)
    x = x.astype(out_dtype(x))
    return x.astype(np.complex128 if x.dtype.kind == 'c' else np.float64)


# ------------------------------------------------------------------ signal extension
def extend(x, idx, mode):
    """Values of the infinitely extended signal x (last axis) at integer positions idx."""
    n = x.shape[-1]
    i = np.asarray(idx)
    if mode == 'zero':
        v = x[..., np.clip(i, 0, n - 1)]
        return np.where((i >= 0) & (i < n), v, 0)
    if mode == 'constant':
        return x[..., np.clip(i, 0, n - 1)]
    if mode in ('symmetric', 'antisymmetric'):
        m = np.mod(i, 2 * n)
        m = np.where(m >= n, 2 * n - 1 - m, m)
        v = x[..., m]
        if mode == 'antisymmetric':
            v = v * np.where(np.mod(np.floor_divide(i, n), 2) == 0, 1.0, -1.0)
        return v
    if mode == 'periodic':
        return x[..., np.mod(i, n)]
    if mode == 'reflect':
        p = 2 * (n - 1)
        m = np.mod(i, p)
        m = np.where(m >= n, p - m, m)
        return x[..., m]
    if mode == 'antireflect':
        p = 2 * (n - 1)
        m = np.mod(i, p)
        k = np.floor_divide(i, p)
        one = (Ellipsis,) + (None,) * i.ndim
        first, last = x[..., 0][one], x[..., -1][one]
        v = np.where(m < n, x[..., np.minimum(m, n - 1)], 2 * last - x[..., np.clip(p - m, 0, n - 1)])
        return v + 2 * k * (last - first)
    if mode == 'smooth':
        if n == 1:
            return x[..., np.zeros_like(i)]
        v = x[..., np.clip(i, 0, n - 1)]
        one = (Ellipsis,) + (None,) * i.ndim
        lo = x[..., 0][one] + i * (x[..., 1] - x[..., 0])[one]
        hi = x[..., -1][one] + (i - (n - 1)) * (x[..., -1] - x[..., -2])[one]
        return np.where(i < 0, lo, np.where(i >= n, hi, v))
    raise ValueError(mode)


def dwt_len(n, L, mode):
    return (n + 1) // 2 if mode == 'periodization' else (n + L - 1) // 2


def idwt_len(n, L, mode):
    return 2 * n if mode == 'periodization' else 2 * n - L + 2


def max_level(n, L):
    if L <= 1 or n < L - 1:
        return 0
    return int(math.floor(math.log2(n // (L - 1)))) if n // (L - 1) else 0


def swt_max_level(n):
    j = 0
    while n > 0 and n % 2 == 0:
        n //= 2
        j += 1
    return j


def _dec(x, f, mode):
    n, L = x.shape[-1], len(f)
    m = dwt_len(n, L, mode)
    k = np.arange(m)[:, None]
    j = np.arange(L)[None, :]
    if mode == 'periodization':
        if n % 2:
            x = np.concatenate([x, x[..., -1:]], axis=-1)
            n += 1
        v = x[..., np.mod(2 * k + L // 2 - j, n)]
    else:
        v = extend(x, 2 * k + 1 - j, mode)
    return v @ f


def _rec(c, f, mode):
    n, L = c.shape[-1], len(f)
    if mode == 'periodization':
        out = np.zeros(c.shape[:-1] + (2 * n,), dtype=c.dtype)
        for j in range(L):
            pos = np.mod(2 * np.arange(n) + j - (L // 2 - 1), 2 * n)
            np.add.at(out, (Ellipsis, pos), f[j] * c)
        return out
    full = np.zeros(c.shape[:-1] + (2 * n + L - 2,), dtype=c.dtype)
    for j in range(L):
        full[..., j:j + 2 * n:2] += (f[j] * c)[..., :len(range(j, min(j + 2 * n, full.shape[-1]), 2))]
    return full[..., L - 2:L - 2 + idwt_len(n, L, mode)]


def _along(fn, x, axis):
    return np.moveaxis(fn(np.moveaxis(x, axis, -1)), -1, axis)


def dwt_axis(x, w, mode, axis):
    x = work(x)
    return (_along(lambda v: _dec(v, w.dec_lo, mode), x, axis), _along(lambda v: _dec(v, w.dec_hi, mode), x, axis))


def idwt_axis(a, d, w, mode, axis):
    out = 0
    if a is not None:
        out = out + _along(lambda v: _rec(v, w.rec_lo, mode), work(a), axis)
    if d is not None:
        out = out + _along(lambda v: _rec(v, w.rec_hi, mode), work(d), axis)
    return out


def dwtn(x, ws, modes, axes):
    """-> dict; keys in axes order"""
    cur = {'': work(x)}
    for ax, w, m in zip(axes, ws, modes):
        nxt = {}
        for k, v in cur.items():
            a, d = dwt_axis(v, w, m, ax)
            nxt[k + 'a'], nxt[k + 'd'] = a, d
        cur = nxt
    return cur


def idwtn(c, ws, modes, axes):
    cur = dict(c)
    for pos in reversed(range(len(axes))):
        nxt = {}
        for k in {k[:pos] for k in cur}:
            a, d = cur.get(k + 'a'), cur.get(k + 'd')
            if a is None and d is None:
                nxt[k] = None
            else:
                if a is not None and d is not None and a.shape != d.shape:
                    raise ValueError
                nxt[k] = idwt_axis(a, d, ws[pos], modes[pos], axes[pos])
        cur = nxt
    return cur['']


def wavedecn(x, ws, modes, level, axes):
    a = work(x)
    out = []
    n = len(axes)
    for _ in range(level):
        c = dwtn(a, ws, modes, axes)
        a = c.pop('a' * n)
        out.append(c)
    out.append(a)
    return out[::-1]


def waverecn(coeffs, ws, modes, axes):
    a = coeffs[0]
    a = None if a is None else work(a)
    n = len(axes)
    for i, d in enumerate(coeffs[1:]):
        d = {k: v for k, v in d.items() if v is not None}
        if a is None and not d:
            continue
        if a is not None and d and i > 0:
            sh = next(iter(d.values())).shape
            a = a[tuple(slice(s) for s in sh)]
        c = dict(d)
        if a is not None:
            c['a' * n] = a
        a = idwtn(c, ws, modes, axes)
    return a


# ------------------------------------------------------------------ stationary transform
def _swt_f(x, f, lev):
    """lev >= 1; the filter is upsampled by 2**(lev-1)"""
    n, L, s = x.shape[-1], len(f), 2 ** (lev - 1)
    k = np.arange(n)[:, None]
    j = np.arange(L)[None, :]
    return x[..., np.mod(k + (L * s) // 2 - s * j, n)] @ f


def _iswt_f(c, f, lev):
    n, L, s = c.shape[-1], len(f), 2 ** (lev - 1)
    k = np.arange(n)[:, None]
    j = np.arange(L)[None, :]
    return 0.5 * (c[..., np.mod(k - s * (j - L // 2 + 1), n)] @ f)


def swtn(x, ws, level, start, axes):
    """-> list (coarsest first) of dicts with every key"""
    a = work(x)
    out = []
    for i in range(start, start + level):
        cur = {'': a}
        for ax, w in zip(axes, ws):
            nxt = {}
            for k, v in cur.items():
                nxt[k + 'a'] = _along(lambda t: _swt_f(t, w.dec_lo, i + 1), v, ax)
                nxt[k + 'd'] = _along(lambda t: _swt_f(t, w.dec_hi, i + 1), v, ax)
            cur = nxt
        a = cur['a' * len(axes)]
        out.append(cur)
    return out[::-1]


def iswtn(a, details, ws, axes):
    """details: list coarsest first of dicts without the approximation key"""
    a = work(a)
    n = len(axes)
    num = len(details)
    for j, d in enumerate(details):
        lev = num - j
        cur = {k: work(v) for k, v in d.items() if k != 'a' * n}
        cur['a' * n] = a
        for pos in reversed(range(n)):
            nxt = {}
            for k in {k[:pos] for k in cur}:
                nxt[k] = (_along(lambda t: _iswt_f(t, ws[pos].rec_lo, lev), cur[k + 'a'], axes[pos]) +
                          _along(lambda t: _iswt_f(t, ws[pos].rec_hi, lev), cur[k + 'd'], axes[pos]))
            cur = nxt
        a = cur['']
    return a


# ------------------------------------------------------------------ partial transforms, wavelet functions
def downcoef(part, x, w, mode, level):
    x = work(x)
    for i in range(level):
        f = w.dec_hi if (part == 'd' and i == level - 1) else w.dec_lo
        x = _dec(x, f, mode)
    return x


def _up_full(c, f):
    n = len(c)
    up = np.zeros(2 * n - 1, dtype=c.dtype)
    up[::2] = c
    return np.convolve(up, f)


def upcoef(part, c, w, level, take):
    c = work(c)
    for i in range(level):
        f = w.rec_hi if (part == 'd' and i == 0) else w.rec_lo
        c = _up_full(c, f)
    if 0 < take < len(c):
        left = right = (len(c) - take) // 2
        if (len(c) - take) % 2:
            right += 1
        return c[left:len(c) - right]
    return c


def wavefun(w, level):
    n = math.sqrt(2.) ** level
    p = 2 ** level
    L = w.L

    def lens(out):
        keep = 1
        for _ in range(level):
            keep = 2 * keep + L - 2
        if out - keep - 2 < 0:
            out = keep + 2
        return out, keep, out - keep - 1

    def one(part, val, ww, keep, right):
        c = upcoef(part, np.array([val]), ww, level, 0)
        if keep < len(c):
            lo = (len(c) - keep) // 2
            c = c[lo:lo + keep]
        return np.concatenate(([0.], c, np.zeros(right)))
    if w.orthogonal:
        out, keep, right = lens((L - 1) * p + 1)
        return [one('a', n, w, keep, right), one('d', n, w, keep, right), np.linspace(0., (out - 1) / p, out)]
    mul = -n if (w.biorthogonal and (w.vm_psi if w.vm_psi is not None else -1) % 4 != 1) else n
    inv = RefWavelet([w.rec_lo[::-1], w.rec_hi[::-1], w.dec_lo[::-1], w.dec_hi[::-1]])
    out, keep, right = lens((L - 1) * p)
    return [one('a', n, inv, keep, right), one('d', mul, inv, keep, right), one('a', n, w, keep, right),
            one('d', mul, w, keep, right), np.linspace(0., (out - 1) / p, out)]


# ------------------------------------------------------------------ continuous wavelets
_GAUS_NORM = {1: 1, 2: 3, 3: 15, 4: 105, 5: 945, 6: 10395, 7: 135135, 8: 2027025}
_CGAU_NORM = {1: 2, 2: 10, 3: 76, 4: 764, 5: 9496, 6: 140152, 7: 2390480, 8: 46206736}


def _hermite(n, x):
    return np.polynomial.hermite.hermval(x, [0] * n + [1])


def psi_values(name, params, t):
    """name: family+number, params: dict(B, C, M).  Returns psi on the grid t (float64 / complex128)."""
    t = np.asarray(t, dtype=np.float64)
    if name.startswith('gaus'):
        k = int(name[4:])
        # k-th derivative of C*exp(-t^2), with the sign convention of the library
        sgn = {1: 1, 2: -1, 3: -1, 4: 1, 5: 1, 6: -1, 7: -1, 8: 1}[k]
        return sgn * (-1) ** k * _hermite(k, t) * np.exp(-t * t) / np.sqrt(_GAUS_NORM[k] * np.sqrt(np.pi / 2))
    if name == 'mexh':
        return (1 - t ** 2) * np.exp(-t ** 2 / 2) * 2 / (np.sqrt(3) * np.pi ** .25)
    if name == 'morl':
        return np.cos(5 * t) * np.exp(-t ** 2 / 2)
    if name.startswith('cgau'):
        k = int(name[4:])
        # k-th derivative of exp(-i t) exp(-t^2): complete the square -> Hermite polynomial of a complex argument
        z = t + 0.5j
        val = (-1) ** k * _hermite(k, z) * np.exp(-1j * t) * np.exp(-t * t)
        return val / np.sqrt(_CGAU_NORM[k] * np.sqrt(np.pi / 2))
    B, C = params['B'], params['C']
    if name == 'shan':
        return np.exp(2j * np.pi * C * t) * np.sqrt(B) * np.sinc(B * t)
    if name == 'fbsp':
        M = params['M']
        return np.exp(2j * np.pi * C * t) * np.sqrt(B) * np.sinc(B * t / M) ** M
    if name == 'cmor':
        return np.exp(2j * np.pi * C * t) * np.exp(-t * t / B) / np.sqrt(np.pi * B)
    raise ValueError(name)


CWT_DEFAULT = {'shan': (-20, 20), 'fbsp': (-20, 20), 'cmor': (-8, 8), 'mexh': (-8, 8), 'morl': (-8, 8)}


def cont_bounds(name):
    return (-5, 5) if name[:4] in ('gaus', 'cgau') else CWT_DEFAULT[name]


class _Any:
    """matches everything"""
    def __eq__(self, o):
        return True

    def __repr__(self):
        return '<any>'


ANY = _Any()


class CWav:
    """A continuous wavelet: parsed name plus edits."""

    def __init__(self, name, **edits):
        self.name = name
        fam = 'gaus' if name.startswith('gaus') else 'cgau' if name.startswith('cgau') else name[:4]
        self.fam = fam
        self.base = name if fam in ('gaus', 'cgau') else fam
        self.cplx = fam in ('cgau', 'shan', 'fbsp', 'cmor')
        p = {'shan': {'B': .5, 'C': 1.}, 'fbsp': {'M': 2, 'B': 1., 'C': .5}, 'cmor': {'B': 1., 'C': .5}}.get(fam, {})
        rest = name[4:]
        if fam in ('shan', 'cmor') and rest:
            p['B'], p['C'] = (float(v) for v in rest.split('-'))
        if fam == 'fbsp' and rest:
            m, b, c = rest.split('-')
            p['M'], p['B'], p['C'] = int(m), float(b), float(c)
        p = dict(p)
        if 'bandwidth_frequency' in edits:
            p['B'] = edits['bandwidth_frequency']
        if 'center_frequency' in edits:
            p['C'] = edits['center_frequency']
        self.params = p
        lo, hi = cont_bounds(self.base)
        self.lo, self.hi = edits.get('lower_bound', lo), edits.get('upper_bound', hi)

    def psi(self, level, length=None):
        n = length if length is not None else 2 ** level
        return cont_wavefun(self.base, self.params, self.lo, self.hi, n, np.float64)


def cont_wavefun(name, params, lo, hi, n, dtype):
    x = np.linspace(lo, hi, n, dtype=dtype)
    return psi_values(name, params, x), x


def clear_peak(psi):
    """the strongest frequency stands out, so that rounding cannot decide which one it is"""
    s = abs(np.fft.fft(psi))[1:]
    k = np.arange(1, len(psi))
    if not np.iscomplexobj(psi):
        k = np.minimum(k, len(psi) - k)
    i = int(np.argmax(s))
    rest = s[k != k[i]]
    return rest.size == 0 or rest.max() < s[i] * (1 - 1e-6)


def central_frequency(psi, x):
    dom = float(x[-1] - x[0])
    idx = int(np.argmax(abs(np.fft.fft(psi)[1:]))) + 2
    if idx > len(psi) / 2:
        idx = len(psi) - idx + 2
    return 1.0 / (dom / (idx - 1))


def cwt(x, scales, psi, grid, is_complex, axis, period):
    """Definition: correlation of x with the scaled integral of psi, differentiated, centred."""
    dt = out_dtype(x)
    cplx_in = dt.kind == 'c'
    f32 = dt in (np.float32, np.complex64)
    xw = work(x)
    step0 = grid[1] - grid[0]
    ip = np.cumsum(psi) * step0
    if is_complex:
        ip = np.conj(ip)
    g = np.asarray(grid, dtype=np.float32 if f32 else np.float64)   # the sampling grid has the data's precision
    ip = np.asarray(ip, dtype=np.complex128 if ip.dtype.kind == 'c' else np.float64)
    v = np.moveaxis(xw, axis, -1)
    n = v.shape[-1]
    res = []
    for s in scales:
        step = g[1] - g[0]
        j = (np.arange(s * (g[-1] - g[0]) + 1) / (s * step)).astype(int)
        j = j[j < ip.size]
        h = ip[j][::-1]
        m = n + h.size - 1
        conv = np.fft.ifft(np.fft.fft(v, 2 * m, axis=-1) * np.fft.fft(h, 2 * m))[..., :m]
        c = -np.sqrt(s) * np.diff(conv, axis=-1)
        d = (c.shape[-1] - n) / 2.
        if d > 0:
            c = c[..., math.floor(d):c.shape[-1] - math.ceil(d)]
        elif d < 0:
            raise ValueError('scale')
        if not (is_complex or cplx_in):
            c = c.real
        res.append(np.moveaxis(c, -1, axis))
    f = central_frequency(psi, grid) / np.asarray(scales) / period
    return np.array(res), f


# ------------------------------------------------------------------ misc
def pad(x, widths, mode):
    x = np.asarray(x)
    for ax, (lo, hi) in enumerate(widths):
        n = x.shape[ax]
        i = np.arange(-lo, n + hi)
        m = mode
        v = np.moveaxis(x, ax, -1)
        if mode == 'periodization':
            if n % 2:
                v = np.concatenate([v, v[..., -1:]], axis=-1)
                i = np.arange(-lo, n + 1 + hi)
            m = 'periodic'
        v = v if m in ('zero', 'constant', 'symmetric', 'periodic', 'reflect') else v.astype(
            np.result_type(v, np.float64))
        x = np.moveaxis(extend(v, i, m), -1, ax)
    return x


def threshold(x, v, mode, sub):
    x = np.asarray(x)
    mag = np.abs(x)
    if mode == 'soft':
        with np.errstate(all='ignore'):
            r = np.where(mag == 0, 0, x * np.clip(1 - v / np.where(mag == 0, 1, mag), 0, None))
        return np.where(mag < v, sub, r) if sub != 0 else r
    if mode in ('garrote', 'garotte'):
        with np.errstate(all='ignore'):
            r = np.where(mag == 0, 0, x * np.clip(1 - v ** 2 / np.where(mag == 0, 1, mag) ** 2, 0, None))
        return np.where(mag < v, sub, r) if sub != 0 else r
    if mode == 'hard':
        return np.where(mag < v, sub, x)
    if mode == 'greater':
        return np.where(x < v, sub, x)
    if mode == 'less':
        return np.where(x > v, sub, x)
    raise ValueError(mode)


def threshold_firm(x, lo, hi):
    x = np.asarray(x)
    mag = np.abs(x)
    mid = x * hi * (1 - lo / np.where(mag == 0, 1, mag)) / (hi - lo)
    return np.where(mag <= lo, 0, np.where(mag > hi, x, mid))
