"""Requests that make no sense: each row is one call the library has to refuse, and the documented kind of refusal.

x: 1-D of odd length, e: 1-D of length 8, y: 2-D [3, 5], s: 2-D [4, 8], z: 3-D [2, 4, 6], w: a wavelet (short filters), n: its name,
m: a mode that takes any length, q: small positive integers."""
import numpy as np

V, T, X, I, K, R, A = ValueError, TypeError, ValueError, IndexError, KeyError, RuntimeError, AttributeError
E = Exception                        # refused, but not by a documented check
ROWS = {}


def row(exc, *cases):
    for name, f in cases:
        assert name not in ROWS, name
        ROWS[name] = (exc, f)


MODES = ['zero', 'constant', 'symmetric', 'periodization', 'periodic', 'smooth', 'antisymmetric']
BADM = ['nonsense', 'symmetri', 'Symmetric', '', 'periodisation', 99, -3, 'zeros', 'reflect ']
BADW = ['no-such-wavelet', 'db0', 'db99', 'sym1', 'bior9.9', 'coif18', 'haar2', 'dbx', 'DB', 'dmey2', 'rbio1.2', 'db-1']
CWN = ['mexh', 'morl', 'gaus3', 'cgau2', 'cmor1.5-1.0', 'shan1.5-1.0', 'fbsp2-1.5-1.0']


def bm(q):
    return BADM[q[0] % len(BADM)]


def bw(q):
    return BADW[q[0] % len(BADW)]


def oob(nd, q):
    """an axis that does not exist"""
    return nd + q[1] if q[0] % 2 else -nd - 1 - q[1]


def over(sh, q, k=2):
    """k axes one of which does not exist"""
    a = [i % len(sh) for i in range(k - 1)]
    a.insert(q[2] % k, oob(len(sh), q))
    return tuple(a)


def dup(nd, q):
    i = q[0] % nd
    return (i, i)


# unknown modes, wavelets, names
row(V,
    ('mode dwt', lambda P, x, w, q, **_: P.dwt(x, w, bm(q))),
    ('mode idwt', lambda P, x, w, q, **_: P.idwt(x, x, w, bm(q))),
    ('mode dwtn', lambda P, y, w, q, **_: P.dwtn(y, w, bm(q))),
    ('mode dwt2', lambda P, y, w, q, **_: P.dwt2(y, w, bm(q))),
    ('mode idwtn', lambda P, y, w, q, **_: P.idwtn({'aa': y, 'dd': y}, w, bm(q))),
    ('mode idwt2', lambda P, y, w, q, **_: P.idwt2((y, (y, y, y)), w, bm(q))),
    ('mode wavedec', lambda P, x, w, q, **_: P.wavedec(x, w, bm(q), 1)),
    ('mode wavedec2', lambda P, y, w, q, **_: P.wavedec2(y, w, bm(q), 1)),
    ('mode wavedecn', lambda P, y, w, q, **_: P.wavedecn(y, w, bm(q), 1)),
    ('mode waverec', lambda P, x, w, q, **_: P.waverec([x, x], w, bm(q))),
    ('mode fswavedecn', lambda P, y, w, q, **_: P.fswavedecn(y, w, bm(q))),
    ('mode downcoef', lambda P, x, w, q, **_: P.downcoef('a', x, w, bm(q))),
    ('mode each', lambda P, y, w, m, q, **_: P.dwtn(y, w, (m, bm(q)))),
    ('mode pad', lambda P, x, q, **_: P.pad(x, 2, str(bm(q)))),
    ('mode len', lambda P, q, **_: P.dwt_coeff_len(9, 4, bm(q))),
    ('mode from', lambda P, q, **_: P.Modes.from_object(bm(q))),
    ('mode packet', lambda P, x, w, q, **_: P.WaveletPacket(x, w, bm(q)).get_level(1)),
    ('mode mra', lambda P, x, w, q, **_: P.mra(x, w, 1, transform='dwt', mode=bm(q))),
    ('mode mra swt', lambda P, e, w, m, **_: P.mra(e, w, 1, transform='swt', mode='symmetric' if m == 'periodization' else m)),
    ('mode mra2 swt', lambda P, s, w, m, **_: P.mra2(s, w, 1, transform='swt2', mode='zero')),
    ('mode mran swt', lambda P, s, w, m, **_: P.mran(s, w, 1, transform='swtn', mode='zero')),
    ('wavelet dwt', lambda P, x, m, q, **_: P.dwt(x, bw(q), m)),
    ('wavelet swt', lambda P, e, q, **_: P.swt(e, bw(q), 1)),
    ('wavelet idwt', lambda P, x, m, q, **_: P.idwt(x, x, bw(q), m)),
    ('wavelet dwtn', lambda P, y, m, q, **_: P.dwtn(y, bw(q), m)),
    ('wavelet each', lambda P, y, w, m, q, **_: P.dwtn(y, (w, bw(q)), m)),
    ('wavelet wavedec', lambda P, x, m, q, **_: P.wavedec(x, bw(q), m, 1)),
    ('wavelet wavedec2', lambda P, y, m, q, **_: P.wavedec2(y, bw(q), m, 1)),
    ('wavelet wavedecn', lambda P, y, m, q, **_: P.wavedecn(y, bw(q), m, 1)),
    ('wavelet waverec', lambda P, x, m, q, **_: P.waverec([x, x], bw(q), m)),
    ('wavelet maxlevel', lambda P, q, **_: P.dwt_max_level(40, bw(q))),
    ('wavelet object', lambda P, q, **_: P.Wavelet(bw(q))),
    ('wavelet continuous', lambda P, q, **_: P.ContinuousWavelet(bw(q))),
    ('wavelet either', lambda P, q, **_: P.DiscreteContinuousWavelet(bw(q))),
    ('wavelet cwt', lambda P, x, q, **_: P.cwt(x, [1, 2], bw(q))),
    ('wavelet packet', lambda P, x, m, q, **_: P.WaveletPacket(x, bw(q), m)),
    ('wavelet downcoef', lambda P, x, m, q, **_: P.downcoef('a', x, bw(q), m)),
    ('wavelet frequency', lambda P, q, **_: P.central_frequency(bw(q))),
    ('continuous as discrete', lambda P, x, m, q, **_: P.dwt(x, CWN[q[0] % len(CWN)], m)),
    ('continuous as discrete n', lambda P, y, m, q, **_: P.dwtn(y, CWN[q[0] % len(CWN)], m)),
    ('continuous as discrete object', lambda P, q, **_: P.Wavelet(CWN[q[0] % len(CWN)])),
    ('continuous as discrete swt', lambda P, e, q, **_: P.swt(e, CWN[q[0] % len(CWN)], 1)),
    ('continuous as discrete level', lambda P, q, **_: P.dwt_max_level(50, CWN[q[0] % len(CWN)])),
    ('discrete as continuous', lambda P, n, **_: P.ContinuousWavelet(n)),
    ('family', lambda P, q, **_: P.wavelist(bw(q) or 'none')),
    ('kind', lambda P, q, **_: P.wavelist(kind=['other', 'Discrete', '', 'cont'][q[0] % 4])),
    ('threshold mode', lambda P, x, q, **_: P.threshold(x, 1.0, ['unknown', 'Soft', '', 'hards'][q[0] % 4])),
    ('mra transform', lambda P, x, w, **_: P.mra(x, w, transform='fourier')),
    ('mra2 transform', lambda P, y, w, **_: P.mra2(y, w, transform='swt')),
    ('mran transform', lambda P, y, w, **_: P.mran(y, w, transform='fourier')),
    ('cwt method', lambda P, x, q, **_: P.cwt(x, [1, 2], CWN[q[0] % len(CWN)], method=['other', '', 'FFT'][q[1] % 3])),
    ('part downcoef', lambda P, x, w, m, q, **_: P.downcoef(['q', 'A', 'ad', '', 'da'][q[0] % 5], x, w, m)),
    ('part upcoef', lambda P, x, w, q, **_: P.upcoef(['q', 'A', 'ad', '', 'da'][q[0] % 5], x, w)),
    ('qmf order', lambda P, q, **_: P.orthogonal_filter_bank([1.0] * (3 + 2 * (q[0] % 3)))),
    )
# axes
row(X,
    ('axis dwt', lambda P, y, w, m, q, **_: P.dwt(y, w, m, axis=oob(2, q))),
    ('axis dwt 1d', lambda P, x, w, m, q, **_: P.dwt(x, w, m, axis=oob(1, q))),
    ('axis idwt', lambda P, y, w, m, q, **_: P.idwt(y, y, w, m, axis=oob(2, q))),
    ('axis idwt none', lambda P, y, w, m, q, **_: P.idwt(None, y, w, m, axis=oob(2, q))),
    ('axis dwt2', lambda P, y, w, m, q, **_: P.dwt2(y, w, m, axes=over([3, 5], q))),
    ('axis dwtn', lambda P, y, w, m, q, **_: P.dwtn(y, w, m, axes=over([3, 5], q))),
    ('axis idwtn', lambda P, y, w, m, q, **_: P.idwtn({'aa': y, 'ad': y}, w, m, axes=over([3, 5], q))),
    ('axis idwt2', lambda P, y, w, m, q, **_: P.idwt2((y, (y, None, y)), w, m, axes=over([3, 5], q))),
    ('axis swt', lambda P, s, w, q, **_: P.swt(s, w, 1, axis=oob(2, q))),
    ('axis swt2', lambda P, s, w, q, **_: P.swt2(s, w, 1, axes=over([4, 8], q))),
    ('axis swtn', lambda P, s, w, q, **_: P.swtn(s, w, 1, axes=over([4, 8], q))),
    ('axis iswt', lambda P, e, w, q, **_: P.iswt([(e, e)], w, axis=oob(1, q))),
    ('axis wavedec', lambda P, y, w, m, q, **_: P.wavedec(y, w, m, 1, axis=oob(2, q))),
    ('axis waverec', lambda P, y, w, m, q, **_: P.waverec([y, y], w, m, axis=oob(2, q))),
    ('axis wavedec2', lambda P, y, w, m, q, **_: P.wavedec2(y, w, m, 1, axes=over([3, 5], q))),
    ('axis wavedecn', lambda P, z, w, m, q, **_: P.wavedecn(z, w, m, 1, axes=over([2, 4, 6], q))),
    ('axis fswavedecn', lambda P, z, w, m, q, **_: P.fswavedecn(z, w, m, 1, axes=over([2, 4, 6], q))),
    ('axis cwt', lambda P, y, q, **_: P.cwt(y, [1, 2], 'mexh', axis=oob(2, q))),
    ('axis cwt list', lambda P, y, q, **_: P.cwt(y, [1, 2], 'mexh', axis=(0,))),
    ('axis packet', lambda P, x, w, m, q, **_: P.WaveletPacket(x, w, m, axis=oob(1, q))),
    ('axis mra', lambda P, s, w, q, **_: P.mra(s, w, 1, axis=oob(2, q))),
    ('axis mran', lambda P, s, w, q, **_: P.mran(s, w, 1, axes=over([4, 8], q))),
    ('dup wavedec2', lambda P, y, w, m, q, **_: P.wavedec2(y, w, m, 1, axes=dup(2, q))),
    ('dup waverec2', lambda P, y, w, m, q, **_: P.waverec2([y, (y, y, y)], w, m, axes=dup(2, q))),
    ('dup wavedecn', lambda P, z, w, m, q, **_: P.wavedecn(z, w, m, 1, axes=dup(3, q))),
    ('dup waverecn', lambda P, y, w, m, q, **_: P.waverecn([y, {'ad': y}], w, m, axes=dup(2, q))),
    ('dup swt2', lambda P, s, w, q, **_: P.swt2(s, w, 1, axes=dup(2, q))),
    ('dup swtn', lambda P, s, w, q, **_: P.swtn(s, w, 1, axes=dup(2, q))),
    ('dup swtn signs', lambda P, s, w, q, **_: P.swtn(s, w, 1, axes=(q[0] % 2, q[0] % 2 - 2))),
    ('dup iswtn', lambda P, s, w, q, **_: P.iswtn([{'aa': s, 'ad': s, 'da': s, 'dd': s}], w, axes=dup(2, q))),
    ('dup fswavedecn', lambda P, z, w, m, q, **_: P.fswavedecn(z, w, m, 1, axes=dup(3, q))),
    ('dup packet2', lambda P, y, w, m, q, **_: P.WaveletPacket2D(y, w, m, axes=dup(2, q))),
    ('dup packetn', lambda P, z, w, m, q, **_: P.WaveletPacketND(z, w, m, axes=dup(3, q))),
    ('three dwt2', lambda P, z, w, m, **_: P.dwt2(z, w, m, axes=(0, 1, 2))),
    ('three idwt2', lambda P, y, w, m, **_: P.idwt2((y, (y, y, y)), w, m, axes=(0, 1, 0))),
    ('three swt2', lambda P, s, w, **_: P.swt2(s, w, 1, axes=(0, 1, 0))),
    ('three wavedec2', lambda P, z, w, m, **_: P.wavedec2(z, w, m, 1, axes=(0, 1, 2))),
    ('one dwt2', lambda P, y, w, m, q, **_: P.dwt2(y, w, m, axes=(q[0] % 2,))),
    ('three packet2', lambda P, z, w, m, **_: P.WaveletPacket2D(z, w, m, axes=(0, 1, 2))),
    ('many packetn', lambda P, x, w, m, **_: P.WaveletPacketND(x, w, m, axes=(0, 1))),
    ('iswtn axes', lambda P, s, w, **_: P.iswtn([{'aa': s, 'ad': s, 'da': s, 'dd': s}], w, axes=(0,))),
    ('wavelets per axis', lambda P, z, w, m, **_: P.dwtn(z, (w, w), m)),
    ('wavelets per axis 2', lambda P, y, w, m, **_: P.wavedec2(y, (w, w, w), m, 1)),
    ('modes per axis', lambda P, z, w, m, **_: P.dwtn(z, w, (m, m))),
    ('modes per axis n', lambda P, z, w, m, **_: P.wavedecn(z, w, (m, m), 1)),
    ('wavelets too many', lambda P, y, w, m, **_: P.dwtn(y, (w, w, w), m)),
    ('wavelets too many inverse', lambda P, y, w, m, **_: P.idwtn({'aa': y}, (w, w, w), m)),
    ('modes too many', lambda P, y, w, m, **_: P.dwtn(y, w, (m, m, m))),
    ('modes too many inverse', lambda P, y, w, m, **_: P.idwtn({'aa': y}, w, (m, m, m))),
    ('modes too many 2', lambda P, y, w, m, **_: P.dwt2(y, w, (m, m, m))),
    ('modes too many n', lambda P, y, w, m, **_: P.wavedecn(y, w, (m, m), 1, axes=(0,))),
    ('wavelets too many swt', lambda P, s, w, **_: P.swtn(s, (w, w, w), 1)),
    ('wavelets too many iswt', lambda P, s, w, **_: P.iswtn([{'aa': s, 'ad': s, 'da': s, 'dd': s}], (w, w, w))),
    ('modes too many fs', lambda P, y, w, m, **_: P.fswavedecn(y, w, (m, m, m), 1)),
    ('wavelet kind', lambda P, y, m, q, **_: P.dwtn(y, [3, 1.5, None][q[0] % 3], m)),
    ('mode kind', lambda P, y, w, q, **_: P.dwtn(y, w, [1.5, None][q[0] % 2])),
    )
# dimensions
row(V,
    ('0d dwtn', lambda P, w, m, **_: P.dwtn(np.float64(3.0), w, m)),
    ('0d wavedecn', lambda P, w, m, **_: P.wavedecn(np.float64(3.0), w, m)),
    ('0d swtn', lambda P, w, **_: P.swtn(np.float64(3.0), w, 1)),
    ('0d packetn', lambda P, w, m, **_: P.WaveletPacketND(np.array(3.0), w, m)),
    ('1d dwt2', lambda P, x, w, m, **_: P.dwt2(x, w, m)),
    ('1d wavedec2', lambda P, x, w, m, **_: P.wavedec2(x, w, m, 1)),
    ('1d swt2', lambda P, e, w, **_: P.swt2(e, w, 1)),
    ('1d packet2', lambda P, x, w, m, **_: P.WaveletPacket2D(x, w, m)),
    ('2d downcoef', lambda P, y, w, m, q, **_: P.downcoef('ad'[q[0] % 2], y, w, m)),
    ('2d upcoef', lambda P, y, w, q, **_: P.upcoef('ad'[q[0] % 2], y, w)),
    ('no data packetn', lambda P, w, m, **_: P.WaveletPacketND(None, w, m)),
    ('empty dwt', lambda P, x, w, m, **_: P.dwt(x[:0], w, m)),
    ('empty dwtn', lambda P, y, w, m, **_: P.dwtn(y[:, :0], w, m)),
    ('empty swt', lambda P, x, w, **_: P.swt(x[:0], w, 1)),
    ('empty swt level', lambda P, **_: P.swt_max_level(0)),
    ('length len', lambda P, q, m, **_: P.dwt_coeff_len(0, q[0], m)),
    ('filter len', lambda P, q, m, **_: P.dwt_coeff_len(q[0], 0, m)),
    ('filter maxlevel', lambda P, q, **_: P.dwt_max_level(q[0], [1, 0, -2, 2.5][q[1] % 4])),
    ('filter kind', lambda P, q, **_: P.dwt_max_level(q[0], [None, (2,)][q[1] % 2])),
    ('one reflect', lambda P, x, w, q, **_: P.dwt(x[:1], w, ['reflect', 'antireflect'][q[0] % 2])),
    ('one reflect n', lambda P, y, w, q, **_: P.dwtn(y[:1], w, ['reflect', 'antireflect'][q[0] % 2])),
    ('one reflect downcoef', lambda P, x, w, q, **_: P.downcoef('ad'[q[1] % 2], x[:1], w, ['reflect', 'antireflect'][q[0] % 2], 1 + q[1] % 3)),
    ('one reflect downcoef level', lambda P, x, q, **_: P.downcoef('ad'[q[1] % 2], x[:2 + q[1] % 2], 'db1', ['reflect', 'antireflect'][q[0] % 2], 4)),
    ('one reflect wavedec', lambda P, x, q, **_: P.wavedec(x[:2 + q[1] % 2], 'db1', ['reflect', 'antireflect'][q[0] % 2], 4)),
    ('one reflect wavedecn', lambda P, x, q, **_: P.wavedecn(x[:2 + q[1] % 2], 'db1', ['reflect', 'antireflect'][q[0] % 2], 4)),
    ('one reflect packet', lambda P, x, q, **_: P.WaveletPacket(x[:2], 'db1', ['reflect', 'antireflect'][q[0] % 2], 3).get_level(3)),
    ('one reflect fs', lambda P, y, w, q, **_: P.fswavedecn(y[:, :1], w, ['reflect', 'antireflect'][q[0] % 2], 1)),
    ('odd swt', lambda P, x, w, **_: P.swt(x, w, 1)),
    ('odd swt axis', lambda P, y, w, q, **_: P.swt(y, w, 1, axis=q[0] % 2)),
    ('odd swt2', lambda P, y, w, **_: P.swt2(y, w, 1)),
    ('odd swtn', lambda P, y, w, **_: P.swtn(y, w, 1)),
    )
# levels, scales, widths, numbers
row(V,
    ('level wavedec', lambda P, x, w, m, q, **_: P.wavedec(x, w, m, -q[0])),
    ('level wavedec2', lambda P, y, w, m, q, **_: P.wavedec2(y, w, m, -q[0])),
    ('level wavedecn', lambda P, y, w, m, q, **_: P.wavedecn(y, w, m, -q[0])),
    ('level fswavedecn', lambda P, y, w, m, q, **_: P.fswavedecn(y, w, m, -q[0])),
    ('levels fswavedecn', lambda P, y, w, m, q, **_: P.fswavedecn(y, w, m, [1] * (2 + q[0]))),
    ('level swt', lambda P, e, w, q, **_: P.swt(e, w, level=3 + q[0])),
    ('level swt axis', lambda P, s, w, q, **_: P.swt(s, w, level=3 + q[0], axis=q[1] % 2)),
    ('level swt start', lambda P, e, w, q, **_: P.swt(e, w, level=1, start_level=2 + q[0])),
    ('level swt both', lambda P, e, w, **_: P.swt(e, w, level=3, start_level=1)),
    ('level swt both axis', lambda P, s, w, q, **_: P.swt(s, w, level=q[0] % 2 + 3, start_level=1, axis=1)),
    ('level swt both axis 0', lambda P, s, w, q, **_: P.swt(s, w, level=2, start_level=1, axis=0)),
    ('level swt start axis', lambda P, s, w, q, **_: P.swt(s, w, level=1, start_level=2 + q[0], axis=0)),
    ('level swtn start', lambda P, s, w, q, **_: P.swtn(s, w, level=2, start_level=1)),
    ('level swt2 start', lambda P, s, w, q, **_: P.swt2(s, w, level=2, start_level=1)),
    ('level swt2',  lambda P, s, w, q, **_: P.swt2(s, w, level=2 + q[0])),
    ('level swtn', lambda P, s, w, q, **_: P.swtn(s, w, level=2 + q[0])),
    ('level downcoef', lambda P, x, w, m, q, **_: P.downcoef('ad'[q[1] % 2], x, w, m, level=1 - q[0])),
    ('level upcoef', lambda P, x, w, q, **_: P.upcoef('ad'[q[1] % 2], x, w, level=1 - q[0])),
    ('level packet', lambda P, x, w, m, q, **_: P.WaveletPacket(x, w, m, 1).get_level(1 + q[0])),
    ('level packet2', lambda P, s, w, m, q, **_: P.WaveletPacket2D(s, w, m, 1).get_level(1 + q[0])),
    ('level packetn', lambda P, s, w, m, q, **_: P.WaveletPacketND(s, w, m, 1).get_level(1 + q[0])),
    ('order packet', lambda P, x, w, m, q, **_: P.WaveletPacket(x, w, m).get_level(1, ['Freq', 'none', ''][q[0] % 3])),
    ('order packet2', lambda P, s, w, m, q, **_: P.WaveletPacket2D(s, w, m).get_level(1, ['Freq', 'none', ''][q[0] % 3])),
    ('scale cwt', lambda P, x, q, **_: P.cwt(x, [1.0, -float(q[0])], CWN[q[1] % len(CWN)])),
    ('scale cwt 0', lambda P, x, q, **_: P.cwt(x, [0, 2], CWN[q[1] % len(CWN)])),
    ('scale cwt one', lambda P, x, q, **_: P.cwt(x, -q[0], CWN[q[1] % len(CWN)])),
    ('width pad', lambda P, x, q, **_: P.pad(x, -q[0], 'zero')),
    ('width pad side', lambda P, x, m, q, **_: P.pad(x, (q[1], -q[0]), 'symmetric')),
    ('firm low', lambda P, x, q, **_: P.threshold_firm(x, -float(q[0]), 2.0)),
    ('firm high', lambda P, x, q, **_: P.threshold_firm(x, 2.0, 2.0 - .5 * q[0])),
    ('greater complex', lambda P, x, **_: P.threshold(x + 1j, 1.0, 'greater')),
    ('less complex', lambda P, x, **_: P.threshold(x + 1j, 1.0, 'less')),
    ('filters three', lambda P, **_: P.Wavelet('broken', filter_bank=[[1, 2], [3, 4], [5, 6]])),
    ('filters unequal', lambda P, q, **_: P.Wavelet('broken', filter_bank=[[1, 2], [3, 4], [5, 6], [7] * (3 + q[0] % 3)])),
    ('filters empty', lambda P, **_: P.Wavelet('broken', filter_bank=[[], [], [], []])),
    ('filters nested', lambda P, **_: P.Wavelet('broken', filter_bank=[[[1], [2]]] * 4)),
    ('demo name', lambda P, q, **_: P.data.demo_signal(['nosuch', '', 'list_'][q[0] % 3], 64)),
    ('demo n', lambda P, q, **_: P.data.demo_signal('blocks', -q[0] + 1)),
    ('demo no n', lambda P, **_: P.data.demo_signal('doppler')),
    ('demo fixed n', lambda P, q, **_: P.data.demo_signal('gabor', 1000 + q[0])),
    )
# coefficients that do not fit together
row(V,
    ('none idwt', lambda P, w, m, **_: P.idwt(None, None, w, m)),
    ('none idwtn', lambda P, w, m, **_: P.idwtn({'aa': None, 'dd': None}, w, m)),
    ('none idwt2', lambda P, w, m, **_: P.idwt2((None, (None, None, None)), w, m)),
    ('shapes idwt', lambda P, x, w, m, q, **_: P.idwt(x, x[:-(1 + q[0] % 3)], w, m)),
    ('shapes idwtn', lambda P, y, w, m, **_: P.idwtn({'aa': y, 'ad': y[:, :-1]}, w, m)),
    ('shapes idwt2', lambda P, y, w, m, **_: P.idwt2((y, (y, y[:-1], None)), w, m)),
    ('keys idwtn', lambda P, y, w, m, q, **_: P.idwtn({['ax', 'bb', 'AA', 'd '][q[0] % 4]: y, 'aa': y}, w, m)),
    ('keys idwtn length', lambda P, y, w, m, **_: P.idwtn({'aa': y, 'd': y}, w, m)),
    ('keys waverecn', lambda P, y, w, m, **_: P.waverecn([y, {'ax': y, 'da': y}], w, m)),
    ('keys waverecn length', lambda P, y, w, m, **_: P.waverecn([y, {'ad': y, 'd': y}], w, m)),
    ('missing waverecn', lambda P, y, w, m, **_: P.waverecn([y, {'ad': y, 'da': None}], w, m)),
    ('short idwt', lambda P, x, **_: P.idwt(x[:1], x[:1], 'db20')),
    ('short idwtn', lambda P, y, **_: P.idwtn({'aa': y, 'dd': y}, 'db20')),
    ('empty waverec', lambda P, w, m, **_: P.waverec([], w, m)),
    ('empty waverec2', lambda P, w, m, **_: P.waverec2([], w, m)),
    ('empty waverecn', lambda P, w, m, **_: P.waverecn([], w, m)),
    ('array waverec', lambda P, y, w, m, **_: P.waverec(y, w, m)),
    ('array waverec2', lambda P, z, w, m, **_: P.waverec2(z, w, m)),
    ('list waverec', lambda P, x, w, m, q, **_: P.waverec([x, [list(x), tuple(x), (x, x, x), {'d': x}][q[0] % 4]], w, m)),
    ('shapes waverec first', lambda P, x, w, m, q, **_: P.waverec([x[:-2], x], w, m)),
    ('tuple waverec2', lambda P, y, w, m, q, **_: P.waverec2([y, [(y, y), (y, y, y, y), y, {'ad': y}, (y,)][q[0] % 5]], w, m)),
    ('shapes waverec2', lambda P, y, w, m, q, **_: P.waverec2([y, (y, y[:-1], y)], w, m)),
    ('dict waverecn', lambda P, y, w, m, q, **_: P.waverecn([y, [(y, y, y), y, [y]][q[0] % 3]], w, m)),
    ('nothing waverecn', lambda P, w, m, **_: P.waverecn([None, {}], w, m)),
    ('dims waverecn', lambda P, x, y, w, m, **_: P.waverecn([x, {'ad': y}], w, m)),
    ('shapes waverecn', lambda P, y, w, m, **_: P.waverecn([y, {'ad': y[:, :-2], 'da': y[:, :-2]}], w, m)),
    ('missing pack 2', lambda P, y, q, **_: P.coeffs_to_array([y, (y, None, y)])),
    ('missing pack a', lambda P, y, q, **_: P.coeffs_to_array([None, (y, y, y)])),
    ('missing ravel', lambda P, y, q, **_: P.ravel_coeffs([y, {'ad': y, 'da': None, 'dd': y}])),
    ('missing ravel a', lambda P, y, q, **_: P.ravel_coeffs([None, (y, y, y)])),
    ('list pack', lambda P, y, q, **_: P.coeffs_to_array([(y, y, y), y, ()][q[0] % 3])),
    ('list pack a', lambda P, y, q, **_: P.coeffs_to_array([[1, 2], {'d': y}])),
    ('detail pack', lambda P, y, q, **_: P.coeffs_to_array([y, 'abc'])),
    ('dims pack', lambda P, x, y, **_: P.coeffs_to_array([x, y])),
    ('empty pack', lambda P, **_: P.coeffs_to_array([])),
    ('empty ravel', lambda P, **_: P.ravel_coeffs([])),
    ('axes pack', lambda P, y, **_: P.coeffs_to_array([y, {'d': y}])),
    ('axes pack length', lambda P, y, **_: P.coeffs_to_array([y, {'d': y}], axes=(0, 1))),
    ('tight pack', lambda P, y, **_: P.coeffs_to_array([y, (y, y, y), (y, y, y)], padding=None)),
    ('empty unpack', lambda P, y, **_: P.array_to_coeffs(y, [])),
    ('format unpack', lambda P, x, w, m, q, **_: P.array_to_coeffs(*P.coeffs_to_array(P.wavedec(x, w, m, 1)),
                                                                  output_format=['other', '', 'wavedec3'][q[0] % 3])),
    ('empty unravel', lambda P, x, **_: P.unravel_coeffs(x, [], [])),
    ('shapes unravel', lambda P, x, **_: P.unravel_coeffs(x, [slice(0, 2)], [])),
    ('length unravel', lambda P, x, **_: P.unravel_coeffs(x, [slice(0, 2), {'d': slice(2, 4)}], [(2,)])),
    ('format unravel', lambda P, x, w, m, q, **_: P.unravel_coeffs(*P.ravel_coeffs(P.wavedec(x, w, m, 1)),
                                                                   output_format=['other', '', 'wavedec3'][q[0] % 3])),
    ('size', lambda P, y, q, **_: P.wavedecn_size([y.shape, {'ad': None}])),
    ('coeffs fs', lambda P, y, w, m, **_: setattr(P.fswavedecn(y, w, m, 1), 'coeffs', np.ones((2, 2)))),
    ('approx fs', lambda P, y, w, m, **_: setattr(P.fswavedecn(y, w, m, 1), 'approx', np.ones((9, 9)))),
    ('index fs', lambda P, y, w, m, q, **_: P.fswavedecn(y, w, m, 1)[[(0,), (0, 0, 0), (-1, 0), (.5, 0), (0, 9)][q[0] % 5]]),
    ('write fs', lambda P, y, w, m, q, **_: P.fswavedecn(y, w, m, 1).__setitem__((1, 1), np.ones((9, 9)))),
    ('index write fs', lambda P, y, w, m, q, **_: P.fswavedecn(y, w, m, 1).__setitem__([(0,), (0, -1), (0, 9)][q[0] % 3], y)),
    ('wavelets fs', lambda P, y, n, **_: P.FswavedecnResult(y, [[slice(0, 3)], [slice(0, 5)]], [n, n], [1, 1], (0, 1))),
    ('modes fs', lambda P, y, w, **_: P.FswavedecnResult(y, [[slice(0, 3)], [slice(0, 5)]], [P.Wavelet('db2')] * 2,
                                                         ['zero', 'zero'], (0, 1))),
    ('node packet', lambda P, x, w, m, q, **_: P.WaveletPacket(x, w, m, 2)[['h', 'A', 'x', 'ah'][q[0] % 4]]),
    ('node packet2', lambda P, s, w, m, q, **_: P.WaveletPacket2D(s, w, m, 2)[['x', 'A', 'ax'][q[0] % 3]]),
    ('node packetn', lambda P, s, w, m, q, **_: P.WaveletPacketND(s, w, m, 1)[['hh', 'ax', 'AA'][q[0] % 3]]),
    ('deep packet', lambda P, x, w, m, **_: P.WaveletPacket(x, w, m, 0).decompose()),
    )
row(I,
    ('path packet', lambda P, x, w, m, q, **_: P.WaveletPacket(x, w, m, 1)['a' * (1 + q[0])]),
    ('path packet2', lambda P, s, w, m, q, **_: P.WaveletPacket2D(s, w, m, 1)['h' * (1 + q[0])]),
    ('path packetn', lambda P, s, w, m, q, **_: P.WaveletPacketND(s, w, m, 1)['ad' * (1 + q[0])]),
    ('path write', lambda P, x, w, m, q, **_: P.WaveletPacket(x, w, m, 1).__setitem__('a' * (1 + q[0]), x)),
    )
row(T,
    ('objects dwtn', lambda P, w, m, **_: P.dwtn(np.array([['a', 'b']], dtype=object), w, m)),
    ('objects swtn', lambda P, w, **_: P.swtn(np.array(['a', 'b'], dtype=object), w, 1)),
    ('type packet', lambda P, x, w, m, q, **_: P.WaveletPacket(x, w, m, 1)[[3, None, 1.5][q[0] % 3]]),
    ('type write', lambda P, x, w, m, q, **_: P.WaveletPacket(x, w, m, 1).__setitem__([3, None, 1.5][q[0] % 3], x)),
    )
row(R,
    ('shapes iswt2', lambda P, s, w, **_: P.iswt2([(s, (s, s[:, :3], s))], w)),
    ('shapes iswtn', lambda P, s, w, **_: P.iswtn([{'aa': s, 'ad': s, 'da': s[:2], 'dd': s}], w)),
    )
row(E,
    ('shapes idwt other', lambda P, y, w, m, **_: P.idwt(y, y[:-1], w, m, axis=1)),
    ('shapes idwt axis', lambda P, y, w, m, **_: P.idwt(y, y[:, :-2], w, m, axis=1)),
    ('missing pack', lambda P, y, q, **_: P.coeffs_to_array([y, {'ad': y, 'da': None, 'dd': y}])),
    ('level swt 0', lambda P, e, w, q, **_: P.swt(e, w, level=-(q[0] // 2))),
    ('strings dwt', lambda P, w, m, **_: P.dwt(['a', 'b'], w, m)),
    ('strings wavedec', lambda P, w, m, **_: P.wavedec(np.array(['a', 'b', 'c']), w, m, 1)),
    ('strings swt', lambda P, w, **_: P.swt(['a', 'b'], w, 1)),
    ('ragged dwt', lambda P, w, m, **_: P.dwt([[1, 2], [3]], w, m)),
    ('ragged dwtn', lambda P, w, m, **_: P.dwtn([[1, 2], [3]], w, m)),
    ('none dwt', lambda P, w, m, **_: P.dwt(None, w, m)),
    ('none wavedec', lambda P, w, m, **_: P.wavedec(None, w, m, 1)),
    ('none cwt', lambda P, w, m, **_: P.cwt(None, [1], 'mexh')),
    ('empty cwt', lambda P, x, **_: P.cwt(x[:0], [1, 2], 'morl')),
    ('level text', lambda P, x, w, m, **_: P.wavedec(x, w, m, 'two')),
    ('precision', lambda P, q, **_: P.Wavelet('db2').wavefun(level=-40 - q[0])),
    ('keys dict', lambda P, y, w, m, **_: P.idwtn([y, y], w, m)),
    ('pair idwt2', lambda P, y, w, m, **_: P.idwt2((y, (y, y)), w, m)),
    ('pair iswt', lambda P, e, w, **_: P.iswt([(e, e, e)], w)),
    ('slices unpack', lambda P, x, **_: P.array_to_coeffs(x, [slice(0, 2), {'d': 'abc'}])),
    ('fs other', lambda P, y, **_: P.fswaverecn(y)),
    ('delete packet', lambda P, x, w, m, **_: P.WaveletPacket(x, w, m, 1).__delitem__('aaa')),
    ('mode two d', lambda P, y, w, **_: P.dwt(y, w, ('zero', 'zero'))),
    )
NAMES = sorted(ROWS)


def run(P, a):
    exc, f = ROWS[a['c']]
    return f(P, **{k: v for k, v in a.items() if k != 'c'})
