"""Writes golden.json from an importable pywt (run once, on the pristine tree) and sanity-checks the tables."""
import json
import sys

import numpy as np


def main(out):
    import pywt
    g = {'discrete': {}, 'continuous': {}, 'wavelist': pywt.wavelist(), 'families': pywt.families(),
         'families_long': pywt.families(short=False),
         'wavelist_discrete': pywt.wavelist(kind='discrete'), 'wavelist_continuous': pywt.wavelist(kind='continuous'),
         'by_family': {f: pywt.wavelist(f) for f in pywt.families()}}
    for n in pywt.wavelist(kind='discrete'):
        w = pywt.Wavelet(n)
        g['discrete'][n] = {'filters': [[float(v).hex() for v in f] for f in w.filter_bank],
                            **{k: getattr(w, k) for k in (
                                'orthogonal', 'biorthogonal', 'symmetry', 'family_name', 'short_family_name',
                                'vanishing_moments_psi', 'vanishing_moments_phi', 'family_number', 'dec_len', 'rec_len',
                                'name')}}
    for n in pywt.wavelist(kind='continuous'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w = pywt.ContinuousWavelet(n)
        g['continuous'][n] = {k: getattr(w, k) for k in (
            'orthogonal', 'biorthogonal', 'symmetry', 'family_name', 'short_family_name', 'complex_cwt', 'lower_bound',
            'upper_bound', 'center_frequency', 'bandwidth_frequency', 'fbsp_order', 'family_number', 'name')}
    import pywt.data
    import world
    import hashlib
    g['data'] = {}
    for n in ('ascent', 'aero', 'camera', 'ecg'):
        h = hashlib.blake2b(digest_size=10)
        world.snap(np.array(getattr(pywt.data, n)()), h)
        g['data'][n] = h.hexdigest()
    with open(out, 'w') as f:
        json.dump(g, f, indent=0, sort_keys=True)
    # sanity: perfect-reconstruction identity of each bank (dmey and coif/sym with published rounding: loose)
    worst = {}
    for n, d in g['discrete'].items():
        lo, hi, rlo, rhi = (np.array([float.fromhex(v) for v in f]) for f in d['filters'])
        p = np.convolve(lo, rlo) + np.convolve(hi, rhi)
        q = np.zeros_like(p)
        q[len(lo) - 1] = 2
        worst[n] = abs(p - q).max()
    bad = {k: v for k, v in worst.items() if v > 1e-9}
    print('filter banks: %d, max PR defect above 1e-9: %s' % (len(worst), bad))


if __name__ == '__main__':
    main(sys.argv[1])
