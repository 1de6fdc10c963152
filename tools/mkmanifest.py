#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkprops  # noqa: E402

T = {
    'C01': 'seeded schedule simulation of concurrent callers vs executable reference model',
    'C02': 'seeded schedule simulation over shared containers vs executable reference model',
    'C03': 'seeded schedule simulation of shared wavelets and registry vs golden registry model',
    'C04': 'deterministic simulation with injected allocation failures (C and array allocator)',
    'C05': 'deterministic simulation: repeated faulted histories, conservation of allocator counts',
    'C06': 'deterministic simulation with poisoning, guarded, misaligned simulated allocator',
    'C07': 'deterministic simulation: input invariants checked through faulted, interleaved histories',
    'C08': 'deterministic simulation with injected asynchronous exceptions at every line',
    'C09': 'deterministic simulation: history vs pristine-process replay of each call, ambient-state invariant',
    'C10': 'stateful simulation of faulted 1D tree histories, refinement against a reference tree',
    'C11': 'stateful simulation of faulted 2D/ND tree histories, refinement against a reference tree',
    'C12': 'crash-restart simulation of wavelet checkpoints vs object model',
    'C13': 'crash-restart simulation of tree checkpoints vs reference tree',
    'C14': 'simulated disk with injected I/O faults and interleaved readers vs golden data',
    'C15': 'seeded schedule simulation of concurrent lazy readers vs reference tree',
    'C16': 'deterministic simulation of process forks at scheduler-chosen points',
    'C18': 'deterministic simulation of refused requests among valid calls, threads and faults',
    'C17': 'deterministic simulation of re-entrant calls injected at chosen lines',
}
NOTE = ('Seeded search, not exhaustive: no violation in the explored runs. Real pywt Python, Cython and C code runs (rebuilt from '
        'the working tree with coverage callbacks); scheduler, allocators, locks%s are simulated. Trusts the reference model '
        '(sim/ref.py, golden tables), numpy, and the GIL; see DESIGN.md.')
EXTRA = {'C14': ', disk', 'C13': ', crashes', 'C12': ', crashes'}
R = {
    'N01': 'a pure function of one argument list: no thread, clock, I/O, crash or history for a simulator to decide. (The '
           'reference model inside C01/C02 does compare every simulated call with an independent evaluation, but the property '
           'itself quantifies over inputs only.)',
    'N02': 'pure function of its input; no schedule, fault or history in the statement.',
    'N03': 'relation between three pure calls; quantifies over inputs only.',
    'N04': 'arithmetic identity on integers; quantifies over inputs only.',
    'N05': 'relation between pure calls; quantifies over inputs only.',
    'N06': 'pure round trip; quantifies over inputs only.',
    'N07': 'numeric identity; quantifies over inputs only.',
    'N08': 'numeric agreement of two pure calls; quantifies over inputs only.',
    'N09': 'finite check of constant tables; no input, schedule or fault involved at all.',
    'N10': 'pure function of the input dtype; quantifies over inputs only.',
}
ids = [d['id'] for d in mkprops.D]
checks = []
for i in ids:
    if i[0] != 'C':
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 run.py check --prop %s --tier quick' % i,
                   'thorough_cmd': 'python3 run.py check --prop %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': T[i], 'level': 'exploration',
                   'level_note': NOTE % EXTRA.get(i, '')})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': R[i]} for i in ids if i[0] == 'N'],
     'notes': 'No hooks in /repo: every seam is outside it (allocator and GIL symbols wrapped at link time, compiler coverage '
              'callbacks, sys.monitoring, numpy memory handler, patched open and threading locks). Replay a violation with '
              'python3 run.py replay FILE.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
