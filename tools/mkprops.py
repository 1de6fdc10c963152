#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json
import os

D = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = state
    a['observe_at'] = observe or []
    a['hook_needed'] = None
    D.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


EXT = 'pywt/_extensions/'
WHY_SCHED = ('The suite has one thread-pool test per transform with a single wavelet and shape on the real OS scheduler; it '
             'samples a handful of uncontrolled interleavings and cannot place a switch inside a kernel or between two '
             'given lines.')
p('C01', 'Concurrent forward transforms return what each call returns alone',
  'Any number of threads may at the same time call the transforms and functions that produce coefficients, sampled wavelet '
  'functions or processed values (single and multilevel DWT in any dimension, SWT, fully separable DWT, MRA, CWT, packet '
  'coefficients, padding, thresholding, scalar helpers), with shared or separate inputs and wavelets. Every call ends, and '
  'returns the mathematically defined result of its own arguments, exactly as if it had run alone.',
  ['schedules', 'inputs', 'histories'],
  'every interleaving of 2-4 callers at Python line, GIL release/acquire and C basic-block granularity; every supported '
  'wavelet, mode, dtype, memory layout, axis and level combination the generators can draw',
  WHY_SCHED,
  ['pywt/_dwt.py', 'pywt/_multidim.py', 'pywt/_multilevel.py', 'pywt/_swt.py', 'pywt/_mra.py', 'pywt/_cwt.py',
   'pywt/_thresholding.py', 'pywt/_functions.py', EXT + '_dwt.pyx', EXT + '_swt.pyx', EXT + '_cwt.pyx', EXT + 'c/'],
  [('kernels run without the GIL on buffers private to the call', EXT + '_dwt.pyx:42'),
   ('per-call scratch allocation, no static storage', EXT + 'c/convolution.template.c'),
   ('coefficient strides computed per call', EXT + 'c/common.h')],
  ['return values of every call'])
p('C02', 'Concurrent inverse transforms over shared coefficients return solo results',
  'Any number of threads may reconstruct at the same time from the very same coefficient arrays, lists, tuples and dicts, '
  'mixed with callers that only read or repack those containers. Every call ends and returns exactly what it returns alone, '
  'and no caller ever sees a container in an intermediate state.',
  ['schedules', 'inputs', 'histories'],
  'every interleaving of 2-4 callers of the inverse transforms and packing helpers over shared containers, including '
  'containers with missing (None) entries and mixed precision',
  WHY_SCHED + ' No test shares one coefficient container between threads at all.',
  ['pywt/_dwt.py', 'pywt/_multidim.py', 'pywt/_multilevel.py', 'pywt/_swt.py', 'pywt/_mra.py', EXT + '_dwt.pyx',
   EXT + 'c/wt.template.c', EXT + 'c/convolution.template.c'],
  [('inverse transforms copy containers before filling in missing entries', 'pywt/_multilevel.py:waverecn'),
   ('approximation array is copied before in-place accumulation', 'pywt/_swt.py:iswt')],
  ['return values', 'the shared containers'])
p('C03', 'Wavelet objects and the wavelet registry can be shared and are isolated',
  'Threads may share Wavelet and ContinuousWavelet objects, look up wavelets and families, build user-defined wavelets, '
  'sample wavelet functions and copy objects at the same time, and every query returns the documented values of that wavelet. '
  'Editing or overwriting what a query handed out, editing one object, or failing to build one never changes what any other '
  'object or later lookup of the same name returns.',
  ['schedules', 'histories', 'inputs'],
  'every interleaving of 2-4 callers and every history of lookups, attribute reads and writes, custom filter banks, copies '
  'and caller-side edits over all 127 built-in wavelets',
  'Tests read tables once from fresh objects in one thread; none edits what a lookup returned and then looks again, or '
  'builds wavelets from several threads.',
  [EXT + '_pywt.pyx', EXT + 'c/wavelets.c', EXT + 'wavelets_list.pxi', 'pywt/_functions.py'],
  [('constant coefficient tables copied into each object', EXT + 'c/wavelets.c'),
   ('name lookup in a module-level dict that is never written', EXT + '_pywt.pyx:170'),
   ('filter properties build new lists', EXT + '_pywt.pyx:dec_lo')],
  ['wavelist/families/Wavelet/ContinuousWavelet/DiscreteContinuousWavelet', 'wavelet attributes'])
p('C04', 'A failed memory allocation is reported cleanly and can be retried',
  'If any memory allocation made during a call fails, the call either raises an out-of-memory style error or still returns '
  'the correct result; it never crashes, never returns wrong or uninitialised values and never reports the caller\'s valid '
  'arguments as invalid. Repeating the call with memory available returns the correct result, and other callers are not '
  'affected.',
  ['fault_sequences', 'inputs', 'schedules'],
  'every allocation (of the C kernels or of an array buffer) of every call is a fault point, once or persistently until the '
  'call ends, alone or while other callers run',
  'No test makes an allocation fail; all NULL branches of the C code are dead code in the suite.',
  [EXT + '_dwt.pyx', EXT + '_swt.pyx', EXT + '_cwt.pyx', EXT + '_pywt.pyx', EXT + 'c/wavelets.c', EXT + 'c/wt.template.c',
   EXT + 'c/convolution.template.c', EXT + 'c/cwt.template.c'],
  [('every malloc result tested and a negative code returned', EXT + 'c/convolution.template.c:downsampling_convolution_periodization'),
   ('kernel return codes turned into exceptions', EXT + '_dwt.pyx:146'),
   ('wavelet construction unwinds on a failed allocation', EXT + 'c/wavelets.c:blank_discrete_wavelet')],
  ['exception or result of the call', 'the retry'])
p('C05', 'Nothing leaks or is freed twice, whatever calls succeed or fail',
  'Once the objects a call returned are dropped, the memory, array buffers and file handles it took are given back, whether '
  'it succeeded, was refused because of bad arguments, ran out of memory half way or was interrupted. Repeating any history '
  'of calls therefore never makes the process grow, and nothing is released twice.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of up to four calls (valid, invalid, allocation-failed at any point, interrupted at any line) repeated in '
  'one process; all four resource counts are compared between repetitions',
  'Tests look at values only; a leak on an error path or a second free of a freed block is invisible to them.',
  [EXT + '_pywt.pyx', EXT + 'c/wavelets.c', EXT + 'c/wt.template.c', EXT + 'c/convolution.template.c', EXT + 'c/cwt.template.c',
   'pywt/_wavelet_packets.py', 'pywt/data/_readers.py'],
  [('free on every exit of a kernel', EXT + 'c/convolution.template.c'),
   ('wavelet structure released with its object', EXT + '_pywt.pyx:__dealloc__')],
  ['allocator counts', 'open file count'])
p('C06', 'Calls touch only their own memory and return independent, filled arrays',
  'No call reads memory it did not initialise or writes outside the buffers it owns, whatever shapes, strides, axes, levels '
  'or invalid arguments it is given: results do not depend on what freshly allocated memory contains or where it lies. '
  'Returned arrays never share memory with library-internal state, so a caller may overwrite everything it was given without '
  'changing any later result.',
  ['inputs', 'histories', 'schedules', 'configurations'],
  'every call of the API with the allocator handing out differently poisoned, differently aligned, guarded blocks, and '
  'callers overwriting all they received; both alone and under arbitrary interleavings',
  'Tests run on whatever bytes the allocator returns (usually zeros) and never write into returned arrays before the next '
  'call.',
  [EXT + '_dwt.pyx', EXT + '_swt.pyx', EXT + '_cwt.pyx', EXT + 'c/', 'pywt/_cwt.py', 'pywt/_multilevel.py', 'pywt/_swt.py',
   'pywt/_multidim.py'],
  [('output buffers sized from dwt/idwt/swt length formulas and fully written', EXT + 'c/common.c'),
   ('np.empty outputs filled over every index', 'pywt/_multilevel.py:coeffs_to_array'),
   ('shape and axis validation before entering C', EXT + '_dwt.pyx:98')],
  ['returned arrays', 'guard zones of the simulated allocator'])
p('C07', 'No call ever changes an array, container or wavelet passed to it',
  'Whatever a call does - succeed, refuse its arguments, run out of memory or be interrupted at any point - the arrays, '
  'lists, tuples, dicts and wavelet objects the caller passed in are left exactly as they were: same values, dtype, shape, '
  'element identity and key order. This also holds at every moment another thread can look, except for the one operation '
  'documented to write into a caller-supplied place (assignment into a packet tree).',
  ['inputs', 'fault_sequences', 'schedules', 'histories'],
  'every call of the API with every fault position and every interleaving of sharing callers; all inputs are compared bit by '
  'bit (including bytes around strided views) after each call',
  'A few tests compare one input after one successful call; none covers failures, interrupts, containers or non-contiguous '
  'views.',
  ['pywt/_multilevel.py', 'pywt/_multidim.py', 'pywt/_swt.py', 'pywt/_mra.py', 'pywt/_dwt.py', 'pywt/_thresholding.py',
   'pywt/_cwt.py', EXT + '_dwt.pyx'],
  [('copy before in-place accumulation', 'pywt/_swt.py:iswt'),
   ('dict comprehension copies of coefficient dicts', 'pywt/_multilevel.py:waverecn'),
   ('thresholding works on a copy', 'pywt/_thresholding.py')],
  ['the caller-owned objects after every call'])
p('C08', 'An interrupt or timeout in the middle of a call leaves everything usable',
  'If an asynchronous exception (Ctrl-C, a timeout) arrives at any point of any call, the exception reaches the caller, '
  'nothing the caller holds - inputs, wavelets, packet trees - is left half changed, and no later call, by this or any '
  'other thread, is affected. Repeating the interrupted call returns the correct result.',
  ['crash_points', 'fault_sequences', 'histories', 'schedules'],
  'every line of every library function as the point of interruption, for single calls, sequences of calls and concurrent '
  'callers, and for packet-tree operations',
  'No test interrupts anything.',
  ['pywt/_wavelet_packets.py', 'pywt/_multilevel.py', 'pywt/_swt.py', 'pywt/_mra.py', 'pywt/_cwt.py', 'pywt/_functions.py',
   'pywt/data/_readers.py'],
  [('transforms keep no state between calls', 'pywt/_multilevel.py'),
   ('tree edits commit last or roll back', 'pywt/_wavelet_packets.py:171')],
  ['exception seen by the caller', 'results of later calls'])
p('C09', 'Results never depend on earlier calls, and calls have no side effects',
  'What a call returns depends only on its arguments: the same call made first in a fresh process and made after any other '
  'history of successful, refused, interrupted or memory-starved calls gives the same result. Library calls change no '
  'process-wide state: numpy error and print settings, warning filters, random generators, environment, working directory, '
  'standard output, open files, threads and other modules\' attributes stay as they were.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of 2-9 calls over all parts of the API, repeated and near-identical arguments included, each result compared '
  'with the same call in a pristine process and the process state compared after every step',
  'Tests run each call in an arbitrary but fixed history and never look at global state; a cache with an incomplete key or a '
  'leaked setting is only seen by the order that exposes it.',
  ['pywt/__init__.py', 'pywt/_cwt.py', 'pywt/_functions.py', 'pywt/_multilevel.py', 'pywt/_dwt.py', 'pywt/_thresholding.py',
   'pywt/data/_readers.py', EXT + '_pywt.pyx'],
  [('no module-level mutable state outside the data set cache', 'pywt/'),
   ('warnings and error state only changed locally', 'pywt/_thresholding.py')],
  ['return values', 'process-wide settings'])
TREE_STATE = [{'name': 'tree', 'meaning': 'which nodes exist, their data, maximum level and shape', 'where': 'pywt/_wavelet_packets.py'}]
TREE_MECH = [('a node is split once; its data is dropped when subnodes are reconstructed with update', 'pywt/_wavelet_packets.py:171'),
             ('missing subnodes are computed from the parent on access', 'pywt/_wavelet_packets.py:221'),
             ('assignment decomposes/creates parents then stores the data', 'pywt/_wavelet_packets.py:280')]
p('C10', '1D wavelet packet trees behave as documented under any history of edits',
  'After any sequence of reading, assigning, deleting, decomposing, reconstructing, walking and listing nodes of a 1D wavelet '
  'packet tree, valid or not, every node holds the data its documented definition gives, and paths, levels, orderings, leaf '
  'sets and reconstructions follow from them. A step that is refused, interrupted or out of memory leaves the tree in a '
  'state consistent with that history, from which the step can be repeated.',
  ['histories', 'fault_sequences', 'inputs'],
  'every sequence of up to 14 operations over nodes down to level 4, all wavelets and modes, with faults at any point',
  'Tests apply two or three operations to one 8-sample tree; histories such as delete-assign-reconstruct-read are not tried.',
  ['pywt/_wavelet_packets.py'], TREE_MECH, ['node data, paths, get_level, get_leaf_nodes, walk, reconstruct'], TREE_STATE)
p('C11', '2D and ND packet trees behave as documented under any history of edits',
  'The same holds for 2D and N-dimensional wavelet packet trees over any chosen axes: after any sequence of reads, '
  'assignments, deletions, decompositions, reconstructions, walks and listings every node holds the data its documented '
  'definition gives, in natural and frequency order. A refused, interrupted or memory-starved step leaves a consistent tree '
  'from which the step can be repeated.',
  ['histories', 'fault_sequences', 'inputs'],
  'every sequence of up to 14 operations over 2D and 1-3 dimensional trees with arbitrary axes, odd and even sizes, all modes, '
  'with faults at any point',
  'Tests apply two or three operations to trees of one even size with default axes.',
  ['pywt/_wavelet_packets.py', 'pywt/_multidim.py'], TREE_MECH + [
      ('axes recorded by the root and passed to every transform', 'pywt/_wavelet_packets.py:953')],
  ['node data, paths, get_level, get_leaf_nodes, walk, reconstruct'], TREE_STATE)
p('C12', 'A saved or copied wavelet object is the same wavelet, in any process',
  'A Wavelet or ContinuousWavelet that is pickled and restored - in the same process, another process or after a crash - '
  'copied or deep-copied is indistinguishable from the original at that moment: same filters, name, family, symmetry, bounds, '
  'frequencies and flags, and identical results in every transform. Later edits of either one never reach the other.',
  ['crash_points', 'histories', 'inputs'],
  'every history of building, editing, saving, copying, crashing and restoring wavelet objects of every family and of '
  'user-defined filter banks, with faults during save and restore',
  'Tests pickle one unedited built-in object within one process and compare filters only.',
  [EXT + '_pywt.pyx'],
  [('reduction to constructor and state', EXT + '_pywt.pyx:__reduce__')],
  ['attributes and transform results of the restored object'])
p('C13', 'A saved packet tree restores exactly, at whatever point it was saved',
  'A wavelet packet tree (1D, 2D or ND) or fully separable decomposition result that is pickled or deep-copied at any point '
  'of its history restores to an equivalent object in any process: same nodes, data, axes, mode, wavelet and maximum level, '
  'including edited, deleted and not yet reconstructed nodes. After a crash, work resumed from the last save gives the same '
  'results as without the crash, and the original is not changed by saving.',
  ['crash_points', 'histories', 'fault_sequences'],
  'every history of tree operations with saves at any position, crash and restart keeping only saved bytes, and copies '
  'edited side by side with the original',
  'Tests pickle one freshly built tree per class in the same process.',
  ['pywt/_wavelet_packets.py', 'pywt/_multilevel.py', EXT + '_pywt.pyx'],
  [('root reduction to constructor arguments and node state', 'pywt/_wavelet_packets.py:__reduce__')],
  ['restored tree'], TREE_STATE)
p('C14', 'Example data sets and demo signals are right for every caller and failure',
  'Every caller that asks for an example data set or demo signal receives the same correct values in an array of its own, '
  'whatever other callers did to theirs and however many ask at once for the first time. If reading the stored file fails - '
  'file missing, I/O error, short reads, truncated or damaged contents, interrupt, no memory - the caller gets an error or '
  'the right data, never wrong data, no file stays open, and once the fault is gone the next call succeeds.',
  ['fault_sequences', 'schedules', 'histories'],
  'every history of reads by 1-4 interleaved callers who overwrite their results, with a disk fault of any kind at any open, '
  'read or byte',
  'Tests load each data set once from a healthy disk and check shape or range.',
  ['pywt/data/_readers.py', 'pywt/data/_wavelab_signals.py'],
  [('lazy loading into a module dictionary', 'pywt/data/_readers.py'),
   ('context-managed files', 'pywt/data/_readers.py')],
  ['arrays returned by aero/ascent/camera/ecg/nino/demo_signal'])
p('C15', 'Threads that only read a shared packet tree all see the right data',
  'Several threads may at the same time read nodes of one shared wavelet packet tree by path or by level, even though '
  'reading a node for the first time decomposes its parents on demand. Every reader gets the complete, correct data of the '
  'node it asked for, none fails, and the tree ends up as after the same reads in sequence.',
  ['schedules', 'histories', 'inputs'],
  'every interleaving of 2-4 readers over 1D, 2D and ND trees from empty, partly and fully decomposed starting states',
  'No test touches one tree from two threads.',
  ['pywt/_wavelet_packets.py'],
  [('each subnode is stored complete with its data', 'pywt/_wavelet_packets.py:92'),
   ('a recomputed node equals the one it replaces', 'pywt/_wavelet_packets.py:197')],
  ['node data seen by each reader'], TREE_STATE)
p('C16', 'A process forked in the middle of other calls can use the library at once',
  'If a process forks while its threads are anywhere inside library calls, the child can call any part of the library, with '
  'objects, trees and data sets inherited from the parent, and every call ends and returns what it returns in a process of '
  'its own: nothing the other threads were in the middle of is left locked, half built or half changed for the child. The '
  'calls of the parent are not affected by the child.',
  ['schedules', 'histories', 'crash_points'],
  'every point of every interleaving of 2-4 callers is a possible fork; the child repeats, varies or adds calls, tree reads '
  'and data set reads',
  'No test forks; worker pools that fork (multiprocessing) meet whatever state the other threads left.',
  ['pywt/_multilevel.py', 'pywt/_wavelet_packets.py', 'pywt/data/_readers.py', 'pywt/_functions.py', EXT + '_pywt.pyx'],
  [('no locks are held and no shared module state is changed by a call', 'pywt/_functions.py'),
   ('lazily made state is published complete', 'pywt/data/_readers.py:_load')],
  ['return values in the child and in the parent'])
p('C17', 'A call made in the middle of another call disturbs neither',
  'A library call may be made in the same thread while another one is in progress, from a signal handler, a finalizer or the '
  'conversion method of an array-like argument. Both calls end and each returns exactly what it returns alone, with shared or '
  'separate inputs and wavelets.',
  ['schedules', 'inputs', 'histories'],
  'every line of every call is a point where another call (the same, its look-alike, or any other) may run to completion, '
  'with or without other threads',
  'No test runs one call inside another; per-thread scratch space passes every thread test and still breaks here.',
  ['pywt/_dwt.py', 'pywt/_multidim.py', 'pywt/_multilevel.py', 'pywt/_swt.py', 'pywt/_mra.py', 'pywt/_cwt.py',
   'pywt/_thresholding.py', 'pywt/_functions.py', EXT + '_pywt.pyx', EXT + 'c/'],
  [('all working storage belongs to the call', 'pywt/_multidim.py:dwtn')],
  ['return values of the outer and the inner call'])
p('C18', 'Senseless requests are always refused and leave nothing behind',
  'A request that cannot be meant - unknown wavelets, modes, methods or orders, axes that do not exist, repeat or do not match '
  'in number, shapes or containers of coefficients that do not fit together, impossible levels, scales or lengths - is refused '
  'with the documented kind of exception. This holds whatever calls came before, run in other threads, surround it or fail: '
  'it is never answered with a value, a crash or a hang, changes nothing, and calls after it are not affected.',
  ['histories', 'schedules', 'inputs'],
  'every history and interleaving of valid calls with refused ones: over 250 kinds of senseless requests, and valid calls of '
  'any kind with one argument spoilt, next to the valid call they imitate, with memory failures, interrupts and re-entry',
  'Tests try a refusal once, in a fresh state, for under half of the checks in the code; none tries a spoilt twin of a call '
  'that was just answered, in another thread, or under a failing allocation.',
  ['pywt/_dwt.py', 'pywt/_multidim.py', 'pywt/_multilevel.py', 'pywt/_swt.py', 'pywt/_mra.py', 'pywt/_cwt.py', 'pywt/_utils.py',
   'pywt/_thresholding.py', 'pywt/_functions.py', 'pywt/_wavelet_packets.py', EXT + '_pywt.pyx', EXT + '_dwt.pyx', EXT + '_swt.pyx'],
  [('arguments are checked on every call before anything is changed', 'pywt/_utils.py'),
   ('names are looked up exactly', EXT + '_pywt.pyx:wname_to_code')],
  ['exceptions of every call', 'later return values'])
N = 'pure-function numerics: one call, no shared state, schedule, fault or history in the statement'
n = [
    ('N01', 'Inverse transforms undo forward transforms', 'Reconstructing from the unmodified coefficients of any transform returns the input up to rounding (and up to the documented extra sample).', ['pywt/_multilevel.py', 'pywt/_swt.py', EXT + 'c/convolution.template.c']),
    ('N02', 'Boundary modes mean what the documentation says', 'Each signal extension mode gives the coefficients of the explicitly extended signal.', [EXT + 'c/convolution.template.c', 'pywt/_dwt.py']),
    ('N03', 'Transforms are linear', 'Every DWT, SWT and CWT of a linear combination is the same combination of the transforms, complex inputs included.', [EXT + 'c/convolution.template.c']),
    ('N04', 'Predicted lengths and levels equal actual ones', 'The length and maximum-level helpers agree with the sizes the transforms really produce for every size, filter and mode.', [EXT + 'c/common.c', 'pywt/_dwt.py']),
    ('N05', 'N-dimensional transforms equal repeated one-dimensional ones', 'A multidimensional transform over any axes equals one-dimensional transforms applied axis by axis.', ['pywt/_multidim.py']),
    ('N06', 'Packing coefficients into one array and back is lossless', 'Converting coefficients to an array or vector and back returns the same coefficients for every layout.', ['pywt/_multilevel.py']),
    ('N07', 'The stationary transform is shift invariant and, normalised, keeps energy', 'Rotating the input rotates the coefficients; trimmed and normalised coefficients keep the energy.', ['pywt/_swt.py', EXT + '_swt.pyx']),
    ('N08', 'The two CWT methods agree', 'The convolution and FFT methods of the continuous transform agree up to rounding for every scale and wavelet.', ['pywt/_cwt.py']),
    ('N09', 'Built-in filter banks satisfy their orthogonality relations', 'All built-in discrete filter banks satisfy the (bi)orthogonality and vanishing-moment relations of their family.', [EXT + 'c/wavelets_coeffs.template.h']),
    ('N10', 'Output precision follows input precision', 'Single-precision input gives single-precision output, complex stays complex, everything else is double.', [EXT + '_pywt.pyx', 'pywt/_dwt.py']),
]
for id, t, s, f in n:
    p(id, t, s, ['inputs'], 'all inputs of the functions concerned',
      'Tests sample some wavelets, modes and sizes; the input space is unbounded.', f, [('arithmetic of the kernels', f[0])])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for d in D:
            fh.write(json.dumps(d) + '\n')
