"""Per-property budgets and component statements (used by run.py only)."""
THOROUGH = 40
ASSUME = [
    'CPython 3.12 with the GIL; preemption is explored at Python line (and, in some runs, bytecode) boundaries of pywt and '
    'of the numpy helpers it calls, at every GIL release and acquire, and at every basic block of the C/Cython kernels '
    'while the GIL is released; instructions inside one basic block, and numpy C internals, are atomic to the simulator',
    'the instrumented build differs from the shipped one only in coverage callbacks, optimisation level and wrapped '
    'allocator and GIL symbols',
]
REAL = ['all pywt Python modules', 'all pywt C and Cython extension modules (instrumented build)', 'numpy', 'CPython']
STUB = ['thread scheduler (simulator)', 'malloc/calloc/realloc/free of the pywt extensions (simulated allocator)',
        'numpy array-data allocator (simulated allocator)', 'threading.Lock/RLock (simulator-aware lock)']


def P(runs, real=REAL, stub=STUB, **k):
    return dict(runs=runs, real=real, stub=stub, **k)


PROPS = {
    'C01': P(9000), 'C02': P(5000), 'C03': P(5000), 'C04': P(9000), 'C05': P(1700), 'C06': P(8000),
    'C07': P(9000), 'C08': P(7000), 'C09': P(6500), 'C10': P(13000), 'C11': P(12000), 'C12': P(9000),
    'C13': P(12000), 'C14': P(6000), 'C15': P(4000), 'C16': P(4500), 'C17': P(7500), 'C18': P(7000),
}
