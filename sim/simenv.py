"""The simulated process: loads the instrumented library behind the seams.  Imported by worker.py only."""
import _thread
import ast
import builtins
import errno
import gc
import io
import os
import sys
import time
import types
import warnings

import numpy as np

import simrt

SITE = os.path.dirname(os.path.dirname(os.path.abspath(np.__file__)))
TOOL = 4


# ------------------------------------------------------------------ injected exceptions
class SimInterrupt(KeyboardInterrupt):
    """the asynchronous Ctrl-C of the simulation"""


class SimTimeout(Exception):
    """an asynchronous exception of the kind a timeout decorator raises"""


class SimMemory(MemoryError):
    """the interpreter itself ran out of memory at this line"""


class SimDepth(RecursionError):
    """the caller's stack was nearly used up"""


INJECTED = (SimInterrupt, SimTimeout, SimMemory, SimDepth)


# ------------------------------------------------------------------ locks
_allocate = _thread.allocate_lock


class SimLock:
    """threading.Lock/RLock whose waiting is decided by the simulator"""

    def __init__(self, re=False):
        self._l = _allocate()
        self._re, self._owner, self._n = re, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        while True:
            if self._l.acquire(False):
                self._owner, self._n = me, 1
                return True
            if not blocking:
                return False
            if timeout >= 0:                  # time passes only by others running; out of time when nobody can
                if not simrt.nap():
                    return False
                continue
            simrt.block()

    def release(self):
        if self._re:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()
        simrt.unblock_all()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self.__init__(self._re)


_sleep = time.sleep


def sim_sleep(secs):
    """inside the simulation time passes only by others running"""
    if simrt.tid() < 0:
        return _sleep(secs)
    simrt.burn(100_000)
    simrt.nap()


def patch_locks():
    import threading
    time.sleep = sim_sleep
    threading.Lock = threading._allocate_lock = _thread.allocate_lock = SimLock
    threading.RLock = _thread.RLock = lambda: SimLock(True)


# ------------------------------------------------------------------ file seam (pywt/data only)
class Disk:
    """State of the simulated disk under the package's data directory."""

    def __init__(self):
        self.root = None
        self.on = False
        self.plan = {}
        self.reset()

    def reset(self):
        self.opens = self.reads = 0
        self.fired = []

    def arm(self, plan):
        self.plan = plan or {}
        self.reset()
        self.on = True

    def disarm(self):
        self.on = False
        return {'opens': self.opens, 'reads': self.reads, 'fired': list(self.fired)}


DISK = Disk()
_open = builtins.open


class SimRaw(io.RawIOBase):
    """A raw file on the simulated disk: short reads, EIO, truncation, flipped stored byte."""

    def __init__(self, path, plan):
        with _open(path, 'rb') as f:
            self.data = bytearray(f.read())
        self.fd, self.plan = os.open(path, os.O_RDONLY), plan     # its offset is shared with forked children
        k = plan.get('kind')
        if k == 'trunc':
            self.data = self.data[:int(len(self.data) * plan['frac'])]
            DISK.fired.append('trunc')
        if k == 'flip':
            i = int(len(self.data) * plan['frac'])
            self.data[min(i, len(self.data) - 1)] ^= plan['bit']
            DISK.fired.append('flip')

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def seek(self, off, whence=0):
        return os.lseek(self.fd, max(0, off + (0, self.tell() if whence == 1 else 0, len(self.data))[whence]), 0)

    def close(self):
        if not self.closed:
            os.close(self.fd)
        super().close()

    def readinto(self, b):
        simrt.yield_point()
        DISK.reads += 1
        p = self.plan
        if p.get('kind') == 'eio' and DISK.reads == p['at']:
            DISK.fired.append('eio')
            raise OSError(errno.EIO, 'injected I/O error')
        pos = self.tell()
        n = max(0, min(len(b), len(self.data) - pos))
        if p.get('short') and n > 1:
            DISK.fired.append('short')
            n = max(1, min(n, 1 + (DISK.reads * 7919 + p['short']) % 4096))
        b[:n] = self.data[pos:pos + n]
        os.lseek(self.fd, pos + n, 0)
        return n


def sim_open(file, mode='r', *a, **k):
    if DISK.on and simrt.tid() >= 0 and isinstance(file, (str, os.PathLike)) and DISK.root and \
            os.path.abspath(os.fspath(file)).startswith(DISK.root) and 'r' in mode and '+' not in mode:
        simrt.yield_point()
        DISK.opens += 1
        p = DISK.plan
        if p.get('kind') == 'open' and DISK.opens == p['at']:
            DISK.fired.append('open')
            raise OSError(p['errno'], os.strerror(p['errno']), os.fspath(file))
        raw = SimRaw(os.fspath(file), p)
        if 'b' in mode:
            return io.BufferedReader(raw)
        return io.TextIOWrapper(io.BufferedReader(raw), *a[1:], **{q: v for q, v in k.items() if q != 'buffering'})
    return _open(file, mode, *a, **k)


# ------------------------------------------------------------------ instrumentation of Python code
NUMPY_MODS = ['numpy._core.fromnumeric', 'numpy._core.numeric', 'numpy._core.function_base', 'numpy._core.shape_base',
              'numpy.lib._function_base_impl', 'numpy.lib._arraypad_impl', 'numpy.fft._pocketfft',
              'numpy.lib._shape_base_impl', 'numpy.lib._twodim_base_impl']
CODES = []


def all_code(obj, seen):
    stack = [obj]
    while stack:
        c = stack.pop()
        if id(c) in seen:
            continue
        seen[id(c)] = c
        stack += [x for x in c.co_consts if isinstance(x, types.CodeType)]


def codes_of(modules):
    seen = {}
    for m in modules:
        for v in list(vars(m).values()):
            walk_obj(v, m.__name__, seen, 0)
    return seen


def walk_obj(v, modname, seen, depth):
    if depth > 4:
        return
    v = getattr(v, '__wrapped__', v)
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if isinstance(v, property):
        for f in (v.fget, v.fset, v.fdel):
            if f is not None:
                walk_obj(f, modname, seen, depth + 1)
        return
    if isinstance(v, types.FunctionType):
        if v.__module__ == modname or modname.split('.')[0] == (v.__module__ or '').split('.')[0]:
            all_code(v.__code__, seen)
    elif isinstance(v, type) and v.__module__ == modname:
        for x in list(vars(v).values()):
            walk_obj(x, modname, seen, depth + 1)


def protected_lines(path):
    """lines where an asynchronous exception is out of scope: cleanup code (finally/except/with headers)"""
    out = set()
    try:
        with _open(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            for part in [n.finalbody] + [h.body for h in n.handlers]:
                for s in part:
                    out.update(range(s.lineno, (s.end_lineno or s.lineno) + 1))
            out.update(h.lineno for h in n.handlers)
            if n.finalbody:
                # entering the try from the line before is not protected by it either
                out.add(n.lineno)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            out.add(n.lineno)
            for it in n.items:
                out.update(range(it.context_expr.lineno, (it.context_expr.end_lineno or 0) + 1))
    return out


def instrument():
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'simrt')
    mods = [m for k, m in sorted(sys.modules.items()) if (k == 'pywt' or k.startswith('pywt.')) and
            isinstance(m, types.ModuleType)]
    mods += [sys.modules[k] for k in NUMPY_MODS if k in sys.modules]
    cs = sorted(codes_of(mods).values(), key=lambda c: (rel(c.co_filename), c.co_qualname, c.co_firstlineno))
    prot = {}
    for i, c in enumerate(cs):
        if len(cs) > 8000:
            raise SystemExit('HARNESS-ERROR: too many code objects')
        simrt.register_code(c, i)
        CODES.append(c)
        f = c.co_filename
        if f not in prot:
            p = protected_lines(f)
            isnp = 'pywt' not in rel(f)
            prot[f] = bytes(1 if (k in p or isnp) else 0 for k in range(max(p, default=0) + 2)) if not isnp else \
                b'\1' * 6000
        if prot[f].count(1):
            simrt.set_nointr(i, prot[f])
    mon.register_callback(TOOL, mon.events.LINE, simrt.on_line)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, simrt.on_instr)
    events(False)


def rel(f):
    for mark in ('/pywt/', '/numpy/'):
        i = f.rfind(mark)
        if i >= 0:
            return f[i + 1:]
    return f


def events(instr, lines=True):
    mon = sys.monitoring
    ev = (mon.events.LINE if lines else 0) | (mon.events.INSTRUCTION if instr else 0)
    for c in CODES:
        mon.set_local_events(TOOL, c, ev)


def locname(loc):
    """human description of a recorded location"""
    loc = int(loc)
    if loc >> 52 & 1:
        c = CODES[((loc & ~(1 << 52)) >> 20) - 1]
        return '%s:%s+%d' % (rel(c.co_filename), c.co_qualname, loc & 0xFFFFF)
    if loc >> 20 and loc >> 32 == 0:
        c = CODES[(loc >> 20) - 1]
        return '%s:%d %s' % (rel(c.co_filename), loc & 0xFFFFF, c.co_qualname)
    if loc >> 32:
        return 'C:%s+0x%x' % (('?', '_dwt', '_swt', '_cwt', '_pywt')[min(loc >> 32, 4)], loc & 0xFFFFFFFF)
    return 'sync'


# ------------------------------------------------------------------ scheduled threads
def run_threads(fns, sched, lines=0):
    """run every fn in its own simulated thread; returns the scheduler's report.  Exceptions of fns are the harness's."""
    n = len(fns)
    errs = [None] * n
    kw = {k: v for k, v in sched.items() if k not in ('instr',)}
    simrt.begin(n, kw['seed'], kw['mean_py'], kw['mean_c'], kw['novel_py'], kw['novel_c'], kw['prel'],
                kw['max_steps'], kw.get('replay'),
                [1 + int(f * lines) for f in sorted(kw['at'])] if kw.get('at') and lines else None)

    def body(i):
        simrt.npmem(1)
        simrt.enter(i)
        try:
            fns[i]()
        except BaseException as e:   # noqa: B902  (harness bug: reported by the caller)
            errs[i] = e
        finally:
            simrt.leave()
    for i in range(n):
        _thread.start_new_thread(body, (i,))
    simrt.go()
    rep = simrt.report()
    for e in errs:
        if e is not None:
            raise e
    return rep


def setup():
    """Everything that happens once per zygote, before any fork."""
    gc.disable()
    warnings.simplefilter('ignore')
    patch_locks()
    import pywt
    import pywt._multidim  # noqa: F401
    for i, e in enumerate(INJECTED):
        simrt.set_exc(i, e)
    builtins.open = sim_open
    io.open = sim_open
    DISK.root = os.path.join(os.path.dirname(os.path.abspath(pywt.__file__)), 'data') + os.sep
    # pull in lazily imported helpers, so that no simulated thread ever waits on the import machinery
    import copy, pickle, importlib.resources, zipfile, contextlib  # noqa: F401, E401
    import numpy.lib.npyio  # noqa: F401
    import importlib.resources._common, importlib.readers, tempfile  # noqa: F401, E401
    import numpy.fft, numpy.random  # noqa: F401, E401
    warm()
    instrument()
    return pywt


def warm():
    """Touch numpy's and the standard library's own lazy initialisation, never pywt's."""
    a = np.ones((4, 4))
    np.pad(a, 1)
    np.fft.ifft(np.fft.fft(a))
    np.convolve(a[0], a[1])
    np.linspace(0, 1, 4)
    np.concatenate([a, a])
    np.roll(a, 1)
    np.unique(a)
    np.power(a, 2), np.sinc(a), np.result_type(a, 1.0)
    try:
        np.empty((1 << 40,), dtype='V1000')
    except (MemoryError, ValueError):
        pass
    b = io.BytesIO()
    np.savez_compressed(b, data=np.arange(9))
    b.seek(0)
    with np.load(b) as z:
        z['data']
    b.seek(3)
    try:
        np.load(io.BytesIO(b'PK\x03\x04' + bytes(30)))
    except Exception:
        pass
    import importlib.resources as ir
    import encodings.idna  # noqa: F401
    try:
        with ir.as_file(ir.files('json').joinpath('__init__.py')) as p:
            p.exists()
    except Exception:
        pass
    import pickle
    pickle.loads(pickle.dumps(a))
    str(a), repr(a), repr(a.dtype)
    with np.errstate(all='ignore'):
        pass
