/* simrt: Python face of libsimcore. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include "core.h"

/* ---- code object -> small index, so that a location never is an address */
#define CODES 8192
static struct { PyObject *code; long idx; } codes[CODES];
static long code_idx(PyObject *c) {
    for (uintptr_t i = 0, h = ((uintptr_t)c >> 4) * 2654435761u; i < CODES; i++, h++) {
        if (codes[h % CODES].code == c) return codes[h % CODES].idx;
        if (!codes[h % CODES].code) return -1;
    }
    return -1;
}
static PyObject *register_code(PyObject *m, PyObject *args) {
    PyObject *c; long idx;
    if (!PyArg_ParseTuple(args, "Ol", &c, &idx)) return NULL;
    for (uintptr_t i = 0, h = ((uintptr_t)c >> 4) * 2654435761u; i < CODES; i++, h++)
        if (!codes[h % CODES].code) {
            Py_INCREF(c); codes[h % CODES].code = c; codes[h % CODES].idx = idx; break;
        }
    Py_RETURN_NONE;
}
static PyObject *exc_kinds[4];
static PyObject *nested[MAXT];      /* what a thread runs in the middle of its own call */
static PyObject *set_nested(PyObject *m, PyObject *f) {
    if (sim_tid < 0) { PyErr_SetString(PyExc_RuntimeError, "nested outside the simulation"); return NULL; }
    Py_XINCREF(f); Py_XSETREF(nested[sim_tid], f);
    Py_RETURN_NONE;
}
static PyObject *set_exc(PyObject *m, PyObject *args) {
    int i; PyObject *e;
    if (!PyArg_ParseTuple(args, "iO", &i, &e)) return NULL;
    Py_INCREF(e); Py_XSETREF(exc_kinds[i], e);
    Py_RETURN_NONE;
}
static void switch_py(int to, int kind, uint64_t loc) {
    Py_BEGIN_ALLOW_THREADS
    sim_hand_over(to, kind, loc);
    Py_END_ALLOW_THREADS
}
static uint8_t *nointr[CODES]; static int nointr_len[CODES];
/* lines inside finally/except/with-exit code: an asynchronous interrupt there is out of scope */
static PyObject *set_nointr(PyObject *m, PyObject *args) {
    long idx; Py_buffer b;
    if (!PyArg_ParseTuple(args, "ly*", &idx, &b)) return NULL;
    if (idx >= 0 && idx < CODES) {
        nointr[idx] = malloc(b.len); memcpy(nointr[idx], b.buf, b.len); nointr_len[idx] = (int)b.len;
    }
    PyBuffer_Release(&b);
    Py_RETURN_NONE;
}
static PyObject *on_line(PyObject *m, PyObject *const *args, Py_ssize_t n) {
    if (sim_tid < 0 || n < 2) Py_RETURN_NONE;
    thr_t *t = &SIM.th[sim_tid];
    long idx = code_idx(args[0]);
    long line = PyLong_AsLong(args[1]);
    uint64_t loc = ((uint64_t)(idx + 1) << 20) | (uint64_t)line;
    sim_pystep();
    if (t->armed) {
        t->lines++;
        if (t->intat && t->lines >= t->intat && !t->intfired) {
            int prot = idx >= 0 && nointr[idx] && line < nointr_len[idx] && nointr[idx][line];
            if (!prot) {
                t->intfired = t->lines;
                SIM.digest = sim_mix(SIM.digest, loc ^ 0x1A7);
                if (t->intkind == 4) {          /* a signal handler or finalizer runs here, in the same thread */
                    PyObject *r = nested[sim_tid] ? PyObject_CallNoArgs(nested[sim_tid]) : Py_NewRef(Py_None);
                    if (!r) return NULL;
                    Py_DECREF(r);
                    Py_RETURN_NONE;
                }
                PyErr_SetString(exc_kinds[t->intkind & 3], "injected by the simulator");
                return NULL;
            }
        }
    }
    if (SIM.sched_on && SIM.n > 1) {
        int to = sim_decide(K_PY, loc);
        if (to >= 0) switch_py(to, K_PY, loc);
    }
    Py_RETURN_NONE;
}
static PyObject *on_instr(PyObject *m, PyObject *const *args, Py_ssize_t n) {
    if (sim_tid < 0 || n < 2 || !SIM.sched_on || SIM.n < 2) Py_RETURN_NONE;
    uint64_t loc = ((uint64_t)(code_idx(args[0]) + 1) << 20) | (uint64_t)PyLong_AsLong(args[1]) | (1ull << 52);
    sim_pystep();
    int to = sim_decide(K_PY, loc);
    if (to >= 0) switch_py(to, K_PY, loc);
    Py_RETURN_NONE;
}
/* explicit yield from Python code of the harness (I/O seam, lock seam) */
static PyObject *yield_point(PyObject *m, PyObject *noarg) {
    if (sim_tid >= 0 && SIM.sched_on && SIM.n > 1) {
        int to = sim_decide(K_REL, 0x10);
        if (to >= 0) switch_py(to, K_REL, 0x10);
    }
    Py_RETURN_NONE;
}

static PyObject *begin(PyObject *m, PyObject *args, PyObject *kw) {
    static char *kws[] = {"n", "seed", "mean_py", "mean_c", "novel_py", "novel_c", "prel", "max_steps", "replay", "at", NULL};
    int n; unsigned long long seed, max_steps; PyObject *replay = Py_None, *at = Py_None;
    double mp, mc, np_, nc, prel;
    if (!PyArg_ParseTupleAndKeywords(args, kw, "iKdddddK|OO", kws, &n, &seed, &mp, &mc, &np_, &nc, &prel, &max_steps,
                                     &replay, &at)) return NULL;
    if (n < 1 || n > MAXT) { PyErr_SetString(PyExc_ValueError, "threads"); return NULL; }
    SIM.rng = seed; SIM.mean[0] = mp; SIM.mean[1] = mc; SIM.novel[0] = np_; SIM.novel[1] = nc; SIM.prel = prel;
    SIM.max_steps = max_steps;
    free(SIM.rsw); SIM.rsw = NULL; SIM.nreplay = 0; SIM.replay = 0;
    if (replay != Py_None) {
        Py_ssize_t k = PyList_Size(replay);
        SIM.rsw = calloc(k ? k : 1, sizeof(sw_t)); SIM.nreplay = k; SIM.replay = 1;
        for (Py_ssize_t i = 0; i < k; i++) {
            PyObject *it = PyList_GetItem(replay, i);
            SIM.rsw[i].point = PyLong_AsUnsignedLongLong(PyList_GetItem(it, 0));
            SIM.rsw[i].to = (int)PyLong_AsLong(PyList_GetItem(it, 1));
            if (PyErr_Occurred()) return NULL;
        }
    }
    SIM.nat = 0;
    if (at != Py_None)
        for (Py_ssize_t i = 0; i < PyList_Size(at) && i < 8; i++) {
            SIM.at[SIM.nat++] = PyLong_AsUnsignedLongLong(PyList_GetItem(at, i));
            if (PyErr_Occurred()) return NULL;
        }
    sim_begin(n);
    SIM.sched_on = 1;
    Py_RETURN_NONE;
}
static PyObject *go(PyObject *m, PyObject *a) {
    Py_BEGIN_ALLOW_THREADS
    sim_go();
    Py_END_ALLOW_THREADS
    SIM.sched_on = 0;
    Py_RETURN_NONE;
}
static PyObject *enter(PyObject *m, PyObject *args) {
    int tid;
    if (!PyArg_ParseTuple(args, "i", &tid)) return NULL;
    Py_BEGIN_ALLOW_THREADS
    sim_thread_enter(tid);
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}
static PyObject *leave(PyObject *m, PyObject *a) {
    Py_BEGIN_ALLOW_THREADS
    sim_thread_exit();
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}
static PyObject *block(PyObject *m, PyObject *a) {
    if (sim_tid < 0 || !SIM.sched_on) { PyErr_SetString(PyExc_RuntimeError, "deadlock: lock held and nobody else runs"); return NULL; }
    Py_BEGIN_ALLOW_THREADS
    sim_block();
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}
/* waiting with a time limit: let somebody else run if anybody can; false when nobody is left to wait for */
static PyObject *nap(PyObject *m, PyObject *a) {
    int r = 0;
    if (sim_tid >= 0 && SIM.sched_on) {
        Py_BEGIN_ALLOW_THREADS
        r = sim_nap();
        Py_END_ALLOW_THREADS
    }
    return PyBool_FromLong(r);
}
static PyObject *burn(PyObject *m, PyObject *n) {
    SIM.pysteps += PyLong_AsUnsignedLongLong(n);
    sim_pystep();
    Py_RETURN_NONE;
}
static PyObject *unblock_all(PyObject *m, PyObject *a) { sim_unblock_all(); Py_RETURN_NONE; }
static PyObject *tid(PyObject *m, PyObject *a) { return PyLong_FromLong(sim_tid); }
/* run the caller as managed thread 0 without a scheduler (single-threaded histories) */
static PyObject *solo(PyObject *m, PyObject *args) {
    int on; unsigned long long max_steps = 0;
    if (!PyArg_ParseTuple(args, "i|K", &on, &max_steps)) return NULL;
    if (on) { SIM.n = 1; SIM.csteps = SIM.pysteps = 0; SIM.max_steps = max_steps; SIM.sched_on = 0; sim_tid = 0; }
    else sim_tid = -1;
    Py_RETURN_NONE;
}
static PyObject *arm(PyObject *m, PyObject *args) {
    unsigned long long c = 0, np_ = 0, in = 0; int sticky = 0, kind = 0;
    if (!PyArg_ParseTuple(args, "|KKKii", &c, &np_, &in, &kind, &sticky)) return NULL;
    if (sim_tid < 0) { PyErr_SetString(PyExc_RuntimeError, "arm outside the simulation"); return NULL; }
    thr_t *t = &SIM.th[sim_tid];
    memset(t->count, 0, sizeof t->count); memset(t->fired, 0, sizeof t->fired);
    t->lines = 0; t->intfired = 0;
    t->failat[A_C] = c; t->failat[A_NP] = np_; t->intat = in; t->intkind = kind; t->failsticky = sticky;
    t->armed = 1;
    Py_RETURN_NONE;
}
static PyObject *disarm(PyObject *m, PyObject *a) {
    if (sim_tid < 0) Py_RETURN_NONE;
    thr_t *t = &SIM.th[sim_tid];
    t->armed = 0; t->failat[0] = t->failat[1] = 0; t->intat = 0;
    return Py_BuildValue("(KKKKKK)", (unsigned long long)t->count[0], (unsigned long long)t->count[1],
                         (unsigned long long)t->lines, (unsigned long long)t->fired[0],
                         (unsigned long long)t->fired[1], (unsigned long long)t->intfired);
}
static PyObject *memcfg(PyObject *m, PyObject *args) {
    unsigned long long poison, align; int fatal = 0;
    if (!PyArg_ParseTuple(args, "KK|i", &poison, &align, &fatal)) return NULL;
    SIM.poison = poison; SIM.align = align; SIM.mem_fatal = fatal;
    Py_RETURN_NONE;
}
static PyObject *mem(PyObject *m, PyObject *a) {
    return Py_BuildValue("(KKKKKKi)", (unsigned long long)SIM.live[0], (unsigned long long)SIM.livebytes[0],
                         (unsigned long long)SIM.total[0], (unsigned long long)SIM.live[1],
                         (unsigned long long)SIM.livebytes[1], (unsigned long long)SIM.total[1], SIM.memviol);
}
static PyObject *sweep(PyObject *m, PyObject *a) { sim_sweep(); return PyLong_FromLong(SIM.memviol); }
static PyObject *clear_memviol(PyObject *m, PyObject *a) { SIM.memviol = 0; Py_RETURN_NONE; }
static PyObject *note(PyObject *m, PyObject *args) {
    unsigned long long v;
    if (!PyArg_ParseTuple(args, "K", &v)) return NULL;
    SIM.digest = sim_mix(SIM.digest, v);
    Py_RETURN_NONE;
}
static PyObject *report(PyObject *m, PyObject *a) {
    Py_ssize_t k = SIM.nsw < MAXSW ? (Py_ssize_t)SIM.nsw : MAXSW;
    PyObject *l = PyList_New(k);
    for (Py_ssize_t i = 0; i < k; i++)
        PyList_SET_ITEM(l, i, Py_BuildValue("[KiiiK]", (unsigned long long)SIM.sw[i].point, SIM.sw[i].to, SIM.sw[i].from,
                                            SIM.sw[i].kind, (unsigned long long)SIM.sw[i].loc));
    return Py_BuildValue("{s:N,s:K,s:K,s:K,s:K,s:K,s:K,s:[KKKK]}", "switches", l, "points",
                         (unsigned long long)SIM.points, "csteps", (unsigned long long)SIM.csteps, "pysteps",
                         (unsigned long long)SIM.pysteps, "digest", (unsigned long long)SIM.digest, "nsw",
                         (unsigned long long)SIM.nsw, "nrel", (unsigned long long)SIM.nrel, "kinds",
                         (unsigned long long)SIM.kindsw[0], (unsigned long long)SIM.kindsw[1],
                         (unsigned long long)SIM.kindsw[2], (unsigned long long)SIM.kindsw[3]);
}
static PyObject *die_fd(PyObject *m, PyObject *args) {
    if (!PyArg_ParseTuple(args, "i", &SIM.die_fd)) return NULL;
    Py_RETURN_NONE;
}

/* ---- numpy data allocator */
static void *h_malloc(void *ctx, size_t n) { return sim_alloc(n, A_NP, 0); }
static void *h_calloc(void *ctx, size_t a, size_t b) { return sim_alloc(a * b, A_NP, 1); }
static void *h_realloc(void *ctx, void *p, size_t n) { return sim_realloc(p, n, A_NP); }
static void h_free(void *ctx, void *p, size_t n) { sim_free(p, A_NP); }
static PyDataMem_Handler handler = {"simrt", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};
static PyObject *handler_cap;
static PyObject *default_cap;
static PyObject *npmem(PyObject *m, PyObject *args) {
    int on;
    if (!PyArg_ParseTuple(args, "i", &on)) return NULL;
    if (!handler_cap) handler_cap = PyCapsule_New(&handler, "mem_handler", NULL);
    PyObject *old = PyDataMem_SetHandler(on ? handler_cap : default_cap);
    if (!old) return NULL;
    if (!default_cap && on) default_cap = old; else Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyMethodDef methods[] = {
    {"register_code", register_code, METH_VARARGS, 0}, {"set_exc", set_exc, METH_VARARGS, 0},
    {"set_nointr", set_nointr, METH_VARARGS, 0}, {"set_nested", set_nested, METH_O, 0},
    {"on_line", (PyCFunction)(void *)on_line, METH_FASTCALL, 0},
    {"on_instr", (PyCFunction)(void *)on_instr, METH_FASTCALL, 0},
    {"yield_point", yield_point, METH_NOARGS, 0},
    {"begin", (PyCFunction)(void *)begin, METH_VARARGS | METH_KEYWORDS, 0}, {"go", go, METH_NOARGS, 0},
    {"enter", enter, METH_VARARGS, 0}, {"leave", leave, METH_NOARGS, 0}, {"block", block, METH_NOARGS, 0}, {"nap", nap, METH_NOARGS, 0}, {"burn", burn, METH_O, 0},
    {"unblock_all", unblock_all, METH_NOARGS, 0}, {"tid", tid, METH_NOARGS, 0}, {"solo", solo, METH_VARARGS, 0},
    {"arm", arm, METH_VARARGS, 0}, {"disarm", disarm, METH_NOARGS, 0}, {"memcfg", memcfg, METH_VARARGS, 0},
    {"mem", mem, METH_NOARGS, 0}, {"sweep", sweep, METH_NOARGS, 0}, {"clear_memviol", clear_memviol, METH_NOARGS, 0},
    {"note", note, METH_VARARGS, 0}, {"report", report, METH_NOARGS, 0}, {"die_fd", die_fd, METH_VARARGS, 0},
    {"npmem", npmem, METH_VARARGS, 0}, {NULL}};
static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "simrt", NULL, -1, methods};
PyMODINIT_FUNC PyInit_simrt(void) {
    import_array();
    SIM.die_fd = -1;
    SIM.max_steps = ~0ull;
    return PyModule_Create(&def);
}
