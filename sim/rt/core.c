/* libsimcore: the part of the simulator that lives below Python.
 *
 * It owns (1) who runs: exactly one managed thread holds the token, and every hand-over is a decision of a
 * seeded PRNG or of a recorded schedule; (2) the allocator seam: every malloc/calloc/realloc/free made by the
 * pywt extension modules (linked with --wrap) and every numpy array buffer (PyDataMem handler) goes through
 * sim_alloc/sim_free, which count, poison, guard, fail on demand and keep a ledger.
 * No real clock, no real randomness, no address-dependent decision is used anywhere.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <math.h>
#include <semaphore.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "core.h"

sim_t SIM;
__thread int sim_tid = -1;
__thread int sim_nogil = 0;

/* ---------------------------------------------------------------- PRNG */
static uint64_t sm64(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t rnd(void) { return sm64(&SIM.rng); }
static double rndf(void) { return (double)(rnd() >> 11) * (1.0 / 9007199254740992.0); }
static uint64_t geom(double mean) {
    /* number of eligible points until the next preemption, >= 1 */
    if (mean <= 1.0) return 1;
    double k = ceil(log(1.0 - rndf()) / log1p(-1.0 / mean));
    return k < 1 ? 1 : k > 1e15 ? (uint64_t)1e15 : (uint64_t)k;
}
uint64_t sim_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

/* ---------------------------------------------------------------- fatal ends of a run */
void sim_die(int code, const char *fmt, uint64_t a, uint64_t b) {
    char buf[256];
    int n = snprintf(buf, sizeof buf, fmt, (unsigned long long)a, (unsigned long long)b);
    if (SIM.die_fd >= 0) { ssize_t r = write(SIM.die_fd, buf, n); (void)r; }
    _exit(code);
}

/* ---------------------------------------------------------------- locations */
typedef struct { uintptr_t lo, hi; int idx; } modrange;
static modrange mods[16];
static int nmods = -1;
static const char *modnames[] = {"/_dwt.", "/_swt.", "/_cwt.", "/_pywt."};
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d) {
    (void)sz; (void)d;
    if (!i->dlpi_name || !strstr(i->dlpi_name, "_extensions")) return 0;
    for (int m = 0; m < 4; m++)
        if (strstr(i->dlpi_name, modnames[m]))
            for (int p = 0; p < i->dlpi_phnum; p++)
                if (i->dlpi_phdr[p].p_type == PT_LOAD && (i->dlpi_phdr[p].p_flags & PF_X) && nmods < 16) {
                    mods[nmods].lo = i->dlpi_addr + i->dlpi_phdr[p].p_vaddr;
                    mods[nmods].hi = mods[nmods].lo + i->dlpi_phdr[p].p_memsz;
                    mods[nmods++].idx = m + 1;
                }
    return 0;
}
uint64_t sim_pcloc(void *pc) {
    if (nmods < 0) { nmods = 0; dl_iterate_phdr(phdr_cb, NULL); }
    uintptr_t a = (uintptr_t)pc;
    for (int i = 0; i < nmods; i++)
        if (a >= mods[i].lo && a < mods[i].hi) return ((uint64_t)mods[i].idx << 32) | (a - mods[i].lo);
    return 0;
}
/* first-visit table, per (thread, location) */
static int first_visit(int tid, uint64_t loc) {
    uint64_t key = sim_mix(loc, tid + 1) | 1;
    for (uint64_t i = 0, h = key; i < 64; i++, h++) {
        uint64_t *s = &SIM.seen[h & (SEEN - 1)];
        if (*s == key) return 0;
        if (!*s) { *s = key; return 1; }
    }
    return 0;
}

/* ---------------------------------------------------------------- scheduler */
static void give(int to) { SIM.cur = to; sem_post(&SIM.th[to].sem); }
static void wait_token(int tid) { while (sem_wait(&SIM.th[tid].sem) != 0) {} }

static int runnable_others(int me, int *out) {
    int n = 0;
    for (int i = 0; i < SIM.n; i++)
        if (i != me && SIM.th[i].state == T_READY) out[n++] = i;
    return n;
}
static int pick(int me) {
    int c[MAXT], n = runnable_others(me, c);
    if (!n) return -1;
    return c[rnd() % n];
}
static void log_switch(int me, int to, int kind, uint64_t loc) {
    SIM.digest = sim_mix(SIM.digest, ((uint64_t)me << 56) ^ ((uint64_t)to << 48) ^ ((uint64_t)kind << 40) ^ loc);
    if (SIM.nsw < MAXSW) {
        sw_t *s = &SIM.sw[SIM.nsw];
        s->point = SIM.points; s->from = me; s->to = to; s->kind = kind; s->loc = loc;
    }
    SIM.nsw++;
    SIM.kindsw[kind]++;
}

/* Called at an eligible yield point by the token holder.  Returns the thread to hand over to, or -1. */
static int decide(int kind, uint64_t loc) {
    int me = sim_tid, to = -1;
    SIM.points++;
    if (SIM.th[me].atomic) return -1;
    if (SIM.replay) {
        while (SIM.rp < SIM.nreplay && SIM.rsw[SIM.rp].point < SIM.points) SIM.rp++;
        if (SIM.rp < SIM.nreplay && SIM.rsw[SIM.rp].point == SIM.points) {
            to = SIM.rsw[SIM.rp].to; SIM.rp++;
            if (to < 0 || to >= SIM.n || to == me || SIM.th[to].state != T_READY) to = -1;
        }
        return to;
    }
    if (kind == K_PY || kind == K_C) {
        int fire = 0;
        if (kind == K_PY && SIM.nat) {
            ++SIM.pyev;
            while (SIM.ai < SIM.nat && SIM.at[SIM.ai] <= SIM.pyev) { SIM.ai++; fire = 1; }
        }
        if (--SIM.cd[kind] == 0) { fire = 1; SIM.cd[kind] = geom(SIM.mean[kind]); }
        if (SIM.novel[kind] > 0 && first_visit(me, sim_mix(loc, kind)) && rndf() < SIM.novel[kind]) fire = 1;
        if (!fire) return -1;
    } else {
        if (rndf() >= SIM.prel) return -1;
    }
    return pick(me);
}
/* GIL must not be held by the caller */
static void hand_over(int to, int kind, uint64_t loc) {
    int me = sim_tid;
    log_switch(me, to, kind, loc);
    give(to);
    wait_token(me);
}
int sim_decide(int kind, uint64_t loc) { return decide(kind, loc); }
void sim_hand_over(int to, int kind, uint64_t loc) { hand_over(to, kind, loc); }

void sim_thread_enter(int tid) { /* GIL not held */
    sim_tid = tid;
    sem_post(&SIM.main_sem);      /* arrived */
    wait_token(tid);
}
void sim_thread_exit(void) {      /* GIL not held */
    int me = sim_tid;
    SIM.th[me].state = T_DONE;
    sim_tid = -1;
    int c[MAXT], n = runnable_others(me, c), to;
    if (n == 0) {
        for (int i = 0; i < SIM.n; i++)
            if (SIM.th[i].state == T_BLOCKED) sim_die(EX_DEADLOCK, "deadlock: thread %llu blocked forever", i, 0);
        sem_post(&SIM.main_sem);
        return;
    }
    SIM.points++;
    to = -1;
    if (SIM.replay) {
        while (SIM.rp < SIM.nreplay && SIM.rsw[SIM.rp].point < SIM.points) SIM.rp++;
        if (SIM.rp < SIM.nreplay && SIM.rsw[SIM.rp].point == SIM.points) { to = SIM.rsw[SIM.rp].to; SIM.rp++; }
        int ok = 0;
        for (int i = 0; i < n; i++) ok |= c[i] == to;
        if (!ok) to = c[0];
    } else to = c[rnd() % n];
    log_switch(me, to, K_EXIT, 0);
    give(to);
}
/* blocked on a simulated lock: somebody else must run.  GIL not held. */
void sim_block(void) {
    int me = sim_tid;
    SIM.th[me].state = T_BLOCKED;
    SIM.points++;
    int c[MAXT], n = runnable_others(me, c), to = -1;
    if (n == 0) sim_die(EX_DEADLOCK, "deadlock: every thread is blocked (last: thread %llu)", me, 0);
    if (SIM.replay) {
        while (SIM.rp < SIM.nreplay && SIM.rsw[SIM.rp].point < SIM.points) SIM.rp++;
        if (SIM.rp < SIM.nreplay && SIM.rsw[SIM.rp].point == SIM.points) { to = SIM.rsw[SIM.rp].to; SIM.rp++; }
        int ok = 0;
        for (int i = 0; i < n; i++) ok |= c[i] == to;
        if (!ok) to = c[0];
    } else to = c[rnd() % n];
    hand_over(to, K_BLOCK, 0);
}
int sim_nap(void) {
    int me = sim_tid;
    SIM.points++;
    sim_pystep();
    int c[MAXT], n = runnable_others(me, c), to = -1;
    if (n == 0) return 0;
    if (SIM.replay) {
        while (SIM.rp < SIM.nreplay && SIM.rsw[SIM.rp].point < SIM.points) SIM.rp++;
        if (SIM.rp < SIM.nreplay && SIM.rsw[SIM.rp].point == SIM.points) { to = SIM.rsw[SIM.rp].to; SIM.rp++; }
        int ok = 0;
        for (int i = 0; i < n; i++) ok |= c[i] == to;
        if (!ok) to = c[0];
    } else to = c[rnd() % n];
    hand_over(to, K_BLOCK, 1);
    return 1;
}
void sim_unblock_all(void) {
    for (int i = 0; i < SIM.n; i++)
        if (SIM.th[i].state == T_BLOCKED) SIM.th[i].state = T_READY;
}
void sim_begin(int n) {
    SIM.n = n; SIM.nsw = 0; SIM.points = 0; SIM.csteps = 0; SIM.pysteps = 0; SIM.rp = 0; SIM.pyev = 0; SIM.ai = 0;
    for (int i = 0; i < n; i++) {
        sem_init(&SIM.th[i].sem, 0, 0);
        SIM.th[i].state = T_READY; SIM.th[i].atomic = 0;
    }
    sem_init(&SIM.main_sem, 0, 0);
    memset(SIM.seen, 0, sizeof SIM.seen);
    for (int k = 0; k < 2; k++) SIM.cd[k] = geom(SIM.mean[k]);
}
void sim_go(void) { /* main thread, GIL not held */
    for (int i = 0; i < SIM.n; i++) while (sem_wait(&SIM.main_sem) != 0) {}
    int first;
    SIM.points++;
    if (SIM.replay) {
        first = 0;
        if (SIM.nreplay && SIM.rsw[0].point == SIM.points) { first = SIM.rsw[0].to; SIM.rp = 1; }
        if (first < 0 || first >= SIM.n) first = 0;
    } else first = rnd() % SIM.n;
    log_switch(15, first, K_START, 0);
    give(first);
    while (sem_wait(&SIM.main_sem) != 0) {}
}

/* ---------------------------------------------------------------- instrumentation callbacks */
static void budget(void) {
    sim_die(EX_BUDGET, "no progress: step budget exceeded after %llu steps (limit %llu)", SIM.csteps + SIM.pysteps,
            SIM.max_steps);
}
void __sanitizer_cov_trace_pc(void) {
    if (sim_tid < 0) return;
    if (++SIM.csteps > SIM.max_steps) budget();
    if (!sim_nogil || !SIM.sched_on) return;
    if (SIM.n < 2) { SIM.points++; return; }
    uint64_t loc = 0;
    if (SIM.novel[K_C] > 0 && !SIM.replay) loc = sim_pcloc(__builtin_return_address(0));
    int to = decide(K_C, loc);
    if (to >= 0) {
        if (!loc) loc = sim_pcloc(__builtin_return_address(0));
        hand_over(to, K_C, loc);
    }
}
void sim_pystep(void) { if (++SIM.pysteps > SIM.max_steps) budget(); }

static void *(*p_save)(void);
static void (*p_restore)(void *);
void *__wrap_PyEval_SaveThread(void) {
    if (!p_save) p_save = (void *(*)(void))dlsym(RTLD_DEFAULT, "PyEval_SaveThread");
    void *ts = p_save();
    sim_nogil++;
    if (sim_tid >= 0 && SIM.sched_on) {
        SIM.nrel++;
        int to = decide(K_REL, 0);
        if (to >= 0) hand_over(to, K_REL, sim_pcloc(__builtin_return_address(0)));
    }
    return ts;
}
void __wrap_PyEval_RestoreThread(void *ts) {
    if (!p_restore) p_restore = (void (*)(void *))dlsym(RTLD_DEFAULT, "PyEval_RestoreThread");
    if (sim_tid >= 0 && SIM.sched_on) {
        int to = decide(K_ACQ, 0);
        if (to >= 0) hand_over(to, K_ACQ, sim_pcloc(__builtin_return_address(0)));
    }
    sim_nogil--;
    p_restore(ts);
}

/* ---------------------------------------------------------------- allocator seam */
#define GUARD 64
typedef struct blk {
    struct blk *next, *prev;
    void *base;            /* what the real allocator returned */
    size_t size;
    uint64_t seq, pat;
    uint32_t magic;
    int cls;
} blk;
#define MAGIC 0x51A110C8u
static blk head = {&head, &head, 0, 0, 0, 0, 0, 0};

static unsigned char guard_byte(uint64_t pat, uint64_t seq, size_t i) {
    switch (pat) {
    case 0: return 0x00;
    case 1: return 0xFF;                         /* NaN in every float type */
    case 2: return (unsigned char)(0x3F + (i & 1)); /* plausible finite floats */
    default: return (unsigned char)((seq * 131 + i * 29 + pat) & 0xFF);
    }
}
static void fill(unsigned char *p, size_t n, uint64_t seq) {
    for (size_t i = 0; i < n; i++) p[i] = guard_byte(SIM.poison, seq, i);
}
static int guards_ok(blk *b, unsigned char *u) {
    for (size_t i = 0; i < GUARD; i++)
        if (u[-(ptrdiff_t)GUARD + (ptrdiff_t)i] != guard_byte(b->pat, b->seq, i)) return 0;
    for (size_t i = 0; i < GUARD; i++)
        if (u[b->size + i] != guard_byte(b->pat, b->seq, i)) return 0;
    return 1;
}
static unsigned char *user_of(blk *b) { return (unsigned char *)(b + 1) + GUARD; }
static blk *blk_of(void *p) { return (blk *)((unsigned char *)p - GUARD) - 1; }

/* live-pointer set, so that a foreign or repeated free is recognised without touching its memory */
#define LIVESZ (1u << 16)
static void *liveset[LIVESZ];
static uint32_t lh(void *p) { return (uint32_t)(((uintptr_t)p >> 4) * 2654435761u) & (LIVESZ - 1); }
static void live_add(void *p) {
    for (uint32_t h = lh(p), i = 0; i < LIVESZ; i++, h = (h + 1) & (LIVESZ - 1))
        if (!liveset[h] || liveset[h] == (void *)1) { liveset[h] = p; return; }
    sim_die(EX_HARNESS, "live set full%llu%llu", 0, 0);
}
static int live_del(void *p) {
    for (uint32_t h = lh(p), i = 0; i < LIVESZ; i++, h = (h + 1) & (LIVESZ - 1)) {
        if (!liveset[h]) return 0;
        if (liveset[h] == p) { liveset[h] = (void *)1; return 1; }
    }
    return 0;
}
static void memerr(int code) {
    if (!SIM.memviol) SIM.memviol = code;
    if (SIM.mem_fatal) sim_die(EX_MEM, "memory violation %llu at allocation event %llu", code, SIM.seq);
}

void *sim_alloc(size_t n, int cls, int zero) {
    SIM.seq++;
    if (sim_tid >= 0) {
        thr_t *t = &SIM.th[sim_tid];
        if (t->armed) {
            t->count[cls]++;
            int hit = 0;
            if (t->failat[cls] && t->count[cls] == t->failat[cls]) hit = 1;
            if (t->failat[cls] && t->failsticky && t->count[cls] > t->failat[cls]) hit = 1;
            if (hit) {
                t->fired[cls]++; SIM.fired[cls]++;
                SIM.digest = sim_mix(SIM.digest, 0xFA11 + cls + ((uint64_t)t->count[cls] << 8));
                errno = ENOMEM;
                return NULL;
            }
        }
    }
    size_t off = SIM.align ? 16 * (sim_mix(SIM.seq, SIM.align) % 4) : 0;
    if (n > ((size_t)1 << 40)) { errno = ENOMEM; return NULL; }
    unsigned char *base = malloc(sizeof(blk) + 2 * GUARD + n + off + 16);
    if (!base) return NULL;
    blk *b = (blk *)(base + off);
    b->base = base; b->size = n; b->seq = SIM.seq; b->pat = SIM.poison; b->magic = MAGIC; b->cls = cls;
    b->next = head.next; b->prev = &head; head.next->prev = b; head.next = b;
    unsigned char *u = user_of(b);
    fill(u - GUARD, GUARD, b->seq);
    fill(u + n, GUARD, b->seq);
    if (zero) memset(u, 0, n); else fill(u, n, b->seq);
    live_add(u);
    SIM.live[cls]++; SIM.livebytes[cls] += n; SIM.total[cls]++;
    return u;
}
void sim_free(void *p, int cls) {
    if (!p) return;
    SIM.seq++;
    if (!live_del(p)) { memerr(MV_BADFREE); return; }
    blk *b = blk_of(p);
    if (b->magic != MAGIC) { memerr(MV_GUARD); return; }
    if (b->cls != cls) memerr(MV_BADFREE);
    if (!guards_ok(b, p)) memerr(MV_GUARD);
    b->prev->next = b->next; b->next->prev = b->prev;
    SIM.live[b->cls]--; SIM.livebytes[b->cls] -= b->size; SIM.freed[b->cls]++;
    b->magic = 0;
    memset(p, 0xDD, b->size);
    free(b->base);
}
void *sim_realloc(void *p, size_t n, int cls) {
    if (!p) return sim_alloc(n, cls, 0);
    void *q = sim_alloc(n, cls, 0);
    if (!q) return NULL;
    size_t o = blk_of(p)->size;
    memcpy(q, p, o < n ? o : n);
    sim_free(p, cls);
    return q;
}
/* sweep the guards of every live block */
int sim_sweep(void) {
    for (blk *b = head.next; b != &head; b = b->next)
        if (b->magic != MAGIC || !guards_ok(b, user_of(b))) { memerr(MV_GUARD); return 1; }
    return 0;
}

void *__wrap_malloc(size_t n) { return sim_alloc(n, A_C, 0); }
void *__wrap_calloc(size_t a, size_t b) {
    if (b && a > ((size_t)-1) / b) { errno = ENOMEM; return NULL; }
    return sim_alloc(a * b, A_C, 1);
}
void *__wrap_realloc(void *p, size_t n) { return sim_realloc(p, n, A_C); }
void __wrap_free(void *p) { sim_free(p, A_C); }
