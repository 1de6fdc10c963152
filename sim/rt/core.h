#ifndef SIMCORE_H
#define SIMCORE_H
#include <semaphore.h>
#include <stddef.h>
#include <stdint.h>
#define MAXT 8
#define MAXSW 20000
#define SEEN 8192
enum { K_PY = 0, K_C = 1, K_REL = 2, K_ACQ = 3, K_EXIT = 4, K_BLOCK = 5, K_START = 6, NKIND = 7 };
enum { T_READY = 0, T_BLOCKED = 1, T_DONE = 2 };
enum { A_C = 0, A_NP = 1, NCLS = 2 };
enum { MV_BADFREE = 1, MV_GUARD = 2 };
enum { EX_DEADLOCK = 81, EX_BUDGET = 82, EX_MEM = 83, EX_HARNESS = 84 };
typedef struct { uint64_t point; int from, to, kind; uint64_t loc; } sw_t;
typedef struct {
    sem_t sem;
    int state, atomic;
    int armed;
    int failsticky;
    uint64_t count[NCLS], failat[NCLS], fired[NCLS];
    uint64_t lines, intat, intfired;
    int intkind;
} thr_t;
typedef struct {
    uint64_t rng, points, csteps, pysteps, max_steps, digest, seq, nsw, nrel;
    int n, cur, sched_on, replay, die_fd;
    double mean[2], novel[2], prel;
    uint64_t cd[2];
    uint64_t at[8], pyev;
    int nat, ai;
    uint64_t kindsw[NKIND];
    thr_t th[MAXT];
    sem_t main_sem;
    sw_t sw[MAXSW];
    sw_t *rsw;
    uint64_t nreplay, rp;
    uint64_t seen[SEEN];
    uint64_t live[NCLS], livebytes[NCLS], total[NCLS], freed[NCLS], fired[NCLS];
    uint64_t poison, align;
    int memviol, mem_fatal;
} sim_t;
extern sim_t SIM;
extern __thread int sim_tid;
extern __thread int sim_nogil;
uint64_t sim_mix(uint64_t, uint64_t);
int sim_decide(int kind, uint64_t loc);
void sim_hand_over(int to, int kind, uint64_t loc);
void sim_thread_enter(int tid);
void sim_thread_exit(void);
void sim_block(void);
int sim_nap(void);
void sim_unblock_all(void);
void sim_begin(int n);
void sim_go(void);
void sim_pystep(void);
void *sim_alloc(size_t n, int cls, int zero);
void *sim_realloc(void *p, size_t n, int cls);
void sim_free(void *p, int cls);
int sim_sweep(void);
void sim_die(int code, const char *fmt, uint64_t a, uint64_t b);
#endif
