/*
 * simrt -- the deterministic simulation runtime.
 *
 * Real threads, one baton.  Every thread of the process under test is a real pthread, but at most
 * one of them runs at any time: the one that holds the baton.  Whoever holds it gives it up only at
 * a scheduling point (an instrumented memory access, an atomic operation, a futex call, a yield, a
 * sleep, a thread start or end, an allocation), and a seeded generator decides whether it does and
 * who gets it next.  Time, entropy, futexes, stdout and the simulated files are answered from here.
 *
 * One seed is one execution.  All choices that differ from the default ("keep running", "lowest
 * runnable thread", "no fault") are logged as (step, thread) and (kind, index, argument) and can be
 * played back from that log alone.
 *
 * This file is compiled without instrumentation.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#include "simrt.h"

#define MAXT 1024
#define FORCED (1ll << 32)
#define MAXLOG SIM_MAXLOG
#define MAXFD 1024

/* ------------------------------------------------------------------ raw system calls */

static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

static void park_wait(int *w)
{
    while (!__atomic_load_n(w, __ATOMIC_ACQUIRE))
        raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}

static void park_wake(int *w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

/* ------------------------------------------------------------------ state */

enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };

typedef struct {
    int state;
    int go;                 /* real futex word this thread is parked on */
    uint32_t *addr;         /* virtual futex */
    uint32_t bitset;
    int64_t deadline;       /* virtual ns, -1 = none */
    uint64_t arrival;
    int wake_reason;        /* 0 woken, 1 timed out, 2 spurious */
    int join_target;
    int prio;
    int yielded;
    pthread_t handle;
    void *(*fn)(void *);
    void *arg;
    int tls_rounds;
} thr_t;

static thr_t T[MAXT];
static int nthreads;
static __thread int self_id = -1;
static int cur;
static int active;          /* simulation running */
static int paused;          /* >0: no preemption, no faults (harness bookkeeping) */

static sim_cfg cfg;
static sim_shared own_shared, *shp = &own_shared;
#define st (shp->stats)

static int64_t now_ns;      /* virtual monotonic clock */
static int64_t wall_off;
static int64_t leapt;       /* part of now_ns that injected leaps of the clock put there */
static uint64_t arrivals;

static int64_t countdown;   /* until the next preemption decision (plain accesses) */
static uint64_t rng_sched, rng_fault[SIM_NFAULT], rng_misc, host_seed;

#define log_sw (shp->sw)
#define nlog_sw (shp->nsw)
#define log_f (shp->flt)
#define nlog_f (shp->nflt)
static const sim_switch *rep_sw; static int nrep_sw, irep_sw;
static const sim_faultrec *rep_f; static int nrep_f;
static uint64_t fault_idx[SIM_NFAULT];
static uint64_t arm_skip[SIM_NFAULT], arm_n[SIM_NFAULT], arm_arg[SIM_NFAULT];
static void (*fatal_cb)(int kind, const char *msg);

static pthread_key_t done_key;
static int key_made;

/* ------------------------------------------------------------------ PRNG */

static uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static uint64_t rnd(uint64_t *s)
{
    *s += 0x9E3779B97F4A7C15ull;
    uint64_t z = *s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static double rnd01(uint64_t *s) { return (double)(rnd(s) >> 11) * (1.0 / 9007199254740992.0); }

/* integer-only geometric-ish gap: uniform in [1, 2*mean-1] keeps the mean and avoids libm */
static int64_t gap(uint64_t *s, double p)
{
    if (p <= 0) return INT64_MAX / 2;
    double mean = 1.0 / p;
    int64_t m = mean > 4e12 ? (int64_t)4e12 : (int64_t)mean;
    if (m < 1) m = 1;
    return 1 + (int64_t)(rnd(s) % (uint64_t)(2 * m - 1));
}

/* ------------------------------------------------------------------ fatal */

static void fatal(int kind, const char *msg)
{
    paused++;
    active = 0;
    if (fatal_cb) fatal_cb(kind, msg);
    raw6(SYS_write, 2, (long)msg, strlen(msg), 0, 0, 0);
    raw6(SYS_exit_group, 70, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

/* ------------------------------------------------------------------ scheduling */

static void ev(uint64_t a)
{
    st.trace_hash = mix(st.trace_hash ^ a);
}

static int runnable(int t) { return T[t].state == T_RUN; }

static int expire_timers(void)
{
    int n = 0;
    for (int t = 0; t < nthreads; t++)
        if ((T[t].state == T_SLEEP || T[t].state == T_FUTEX) && T[t].deadline >= 0 && T[t].deadline <= now_ns) {
            T[t].wake_reason = 1;
            T[t].state = T_RUN;
            n++;
        }
    return n;
}

/* the thread that runs next when nothing else is said: round robin from the current one */
static int default_next(int from)
{
    for (int k = 1; k <= nthreads; k++) {
        int t = (from + k) % nthreads;
        if (runnable(t)) return t;
    }
    return -1;
}

static void record(int64_t to)
{
    if (nlog_sw < MAXLOG) {
        log_sw[nlog_sw].step = st.steps;
        log_sw[nlog_sw].to = to;
        nlog_sw++;
    } else st.log_overflow = 1;
}

static void rep_arm(void)
{
    while (irep_sw < nrep_sw && rep_sw[irep_sw].step < st.steps) irep_sw++;
    if (irep_sw >= nrep_sw) { countdown = INT64_MAX / 2; return; }
    countdown = (int64_t)(rep_sw[irep_sw].step - st.steps);
    if (countdown < 1) countdown = 1;
}

/* the logged choice for a decision of this type at this step, or -1 */
static int rep_take(int forced)
{
    int to = -1;
    while (irep_sw < nrep_sw && rep_sw[irep_sw].step < st.steps) irep_sw++;
    if (irep_sw < nrep_sw && rep_sw[irep_sw].step == st.steps && !!(rep_sw[irep_sw].to & FORCED) == forced) {
        to = (int)(rep_sw[irep_sw].to & (FORCED - 1));
        irep_sw++;
        if (to >= nthreads || !runnable(to)) to = -1;
    }
    rep_arm();
    return to;
}

static int pick_random(int from, int exclude_self)
{
    int c[MAXT], n = 0;
    int spare = -1;
    for (int t = 0; t < nthreads; t++) {
        if (!runnable(t)) continue;
        if (exclude_self && t == from) continue;
        if (cfg.mode == SIM_STALL && t == cfg.victim && st.steps < cfg.stall_until) { spare = t; continue; }
        c[n++] = t;
    }
    if (n == 0) return spare;
    if (cfg.mode == SIM_PCT) {
        int best = -1;
        for (int i = 0; i < n; i++)
            if (best < 0 || T[c[i]].prio > T[best].prio) best = c[i];
        return best;
    }
    return c[rnd(&rng_sched) % (uint64_t)n];
}

static void give(int to)
{
    int me = self_id;
    if (to == me) return;
    st.switches++;
    ev(((uint64_t)to << 48) ^ (uint64_t)st.sync_ops);
    cur = to;
    park_wake(&T[to].go);
    park_wait(&T[me].go);
}

/* current thread cannot (or will not) continue: choose somebody else */
static void must_switch(int allow_self)
{
    int me = self_id;
    for (;;) {
        int def = default_next(me);
        if (def < 0 || (def == me && !allow_self)) {
            /* nobody can run: let time pass */
            int64_t next = -1;
            for (int t = 0; t < nthreads; t++)
                if ((T[t].state == T_SLEEP || T[t].state == T_FUTEX) && T[t].deadline >= 0 &&
                    (next < 0 || T[t].deadline < next))
                    next = T[t].deadline;
            if (next < 0) {
                if (allow_self && runnable(me)) return;
                fatal(SIM_DEADLOCK, "deadlock: every thread is blocked and no timer is pending");
            }
            if (next > now_ns) { now_ns = next; }
            expire_timers();
            if (runnable(me)) return;   /* our own timer */
            continue;
        }
        int to = def;
        if (rep_sw) {
            int w = rep_take(1);
            if (w >= 0) to = w;
        } else if (cfg.mode != SIM_NOPREEMPT) {
            int w = pick_random(me, !allow_self);
            if (w >= 0) to = w;
        }
        if (to != def) record(to | FORCED);
        give(to);
        return;
    }
}

static void set_countdown(void)
{
    if (rep_sw) { rep_arm(); return; }
    switch (cfg.mode) {
    case SIM_RANDOM: case SIM_STALL: countdown = gap(&rng_sched, cfg.p_mem); break;
    case SIM_PCT:    countdown = gap(&rng_sched, cfg.p_mem); break;
    default:         countdown = INT64_MAX / 2;
    }
}

static void preempt_now(void)
{
    int me = self_id;
    if (rep_sw) {
        int to = rep_take(0);
        if (to >= 0 && to != me) { st.preemptions++; give(to); }
        return;
    }
    if (cfg.mode == SIM_NOPREEMPT) { set_countdown(); return; }
    if (cfg.mode == SIM_PCT) {
        /* priority change point: the running thread drops to the bottom */
        T[me].prio = -(int)(++arrivals);
    }
    int to = pick_random(me, 0);
    set_countdown();
    if (to >= 0 && to != me) { record(to); st.preemptions++; give(to); }
}

static void step_cap(void)
{
    fatal(SIM_LIVELOCK, "no progress: the step budget of the run is exhausted");
}

/* called at plain memory accesses */
static inline void point_mem(void)
{
    if (__builtin_expect(!active || paused || self_id < 0, 1)) return;
    st.steps++;
    if (__builtin_expect(st.steps > cfg.max_steps, 0)) step_cap();
    if (__builtin_expect(--countdown <= 0, 0)) preempt_now();
}

/* called at atomics, futex calls and other synchronisation */
static void point_sync(void)
{
    if (!active || paused || self_id < 0) return;
    st.steps++;
    st.sync_ops++;
    if (st.steps > cfg.max_steps) step_cap();
    --countdown;
    if (rep_sw) { if (countdown <= 0) preempt_now(); return; }
    if (countdown <= 0 || (cfg.p_sync > 0 && cfg.mode != SIM_NOPREEMPT && rnd01(&rng_sched) < cfg.p_sync))
        preempt_now();
}

/* ------------------------------------------------------------------ faults */

/* Should the idx-th opportunity for fault `kind` fire?  0 = no, otherwise a non-zero argument. */
uint64_t sim_fault(int kind)
{
    if (!active || paused || self_id < 0) return 0;
    uint64_t idx = fault_idx[kind]++;
    st.fault_opps[kind]++;
    uint64_t arg = 0;
    if (rep_f) {
        for (int i = 0; i < nrep_f; i++)
            if (rep_f[i].kind == kind && rep_f[i].idx == idx) { arg = rep_f[i].arg; break; }
    } else if (arm_n[kind]) {
        if (arm_skip[kind]) arm_skip[kind]--;
        else { arm_n[kind]--; arg = arm_arg[kind] | 1; }
    } else if (cfg.fault_rate[kind] > 0) {
        double u = rnd01(&rng_fault[kind]);
        uint64_t a = rnd(&rng_fault[kind]) | 1;
        if (u < cfg.fault_rate[kind] && st.fault_fired[kind] < cfg.fault_cap[kind]) arg = a;
    }
    if (arg) {
        st.fault_fired[kind]++;
        ev(0xF000000000000000ull ^ ((uint64_t)kind << 32) ^ idx);
        if (nlog_f < SIM_MAXFLT) { log_f[nlog_f].kind = kind; log_f[nlog_f].idx = idx; log_f[nlog_f].arg = arg; nlog_f++; }
    }
    return arg;
}

/* let opportunities skip .. skip+n-1 from now on fire; n = 0 disarms */
void sim_arm(int kind, uint64_t skip, uint64_t n, uint64_t arg) { arm_skip[kind] = skip; arm_n[kind] = n; arm_arg[kind] = arg; }

/* ------------------------------------------------------------------ public control */

static void thread_done(void *p);

/* put statistics and logs into memory the supervisor can read after a crash */
void sim_set_shared(sim_shared *p) { shp = p ? p : &own_shared; }
size_t sim_shared_size(void) { return sizeof(sim_shared); }
void sim_set_fatal(void (*cb)(int, const char *)) { fatal_cb = cb; }

void sim_begin(const sim_cfg *c, const sim_switch *sw, int nsw, const sim_faultrec *f, int nf, int replay)
{
    cfg = *c;
    memset(&st, 0, sizeof st);
    nlog_sw = nlog_f = 0;
    rep_sw = replay ? (sw ? sw : (const sim_switch *)log_sw) : 0; nrep_sw = replay ? nsw : 0; irep_sw = 0;
    rep_f = replay ? (f ? f : (const sim_faultrec *)log_f) : 0; nrep_f = replay ? nf : 0;
    for (int i = 0; i < SIM_NFAULT; i++) { rng_fault[i] = mix(cfg.seed ^ (0x1000 + (uint64_t)i)); fault_idx[i] = 0; }
    rng_sched = mix(cfg.seed ^ 0x5ced);
    rng_misc = mix(cfg.seed ^ 0x415c);
    host_seed = mix(cfg.seed ^ 0x4057);
    now_ns = 1000000000ll + (int64_t)(mix(cfg.seed ^ 0xc10c) % 1000000000ull);
    wall_off = 1700000000ll * 1000000000ll;
    if (!key_made) { pthread_key_create(&done_key, thread_done); key_made = 1; }
    if (self_id < 0) {
        memset(T, 0, sizeof T);
        nthreads = 1;
        self_id = 0;
        T[0].state = T_RUN;
        T[0].deadline = -1;
        T[0].join_target = -1;
        cur = 0;
    }
    st.t0 = now_ns; leapt = 0;
    active = 1;
    paused = 0;
    set_countdown();
}

/* change the schedule policy for the phase that starts now (same run, same step counter) */
void sim_phase(const sim_cfg *c)
{
    if (!rep_sw) {
        cfg.mode = c->mode; cfg.p_mem = c->p_mem; cfg.p_sync = c->p_sync;
        cfg.victim = c->victim; cfg.stall_until = st.steps + c->stall_until;
    }
    memcpy(cfg.fault_rate, c->fault_rate, sizeof cfg.fault_rate);
    memcpy(cfg.fault_cap, c->fault_cap, sizeof cfg.fault_cap);
    for (int i = 0; i < SIM_NFAULT; i++) cfg.fault_cap[i] += st.fault_fired[i];
    set_countdown();
}

void sim_pause(void) { paused++; }
void sim_resume(void) { paused--; }
int  sim_active(void) { return active && !paused; }
int  sim_tid(void) { return self_id; }
void sim_end(void) { active = 0; }
void sim_point(void) { point_sync(); }
uint64_t sim_steps(void) { return st.steps; }
void sim_max_steps(uint64_t more) { cfg.max_steps = st.steps + more; }
void sim_get_stats(sim_stats *o) { st.t1 = now_ns - leapt; st.nthreads = nthreads; *o = st; }
int sim_log_switches(const sim_switch **p) { *p = log_sw; return nlog_sw; }
int sim_log_faults(const sim_faultrec **p) { *p = log_f; return nlog_f; }
int64_t sim_now(void) { return now_ns; }
void sim_advance(int64_t ns) { now_ns += ns; expire_timers(); }
void sim_reseed_entropy(uint64_t s) { rng_misc = mix(s ^ 0x415c); host_seed = mix(s ^ 0x4057); }

/* ------------------------------------------------------------------ threads */

static void thread_done(void *p)
{
    int me = (int)(intptr_t)p - 1;
    if (me < 0 || self_id != me) return;
    if (T[me].tls_rounds++ < 2) { pthread_setspecific(done_key, p); return; }
    T[me].state = T_DONE;
    st.threads_ended++;
    for (int t = 0; t < nthreads; t++)
        if (T[t].state == T_JOIN && T[t].join_target == me) T[t].state = T_RUN;
    if (!active) return;
    /* hand the baton on for good */
    int to = default_next(me);
    while (to < 0) {
        int64_t next = -1;
        for (int t = 0; t < nthreads; t++)
            if ((T[t].state == T_SLEEP || T[t].state == T_FUTEX) && T[t].deadline >= 0 && (next < 0 || T[t].deadline < next))
                next = T[t].deadline;
        if (next < 0) fatal(SIM_DEADLOCK, "deadlock: the last runnable thread ended");
        if (next > now_ns) now_ns = next;
        expire_timers();
        to = default_next(me);
    }
    if (rep_sw) {
        int w = rep_take(1);
        if (w >= 0) to = w;
    } else if (cfg.mode != SIM_NOPREEMPT) {
        int w = pick_random(me, 1);
        if (w >= 0 && w != to) { to = w; record(to | FORCED); }
    }
    cur = to;
    ev(0xD000 ^ (uint64_t)to);
    park_wake(&T[to].go);
}

static void *trampoline(void *p)
{
    int me = (int)(intptr_t)p;
    self_id = me;
    pthread_setspecific(done_key, (void *)(intptr_t)(me + 1));
    park_wait(&T[me].go);
    return T[me].fn(T[me].arg);
}

typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*pj_t)(pthread_t, void **);

int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    static pc_t real;
    if (!real) real = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    if (!active || self_id < 0) return real(th, at, fn, arg);
    if (nthreads >= MAXT) return EAGAIN;
    int id = nthreads++;
    memset(&T[id], 0, sizeof T[id]);
    T[id].fn = fn;
    T[id].arg = arg;
    T[id].deadline = -1;
    T[id].join_target = -1;
    T[id].prio = (int)(rnd(&rng_sched) % 1000000u) + 1;
    T[id].state = T_RUN;
    int r = real(th, at, trampoline, (void *)(intptr_t)id);
    if (r) { T[id].state = T_DONE; return r; }
    T[id].handle = *th;
    st.threads_started++;
    point_sync();
    return 0;
}

int pthread_join(pthread_t th, void **ret)
{
    static pj_t real;
    if (!real) real = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
    if (active && self_id >= 0) {
        for (int t = 0; t < nthreads; t++)
            if (T[t].state != T_FREE && T[t].fn && pthread_equal(T[t].handle, th)) {
                /* a finished thread's handle may be reused: prefer the live one */
                int live = t;
                for (int u = t + 1; u < nthreads; u++)
                    if (T[u].fn && pthread_equal(T[u].handle, th)) live = u;
                point_sync();
                if (T[live].state != T_DONE) {
                    T[self_id].state = T_JOIN;
                    T[self_id].join_target = live;
                    must_switch(0);
                }
                break;
            }
    }
    return real(th, ret);
}

int sched_yield(void)
{
    if (!active || self_id < 0) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    if (paused) return 0;
    st.steps++;
    st.yields++;
    --countdown;
    if (st.steps > cfg.max_steps) step_cap();
    if (cfg.mode == SIM_PCT && !rep_sw) T[self_id].prio = -(int)(++arrivals);
    /* a yield always lets somebody else go first if anybody can */
    int others = 0;
    for (int t = 0; t < nthreads; t++) if (t != self_id && runnable(t)) others++;
    if (others) {
        must_switch(0);
        if (countdown <= 0) set_countdown();
    } else {
        now_ns += 1000;
        expire_timers();
    }
    return 0;
}

/* ------------------------------------------------------------------ futex */

static int64_t ts_ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }

static long futex_sim(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t *addr2, uint32_t val3)
{
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    (void)addr2;
    switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
        point_sync();
        st.futex_waits++;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (sim_fault(SIM_F_SPURIOUS)) { errno = EINTR; return -1; }
        thr_t *me = &T[self_id];
        me->addr = addr;
        me->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
        me->deadline = -1;
        if (to) {
            int64_t t = ts_ns(to);
            if (cmd == FUTEX_WAIT) t += now_ns;
            else if (op & FUTEX_CLOCK_REALTIME) t -= wall_off;
            me->deadline = t;
        }
        me->arrival = ++arrivals;
        me->wake_reason = 0;
        me->state = T_FUTEX;
        must_switch(0);
        me->deadline = -1;
        if (countdown <= 0) set_countdown();
        if (me->wake_reason == 1) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        st.futex_wakes++;
        uint32_t bits = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
        long n = 0;
        while (n < (long)val) {
            int best = -1;
            for (int t = 0; t < nthreads; t++)
                if (T[t].state == T_FUTEX && T[t].addr == addr && (T[t].bitset & bits) &&
                    (best < 0 || T[t].arrival < T[best].arrival))
                    best = t;
            if (best < 0) break;
            T[best].state = T_RUN;
            T[best].wake_reason = 0;
            n++;
        }
        point_sync();
        return n;
    }
    default:
        fatal(SIM_UNSUPPORTED, "futex operation not simulated");
        return -1;
    }
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active && self_id >= 0) {
        if (n == SYS_futex)
            return futex_sim((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
        if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
        if (n == SYS_getpid) return getpid();
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* ------------------------------------------------------------------ time and entropy */

int clock_gettime(clockid_t id, struct timespec *t)
{
    if (!active || self_id < 0) {
        long r = raw6(SYS_clock_gettime, id, (long)t, 0, 0, 0, 0);
        if (r < 0) { errno = (int)-r; return -1; }
        return 0;
    }
    if (!paused) {
        st.clock_reads++;
        int64_t tick = 1 + (int64_t)(rnd(&rng_misc) % 50000), sec = 1000000000ll;
        uint64_t j = sim_fault(SIM_F_CLOCK);    /* odd when a fault fires */
        uint64_t a = j >> 8;
        if (j) {
            switch ((j >> 1) % 8) {
            case 0: tick = 3600 * sec * (int64_t)(1 + a % 100); break;                              /* leaps: hours, */
            case 1: tick = (int64_t)(a % 1000000000ull); break;                                     /* less than a second, */
            case 2: tick = 60 * sec * (int64_t)(1 + a % 100); break;                                /* minutes, */
            case 3: if (now_ns < 2000000000 * sec) tick = 86400 * sec * (int64_t)(1 + a % 700); break; /* days to years */
            case 4: tick = 0; break;                                                                /* a coarse clock stands still */
            case 5: wall_off -= (int64_t)(a % 86400ull) * sec; break;                               /* the wall clock steps back, */
            case 6: wall_off -= (int64_t)(a % 5000ull) * 86400 * sec; if (wall_off < 0) wall_off = 0; break;
            case 7: if (wall_off < 4000000000ll * sec) wall_off += (int64_t)(a % 86400ull * 30) * sec; break; /* or forth */
            }
        }
        now_ns += tick;
        if (tick >= sec) leapt += tick;
        expire_timers();
    }
    int64_t v = now_ns + (id == CLOCK_REALTIME ? wall_off : 0);
    t->tv_sec = v / 1000000000ll;
    t->tv_nsec = v % 1000000000ll;
    return 0;
}

static int sleep_for(int64_t ns)
{
    thr_t *me = &T[self_id];
    if (ns < 0) ns = 0;
    me->deadline = now_ns + ns;
    me->state = T_SLEEP;
    must_switch(0);
    me->deadline = -1;
    me->state = T_RUN;
    return 0;
}

int nanosleep(const struct timespec *req, struct timespec *rem)
{
    if (!active || self_id < 0) {
        long r = raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0);
        if (r < 0) { errno = (int)-r; return -1; }
        return 0;
    }
    point_sync();
    return sleep_for(ts_ns(req));
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem)
{
    if (!active || self_id < 0) return (int)-raw6(SYS_clock_nanosleep, id, flags, (long)req, (long)rem, 0, 0);
    point_sync();
    int64_t t = ts_ns(req);
    if (flags & TIMER_ABSTIME) t -= now_ns + (id == CLOCK_REALTIME ? wall_off : 0);
    return sleep_for(t);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    if (!active || self_id < 0) {
        long r = raw6(SYS_getrandom, (long)buf, (long)n, flags, 0, 0, 0);
        if (r < 0) { errno = (int)-r; return -1; }
        return r;
    }
    st.entropy_reads++;
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(rnd(&rng_misc) >> 24);
    return (ssize_t)n;
}

/* the machine: who we are and how many processors there are say nothing about the work */
pid_t getpid(void)
{
    if (!active || self_id < 0) return (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
    return (pid_t)(300 + host_seed % 30000);
}
static int host_cpus(void) { static const int n[] = { 1, 2, 4, 8, 12, 16, 64, 96 }; return n[(host_seed >> 32) % 8]; }
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *m)
{
    if (!active || self_id < 0) {
        memset(m, 0, size);
        long r = raw6(SYS_sched_getaffinity, pid, (long)size, (long)m, 0, 0, 0);
        if (r < 0) { errno = (int)-r; return -1; }
        return 0;
    }
    memset(m, 0, size);
    for (int i = 0; i < host_cpus() && (size_t)i < size * 8; i++) CPU_SET_S((size_t)i, size, m);
    return 0;
}
extern long __sysconf(int);
long sysconf(int name)
{
    if (active && self_id >= 0 && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return host_cpus();
    return __sysconf(name);
}

/* ------------------------------------------------------------------ stdout and simulated files
 *
 * fd 1 is a simulated sink.  A path is a simulated file when the harness registered it with
 * sim_file; its content is served from memory through a real (empty) descriptor, so that nothing
 * that happens to it can touch the disk. */

static int stdout_mode;             /* 0 pass through, 1 swallow (count), 2 swallow into buffer */
static uint64_t stdout_hash;
static char *outbuf; static size_t outlen, outcap;

void sim_stdout(int mode)
{
    stdout_mode = mode;
    if (mode == 2 && !outbuf) {
        outcap = 64u << 20;
        outbuf = mmap(0, outcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    outlen = 0;
}
size_t sim_stdout_data(const char **p) { *p = outbuf; return outlen; }
void sim_stdout_reset(void) { outlen = 0; }

typedef struct { char path[256]; char *data; size_t len, cap; int writable; } simfile;
static simfile files[16]; static int nfiles;
static struct { int used; int file; size_t pos; } fds[MAXFD];
static int out_fd_track[MAXFD];     /* real files opened for writing whose writes get faults */
static char wr_prefix[256], rd_prefix[256];

int sim_file(const char *path, const char *data, size_t len)
{
    int i;
    for (i = 0; i < nfiles; i++) if (!strcmp(files[i].path, path)) break;
    if (i == nfiles) { if (nfiles >= 16) return -1; nfiles++; snprintf(files[i].path, sizeof files[i].path, "%s", path); }
    if (files[i].data) munmap(files[i].data, files[i].cap);
    files[i].cap = (len + 4096) & ~4095ul;
    files[i].data = mmap(0, files[i].cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memcpy(files[i].data, data, len);
    files[i].len = len;
    return i;
}

/* real files below these prefixes take faults on open/read/write (used for the command line tools) */
void sim_prefixes(const char *rd, const char *wr)
{
    snprintf(rd_prefix, sizeof rd_prefix, "%s", rd ? rd : "");
    snprintf(wr_prefix, sizeof wr_prefix, "%s", wr ? wr : "");
}

static int err_of(uint64_t a, const int *list, int n) { return list[(a >> 1) % (uint64_t)n]; }

ssize_t write(int fd, const void *buf, size_t n)
{
    if (active && self_id >= 0 && ((fd == 1 && stdout_mode) || (fd >= 0 && fd < MAXFD && out_fd_track[fd]))) {
        int k = fd == 1 ? 0 : SIM_F_FW_SHORT - SIM_F_SO_SHORT;
        if (!paused) {
            static const int errs[] = { ENOSPC, EPIPE, EIO, EDQUOT };
            st.io_calls++;
            point_sync();
            if (sim_fault(SIM_F_SO_EINTR + k)) { errno = EINTR; return -1; }
            uint64_t a = sim_fault(SIM_F_SO_ERR + k);
            if (a) { errno = err_of(a, errs, 4); return -1; }
            if (n > 1 && (a = sim_fault(SIM_F_SO_SHORT + k))) n = 1 + (a >> 1) % (n - 1);
        }
        if (fd == 1) {
            for (size_t i = 0; i < n && i < 64; i++) stdout_hash = stdout_hash * 31 + ((const unsigned char *)buf)[i];
            st.stdout_bytes += n;
            if (stdout_mode == 2) {
                size_t c = n; if (outlen + c > outcap) c = outcap - outlen;
                memcpy(outbuf + outlen, buf, c); outlen += c;
                return (ssize_t)n;
            }
            if (stdout_mode == 1) return (ssize_t)n;
        }
    }
    long r = raw6(SYS_write, fd, (long)buf, (long)n, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}

ssize_t read(int fd, void *buf, size_t n)
{
    if (active && self_id >= 0 && fd >= 0 && fd < MAXFD && fds[fd].used) {
        if (!paused) {
            static const int errs[] = { EIO, ENOMEM, ESTALE, EISDIR };
            st.io_calls++;
            point_sync();
            if (sim_fault(SIM_F_RD_EINTR)) { errno = EINTR; return -1; }
            uint64_t a = sim_fault(SIM_F_RD_ERR);
            if (a) { errno = err_of(a, errs, 4); return -1; }
            if (n > 1 && (a = sim_fault(SIM_F_RD_SHORT))) n = 1 + (a >> 1) % (n < 64 ? n - 1 : 63);
        }
        if (fds[fd].file >= 0) {
            simfile *f = &files[fds[fd].file];
            size_t left = f->len - fds[fd].pos;
            if (n > left) n = left;
            memcpy(buf, f->data + fds[fd].pos, n);
            fds[fd].pos += n;
            return (ssize_t)n;
        }
    }
    long r = raw6(SYS_read, fd, (long)buf, (long)n, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}

static int do_open(const char *path, int flags, int mode)
{
    int file = -1, track_r = 0, track_w = 0;
    if (active && self_id >= 0) {
        for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].path, path)) file = i;
        if (rd_prefix[0] && !strncmp(path, rd_prefix, strlen(rd_prefix))) track_r = 1;
        if (wr_prefix[0] && !strncmp(path, wr_prefix, strlen(wr_prefix)) && (flags & (O_WRONLY | O_RDWR))) track_w = 1;
        if ((file >= 0 || track_r || track_w) && !paused) {
            static const int errs[] = { ENOENT, EACCES, EMFILE, EIO, ENOSPC };
            st.io_calls++;
            point_sync();
            if (sim_fault(SIM_F_OPEN_EINTR)) { errno = EINTR; return -1; }
            uint64_t a = sim_fault(SIM_F_OPEN_ERR);
            if (a) { errno = err_of(a, errs, 5); return -1; }
        }
        if (file >= 0) path = "/dev/null", flags = O_RDONLY | O_CLOEXEC;
    }
    long r = raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    if (r < MAXFD) {
        fds[r].used = file >= 0 || track_r;
        fds[r].file = file;
        fds[r].pos = 0;
        out_fd_track[r] = track_w;
    }
    return (int)r;
}

int open64(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return do_open(path, flags, mode);
}
int open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return do_open(path, flags, mode);
}
int close(int fd)
{
    if (fd >= 0 && fd < MAXFD) { fds[fd].used = 0; out_fd_track[fd] = 0; }
    long r = raw6(SYS_close, fd, 0, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}

/* ------------------------------------------------------------------ the simulated heap
 *
 * A deterministic allocator: small blocks come from size-class free lists inside one reserved
 * arena, with canaries on both sides; large or over-aligned blocks get their own mapping, ending
 * flush against an inaccessible page.  Contents of fresh memory, of freed memory and the address a
 * growing block moves to are the simulator's choice. */

#define ARENA_BASE ((char *)0x200000000000ull)
#define ARENA_SIZE (8ull << 30)
#define NCLASS 40
#define CANARY 0xC5
#define HDR_MAGIC 0x5AFEB10Cu

typedef struct hdr {
    uint32_t magic;
    uint32_t cls;           /* class, or 0xFFFF for a large block */
    uint64_t size;
    uint64_t id;
    uint32_t tag;
    uint32_t live;
    char *base;             /* large: start of the mapping */
    uint64_t maplen;
    struct hdr *next, *prev;/* list of live blocks / free list */
    uint64_t pad[3];
} hdr; /* 96 bytes */

#define HDRSZ 96
#define RZ 32

static char *arena_p, *arena_end;
#define LIVE_CAP (1500ull << 20)
static uint64_t live_bytes;
static hdr *free_list[NCLASS];
static hdr live_head;
static uint64_t alloc_ids;
static int heap_mode;       /* 0: plain malloc, 1: simulated */
static uint64_t rng_heap;
static unsigned heap_poison;
static int heap_scatter;
static __thread uint32_t cur_tag;
static uint64_t tag_live[8], tag_bytes[8];
static int quarantine;      /* freed blocks are reused only after this many frees */
#define QMAX 64
static hdr *quar[QMAX]; static int qn, qi;
static char heap_err[256];

int sim_heap_on(uint64_t seed)
{
    if (!arena_p) {
        char *p = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != ARENA_BASE) return -1;
        arena_p = p; arena_end = p + ARENA_SIZE;
        live_head.next = live_head.prev = &live_head;
    }
    rng_heap = mix(seed ^ 0x8ea9);
    heap_poison = (unsigned)(rnd(&rng_heap) & 0xff);
    quarantine = (int)(rnd(&rng_heap) % 3) * 16;
    heap_scatter = (int)(rnd(&rng_heap) >> 40) & 1;
    heap_mode = 1;
    return 0;
}
void sim_heap_reseed(uint64_t seed)
{
    rng_heap = mix(seed ^ 0x8ea9);
    heap_poison = (unsigned)(rnd(&rng_heap) & 0xff);
    heap_scatter = (int)(rnd(&rng_heap) >> 40) & 1;
}
uint32_t sim_tag(uint32_t t) { uint32_t o = cur_tag; cur_tag = t; return o; }
uint64_t sim_tag_live(uint32_t t) { return tag_live[t]; }
uint64_t sim_tag_bytes(uint32_t t) { return tag_bytes[t]; }
const char *sim_heap_error(void) { return heap_err[0] ? heap_err : 0; }

static void heap_bad(const char *what, hdr *h)
{
    if (!heap_err[0])
        snprintf(heap_err, sizeof heap_err, "%s (block of %lu bytes, tag %u)", what, (unsigned long)h->size, h->tag);
}

static void fill(void *p, size_t n, int fresh)
{
    /* varied contents: zeros, ones, pattern, noise */
    if (n > 65536 && fresh == 2) return;
    switch (heap_poison & 3) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, (int)(heap_poison | 1), n); break;
    default: {
        uint64_t x = mix(heap_poison);
        unsigned char *c = p;
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { memcpy(c + i, &x, 8); x = x * 6364136223846793005ull + 1442695040888963407ull; }
        for (; i < n; i++) c[i] = (unsigned char)(x >> (8 * (i & 7)));
    } }
}

static int cls_of(size_t n, size_t *sz)
{
    size_t s = 32; int c = 0;
    while (s < n) { s = (c & 1) ? s / 3 * 4 : s / 2 * 3; c++; }
    *sz = s;
    return c;
}
/* classes: 32, 48, 64, 96, 128, ... */

static void link_live(hdr *h) { h->next = live_head.next; h->prev = &live_head; live_head.next->prev = h; live_head.next = h; }
static void unlink_live(hdr *h) { h->prev->next = h->next; h->next->prev = h->prev; }

static size_t user_off(hdr *h) { (void)h; return HDRSZ + RZ; }

static void canaries(hdr *h)
{
    char *u = (char *)h + user_off(h);
    if (h->cls != 0xFFFF) {
        size_t sz; cls_of(h->size, &sz);
        memset(u - RZ, CANARY, RZ);
        memset(u + h->size, CANARY, sz - h->size + RZ);
    }
}

static void check_block(hdr *h)
{
    if (h->magic != HDR_MAGIC) { heap_bad("heap header overwritten", h); return; }
    unsigned char *u = (unsigned char *)h + user_off(h);
    if (h->cls != 0xFFFF) {
        size_t sz; cls_of(h->size, &sz);
        for (int i = 0; i < RZ; i++) if (u[-1 - i] != CANARY) { heap_bad("write before the start of a heap block", h); return; }
        for (size_t i = h->size; i < sz + RZ; i++) if (u[i] != CANARY) { heap_bad("write past the end of a heap block", h); return; }
    }
}

void sim_heap_check(void)
{
    if (!heap_mode) return;
    for (hdr *h = live_head.next; h != &live_head; h = h->next) check_block(h);
}

static void *heap_alloc(size_t n, size_t align, int zero)
{
    hdr *h;
    if (n == 0) n = 1;
    if (n > LIVE_CAP || live_bytes + n > LIVE_CAP) return 0;
    if (align <= 16 && n <= (1u << 16)) {
        size_t sz; int c = cls_of(n, &sz);
        if (free_list[c]) {
            h = free_list[c];
            free_list[c] = h->next;
        } else {
            size_t tot = (HDRSZ + RZ + sz + RZ + 15) & ~15ul;
            /* addresses need not grow with time */
            int many = heap_scatter && sz <= 1024 ? 1 + (int)(rnd(&rng_heap) % 4) : 1, mine = many > 1 ? (int)(rnd(&rng_heap) % (uint64_t)many) : 0;
            if (arena_p + tot * (size_t)many > arena_end) return 0;
            h = (hdr *)(arena_p + tot * (size_t)mine);
            for (int i = 0; i < many; i++) {
                if (i == mine) continue;
                hdr *o = (hdr *)(arena_p + tot * (size_t)i);
                o->live = 0; o->next = free_list[c]; free_list[c] = o;
            }
            arena_p += tot * (size_t)many;
        }
        h->cls = (uint32_t)c;
    } else {
        /* own mapping: [header page ... data][guard], data flush against the guard page */
        size_t pg = 4096;
        size_t datalen = (n + pg - 1) & ~(pg - 1);
        size_t maplen = pg + datalen + pg;
        if (align > pg) return 0;
        if (align < 8) align = 8;
        size_t tail = datalen - n;
        tail &= ~(align - 1);                   /* keep alignment: data starts at page + tail */
        char *m = arena_p;
        m = (char *)(((uintptr_t)m + pg - 1) & ~(pg - 1));
        if (m + maplen > arena_end) return 0;
        /* reuse a freed mapping of the same size if there is one */
        arena_p = m + maplen;
        mprotect(m + pg + datalen, pg, PROT_NONE);
        char *u = m + pg + tail;
        h = (hdr *)(u - HDRSZ - RZ);
        h->cls = 0xFFFF;
        h->base = m;
        h->maplen = maplen;
    }
    h->magic = HDR_MAGIC;
    h->size = n;
    h->id = ++alloc_ids;
    h->tag = cur_tag;
    h->live = 1;
    link_live(h);
    tag_live[h->tag]++;
    tag_bytes[h->tag] += n;
    live_bytes += n;
    st.allocs++;
    canaries(h);
    char *u = (char *)h + user_off(h);
    if (zero) { if (h->cls != 0xFFFF) memset(u, 0, n); }
    else fill(u, n, 1);
    return u;
}

static hdr *hdr_of(void *p)
{
    return (hdr *)((char *)p - HDRSZ - RZ);
}

static void heap_free(void *p)
{
    hdr *h = hdr_of(p);
    if (h->magic != HDR_MAGIC) { heap_bad("free of something that is not a heap block", h); return; }
    if (!h->live) { heap_bad("double free", h); return; }
    check_block(h);
    h->live = 0;
    unlink_live(h);
    tag_live[h->tag]--;
    tag_bytes[h->tag] -= h->size;
    live_bytes -= h->size;
    st.frees++;
    if (h->cls == 0xFFFF) {
        /* unmapped for good: any later access faults */
        h->magic = 0;
        mmap(h->base, h->maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        return;
    }
    fill((char *)h + user_off(h), h->size, 0);
    if (quarantine) {
        hdr *old = qn >= quarantine ? quar[qi % quarantine] : 0;
        quar[qi % quarantine] = h;
        qi++;
        if (qn < quarantine) qn++;
        h = old;
        if (!h) return;
    }
    h->next = free_list[h->cls];
    free_list[h->cls] = h;
}

/* allocations the library promises to survive: its block stores (over-aligned) and its histogram
 * store; and, when asked for, the control block of a context */
static int oom_ctx;
void sim_oom_ctx(int on) { oom_ctx = on; }
static int oom_site(size_t n, size_t align)
{
    return align >= 32 || (align == 8 && n >= 65536) || (oom_ctx && align == 8 && n >= 200);
}

void *sim_alloc(size_t n, size_t align, int zero)
{
    if (!heap_mode) {
        void *p;
        if (align <= 16) return zero ? calloc(1, n ? n : 1) : malloc(n ? n : 1);
        if (posix_memalign(&p, align, n)) return 0;
        if (zero) memset(p, 0, n);
        return p;
    }
    if (active && !paused && self_id >= 0 && cur_tag == 1) {
        if (oom_site(n, align) && sim_fault(SIM_F_OOM)) return 0;
        point_mem();
    }
    return heap_alloc(n, align, zero);
}

void sim_free(void *p, size_t n, size_t align)
{
    (void)n; (void)align;
    if ((char *)p >= ARENA_BASE && (char *)p < ARENA_BASE + ARENA_SIZE) heap_free(p);
    else free(p);
}

void *sim_realloc(void *p, size_t old, size_t align, size_t n)
{
    if (!((char *)p >= ARENA_BASE && (char *)p < ARENA_BASE + ARENA_SIZE)) {
        if (!heap_mode && align <= 16) return realloc(p, n ? n : 1);
        void *q = sim_alloc(n, align, 0);
        if (q) { memcpy(q, p, old < n ? old : n); free(p); }
        return q;
    }
    if (active && !paused && self_id >= 0 && cur_tag == 1 && oom_site(n, align) && sim_fault(SIM_F_OOM)) return 0;
    /* a growing block always moves */
    uint32_t t = cur_tag;
    cur_tag = hdr_of(p)->tag;
    void *q = heap_alloc(n, align, 0);
    cur_tag = t;
    if (!q) return 0;
    memcpy(q, p, old < n ? old : n);
    heap_free(p);
    st.moves++;
    return q;
}

/* ------------------------------------------------------------------ instrumentation hooks */

#define H(name) void name(void *p) { (void)p; point_mem(); }
#define HP(name) void name(void *p, void *q) { (void)p; (void)q; point_mem(); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
H(__tsan_read1) H(__tsan_read2) H(__tsan_read4) H(__tsan_read8) H(__tsan_read16)
H(__tsan_write1) H(__tsan_write2) H(__tsan_write4) H(__tsan_write8) H(__tsan_write16)
H(__tsan_unaligned_read2) H(__tsan_unaligned_read4) H(__tsan_unaligned_read8) H(__tsan_unaligned_read16)
H(__tsan_unaligned_write2) H(__tsan_unaligned_write4) H(__tsan_unaligned_write8) H(__tsan_unaligned_write16)
H(__tsan_volatile_read1) H(__tsan_volatile_read2) H(__tsan_volatile_read4) H(__tsan_volatile_read8) H(__tsan_volatile_read16)
H(__tsan_volatile_write1) H(__tsan_volatile_write2) H(__tsan_volatile_write4) H(__tsan_volatile_write8) H(__tsan_volatile_write16)
H(__tsan_unaligned_volatile_read2) H(__tsan_unaligned_volatile_read4) H(__tsan_unaligned_volatile_read8) H(__tsan_unaligned_volatile_read16)
H(__tsan_unaligned_volatile_write2) H(__tsan_unaligned_volatile_write4) H(__tsan_unaligned_volatile_write8) H(__tsan_unaligned_volatile_write16)
H(__tsan_read_write1) H(__tsan_read_write2) H(__tsan_read_write4) H(__tsan_read_write8) H(__tsan_read_write16)
H(__tsan_unaligned_read_write2) H(__tsan_unaligned_read_write4) H(__tsan_unaligned_read_write8) H(__tsan_unaligned_read_write16)
H(__tsan_vptr_read)
HP(__tsan_vptr_update)
void __tsan_read_range(void *p, long n) { (void)p; (void)n; point_mem(); }
void __tsan_write_range(void *p, long n) { (void)p; (void)n; point_mem(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { point_mem(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { point_mem(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { point_mem(); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int o) { (void)o; point_sync(); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

#define ATOM(N, TY) \
TY __tsan_atomic##N##_load(const TY *p, int o) { (void)o; point_sync(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(TY *p, TY v, int o) { (void)o; point_sync(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_exchange(TY *p, TY v, int o) { (void)o; point_sync(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_add(TY *p, TY v, int o) { (void)o; point_sync(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_sub(TY *p, TY v, int o) { (void)o; point_sync(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_and(TY *p, TY v, int o) { (void)o; point_sync(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_or(TY *p, TY v, int o) { (void)o; point_sync(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_xor(TY *p, TY v, int o) { (void)o; point_sync(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_nand(TY *p, TY v, int o) { (void)o; point_sync(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(TY *p, TY *e, TY v, int o, int f) { (void)o; (void)f; point_sync(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(TY *p, TY *e, TY v, int o, int f) { (void)o; (void)f; point_sync(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_compare_exchange_val(TY *p, TY e, TY v, int o, int f) { (void)o; (void)f; point_sync(); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
