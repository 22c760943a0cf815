#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>

/* fault kinds (keep in step with src/rt.rs) */
enum {
    SIM_F_SPURIOUS, SIM_F_CLOCK, SIM_F_OOM,
    SIM_F_SO_SHORT, SIM_F_SO_EINTR, SIM_F_SO_ERR,
    SIM_F_FW_SHORT, SIM_F_FW_EINTR, SIM_F_FW_ERR,
    SIM_F_RD_SHORT, SIM_F_RD_EINTR, SIM_F_RD_ERR,
    SIM_F_OPEN_EINTR, SIM_F_OPEN_ERR,
    SIM_F_USER0, SIM_F_USER1, SIM_F_USER2, SIM_F_USER3, SIM_F_USER4, SIM_F_USER5,
    SIM_NFAULT
};
enum { SIM_NOPREEMPT, SIM_RANDOM, SIM_PCT, SIM_STALL };
enum { SIM_DEADLOCK = 1, SIM_LIVELOCK = 2, SIM_UNSUPPORTED = 3 };

typedef struct {
    uint64_t seed;
    uint64_t max_steps;
    int32_t mode;
    int32_t victim;
    uint64_t stall_until;
    double p_mem, p_sync;
    double fault_rate[SIM_NFAULT];
    uint64_t fault_cap[SIM_NFAULT];
} sim_cfg;

typedef struct { uint64_t step; int64_t to; } sim_switch;
typedef struct { int64_t kind; uint64_t idx; uint64_t arg; } sim_faultrec;

typedef struct {
    uint64_t steps, switches, preemptions, sync_ops, yields;
    uint64_t futex_waits, futex_wakes, threads_started, threads_ended, nthreads;
    uint64_t clock_reads, entropy_reads, io_calls, stdout_bytes;
    uint64_t allocs, frees, moves;
    uint64_t trace_hash, log_overflow;
    int64_t t0, t1;
    uint64_t fault_opps[SIM_NFAULT], fault_fired[SIM_NFAULT];
} sim_stats;

#define SIM_MAXLOG (1 << 17)
#define SIM_MAXFLT (1 << 14)
typedef struct {
    sim_stats stats;
    int32_t nsw, nflt;
    sim_switch sw[SIM_MAXLOG];
    sim_faultrec flt[SIM_MAXFLT];
} sim_shared;

ssize_t getrandom(void *buf, size_t n, unsigned flags);
#endif
