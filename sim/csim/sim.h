// Deterministic simulator core: shared layout between sim.c and the Rust side (src/sim.rs mirrors it).
#pragma once
#include <stdint.h>
#include <stddef.h>

#define MAX_THR 256
#define MAX_DEV 60000
#define MAX_FILES 24
#define FILE_CAP (1u << 19)
#define MSG_CAP (1u << 19)
#define OUT_CAP (1u << 20)
#define STDIN_CAP (1u << 17)
#define JOUR_CAP (1u << 17)

// Deviation kinds. A deviation is keyed by (thread, thread-local step).
enum {
    D_SWITCH = 1,   // arg = target thread
    D_WAKEPICK = 2, // arg = index of waiter woken
    D_STALL = 3,    // arg = microseconds the thread is stalled
    // faults
    F_R_EINTR = 10, F_R_SHORT = 11, F_R_EIO = 12,
    F_W_EINTR = 13, F_W_SHORT = 14, F_W_EIO = 15, F_W_ENOSPC = 16,
    F_OPEN_FAIL = 17, F_CRASH = 18, F_SPURIOUS = 19, F_SPAWN_FAIL = 20,
    F_SLEEP_EINTR = 21, F_CLOCKJUMP = 22, F_CLOSE_EIO = 23, F_HOST = 24, F_CORRUPT = 25,
    F_NET = 26, F_R_EOF = 27,
    NKIND = 32
};

typedef struct { uint32_t tid, kind; uint64_t lstep; uint64_t arg; } Dev;

typedef struct {
    uint64_t seed;          // drives schedule + faults
    uint32_t replay;        // 1: only apply devs[0..ndev)
    uint32_t strategy;      // 0 none, 1 random, 2 pct, 3 sync-points, 4 bursts
    uint64_t mean;          // mean steps between preemptions (random), K for pct
    uint32_t p_sync;        // /65536 switch at a sync point
    uint32_t pct_depth;
    uint64_t max_steps;     // liveness budget
    uint64_t slice;         // fairness slice
    uint64_t step_ns;
    uint64_t epoch_ns_lo;   // realtime base in ns (as signed)
    uint32_t max_faults;
    uint32_t max_switches;
    uint32_t pf[NKIND];     // per-kind probability /65536
    uint64_t disk_cap;      // bytes on simulated disk
    uint64_t rng_seed;      // entropy served by getrandom
    uint64_t crash_io;      // crash at this global io index (0 = never)
    uint32_t stdin_len;
    uint32_t pad;
} Cfg;

typedef struct {
    uint32_t used, exists;
    char name[120];
    uint32_t len;
    uint32_t is_dir;
    uint8_t data[FILE_CAP];
} SFile;

enum { ST_NONE = 0, ST_DONE = 1, ST_DEADLOCK = 2, ST_STEPS = 3, ST_CRASHED = 4, ST_SIMERR = 5 };

typedef struct {
    Cfg cfg;
    uint32_t ndev_in;
    Dev dev_in[MAX_DEV];
    // output
    uint32_t status;
    uint32_t ndev;
    Dev dev[MAX_DEV];
    uint64_t steps, switches, sync_ops, sim_ns, io_ops;
    uint64_t trace_hash;   // hash over every scheduling decision and every interposed call
    uint64_t shape_hash;   // hash over (thread, sync op) order only: the interleaving
    uint32_t nthreads;
    uint32_t fault_count[NKIND];
    uint32_t msg_len; char msg[MSG_CAP];      // verdict text written by the harness
    uint32_t out_len; char out[OUT_CAP];      // captured stdout
    uint32_t err_len; char err[OUT_CAP];      // captured stderr
    uint32_t stdin_pos; char stdin_buf[STDIN_CAP];
    uint64_t disk_used;
    uint64_t live_allocs, full_hits;
    uint32_t dead_n; char dead[4096];         // deadlock report
    uint32_t harness_done;                    // scenario + oracle completed
    uint64_t ctr[32];                         // what the oracle checked
    uint32_t jour_len; char jour[JOUR_CAP];   // journal that survives a simulated crash
    SFile files[MAX_FILES];
} Shm;
