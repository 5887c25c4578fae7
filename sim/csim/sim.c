// Deterministic simulator core.
//
// Every thread of the process under test is a real pthread, but exactly one of them runs at a time:
// the token is handed over at scheduling points only (each basic block of the instrumented crates, each
// interposed libc call). Compiled without instrumentation and linked into the harness executable, so that
// the symbols defined below take precedence over libc's for the statically linked Rust code.
#define _GNU_SOURCE
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>

typedef struct Thr {
    int id;
    int state; // 0 free 1 runnable 2 futex 3 join 4 sleep 5 finished
    pthread_t real;
    uint32_t gate;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    uint64_t steps;
    uint64_t slice_start;
    uint64_t wake;      // sim ns, 0 = none
    uint32_t *faddr;
    uint32_t fmask;
    int timed_out;
    int join_on;
    int reaped;
    uint64_t wait_seq;
    int64_t last_rt;    // wall clock value last given to this thread
    int64_t prio;
    uint32_t *dq; uint32_t dqn, dqi; // indices of input deviations for this thread
} Thr;

enum { RUN = 1, FUT = 2, JOIN = 3, SLEEPING = 4, FIN = 5 };

Shm *sim_shm;
static Thr T[MAX_THR];
static int nthr;
static Thr *cur;
static int active;       // simulation running
static int leaving;      // a finished thread is running its TLS destructors
static Thr *reap;
static int64_t countdown = INT64_MAX, budget = INT64_MAX;
static uint64_t gsteps, clock_extra, real_skew, io_ops, waitseq;
static uint64_t rs;      // schedule prng
static uint64_t es;      // entropy prng
static uint32_t nfaults, nswitch;
static uint64_t pct_points[64]; static uint32_t pct_n, pct_i; static int64_t pct_low;
static uint64_t th, sh;  // hashes
static uint64_t burst_end, burst_next;
static __thread int in_thread;  // 1 = a simulated thread
static int exploring;    // preemption + faults enabled (the interesting region of the run)
static uint64_t ebase;   // gsteps when exploring was switched on

uint8_t *sim_cov; uint32_t sim_ncov;

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define FAKE 0x5100000000ull
static inline long fix(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static uint64_t rnd(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

static void die(const char *m) {
    if (sim_shm) { sim_shm->status = ST_SIMERR; strncpy(sim_shm->dead, m, 4000); }
    raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}

static uint64_t now_ns(void) { return 1000000000ull + gsteps * sim_shm->cfg.step_ns + clock_extra; }

static void flush_steps(void) {
    int64_t el = budget - countdown;
    if (el > 0) { cur->steps += el; gsteps += el; }
    budget = countdown;
}

static void stop(uint32_t st) {
    if (sim_shm->status == ST_NONE) sim_shm->status = st;
    sim_shm->steps = gsteps; sim_shm->switches = nswitch; sim_shm->sim_ns = now_ns() - 1000000000ull;
    sim_shm->trace_hash = th; sim_shm->shape_hash = sh; sim_shm->nthreads = nthr; sim_shm->io_ops = io_ops;
}

static void report_threads(void) {
    static const char *nm[] = {"free", "runnable", "blocked-on-futex", "blocked-in-join", "sleeping", "finished"};
    char *p = sim_shm->dead; size_t left = sizeof sim_shm->dead - 1;
    for (int i = 0; i < nthr && left > 80; i++) {
        if (T[i].state == FIN) continue;
        int n = T[i].state == JOIN ? snprintf(p, left, "T%d %s(T%d); ", i, nm[T[i].state], T[i].join_on)
                                   : snprintf(p, left, "T%d %s; ", i, nm[T[i].state]);
        p += n; left -= n;
    }
    sim_shm->dead_n = p - sim_shm->dead;
}

static void end_run(uint32_t st) { flush_steps(); report_threads(); stop(st); raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0); }

static void logdev(uint32_t kind, uint64_t arg) {
    if (kind >= 10) sim_shm->fault_count[kind]++;
    else sim_shm->fault_count[kind]++;
    if (sim_shm->ndev < MAX_DEV) {
        Dev *d = &sim_shm->dev[sim_shm->ndev++];
        d->tid = cur->id; d->kind = kind; d->lstep = cur->steps; d->arg = arg;
    }
    th = mix(th, mix(mix(cur->id, kind), mix(cur->steps, arg)));
}

// Replay lookup: consumes the deviation of this kind at the current (thread, step).
static int take(uint32_t kind, uint64_t *arg) {
    Thr *t = cur;
    while (t->dqi < t->dqn && sim_shm->dev_in[t->dq[t->dqi]].lstep < t->steps) t->dqi++;
    for (uint32_t i = t->dqi; i < t->dqn; i++) {
        Dev *d = &sim_shm->dev_in[t->dq[i]];
        if (d->lstep != t->steps) break;
        if (d->kind == kind) { *arg = d->arg; return 1; }
    }
    return 0;
}

static void expire(void) {
    uint64_t n = now_ns();
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == FUT || T[i].state == SLEEPING) && T[i].wake && T[i].wake <= n) { T[i].timed_out = 1; T[i].state = RUN; T[i].wake = 0; }
}
static uint64_t next_timer(void) {
    uint64_t b = 0;
    for (int i = 0; i < nthr; i++) if ((T[i].state == FUT || T[i].state == SLEEPING) && T[i].wake && (!b || T[i].wake < b)) b = T[i].wake;
    return b;
}
static int nrun(void) { int c = 0; for (int i = 0; i < nthr; i++) c += T[i].state == RUN; return c; }

static uint64_t draw(void) {
    Cfg *c = &sim_shm->cfg;
    if (c->replay || !exploring || nswitch >= c->max_switches) return UINT64_MAX;
    uint64_t m;
    switch (c->strategy) {
    case 1: m = c->mean; break;
    case 4:
        if (gsteps >= burst_next && gsteps >= burst_end) {
            burst_end = gsteps + 1 + rnd(&rs) % (c->mean ? c->mean : 1);
            burst_next = burst_end + rnd(&rs) % (c->mean * 20 + 1);
        }
        if (gsteps < burst_end) m = 6;
        else return burst_next > gsteps ? burst_next - gsteps : 1;
        break;
    default: return UINT64_MAX;
    }
    // uniform on [1, 2m]: cheap and heavy enough around m
    return 1 + rnd(&rs) % (2 * m);
}

static void arm(void) {
    uint64_t n = sim_shm->cfg.slice, r;
    uint64_t used = cur->steps - cur->slice_start;
    n = used >= n ? 1 : n - used;
    if (sim_shm->cfg.replay) {
        Thr *t = cur;
        while (t->dqi < t->dqn && sim_shm->dev_in[t->dq[t->dqi]].lstep <= t->steps) t->dqi++;
        if (t->dqi < t->dqn) { r = sim_shm->dev_in[t->dq[t->dqi]].lstep - t->steps; if (r < n) n = r; }
    } else if (sim_shm->cfg.strategy == 2 && exploring) {
        if (pct_i < pct_n) { r = ebase + pct_points[pct_i] > gsteps ? ebase + pct_points[pct_i] - gsteps : 1; if (r < n) n = r; }
    } else { r = draw(); if (r < n) n = r; }
    uint64_t tm = next_timer();
    if (tm) { uint64_t nn = now_ns(); r = tm > nn ? (tm - nn + sim_shm->cfg.step_ns - 1) / sim_shm->cfg.step_ns : 1; if (r < n) n = r; }
    if (gsteps + n > sim_shm->cfg.max_steps) n = sim_shm->cfg.max_steps > gsteps ? sim_shm->cfg.max_steps - gsteps : 1;
    if (n < 1) n = 1;
    budget = countdown = (int64_t)n;
}

static void gate_wait(Thr *t) {
    while (__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)&t->gate, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->gate, 0, __ATOMIC_RELAXED);
    if (reap) { Thr *r = reap; reap = 0; real_join(r->real, 0); r->reaped = 1; leaving = 0; }
}
static void hand(Thr *n) {
    cur = n; n->slice_start = n->steps; nswitch++;
    arm();
    __atomic_store_n(&n->gate, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&n->gate, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static Thr *rr_next(void) { // round robin successor of cur among runnable, excluding cur
    for (int k = 1; k <= nthr; k++) { Thr *t = &T[(cur->id + k) % nthr]; if (t->state == RUN && t != cur) return t; }
    return 0;
}
static Thr *pct_best(Thr *excl) {
    Thr *b = 0;
    for (int i = 0; i < nthr; i++) if (T[i].state == RUN && &T[i] != excl && (!b || T[i].prio > b->prio)) b = &T[i];
    return b;
}

// The current thread cannot continue (blocked or finished): choose the successor.
static Thr *pick_blocked(void) {
    for (;;) {
        expire();
        if (nrun()) break;
        uint64_t t = next_timer();
        if (!t) { if (getenv("DYONSIM_STOP")) raw6(SYS_kill, raw6(SYS_getpid,0,0,0,0,0,0), 19, 0, 0, 0, 0); end_run(ST_DEADLOCK); }
        uint64_t n = now_ns();
        if (t > n) clock_extra += t - n;
    }
    if (cur->state == RUN) return cur; // its own timer was the next to fire
    Thr *def = rr_next(), *ch = def; uint64_t a;
    Cfg *c = &sim_shm->cfg;
    if (c->replay) { if (take(D_SWITCH, &a) && a < (uint64_t)nthr && T[a].state == RUN) ch = &T[a]; }
    else if (!exploring) {}
    else if (c->strategy == 2) ch = pct_best(0);
    else if (c->strategy) { int k = rnd(&rs) % nrun(); for (int i = 0; i < nthr; i++) if (T[i].state == RUN && k-- == 0) { ch = &T[i]; break; } }
    if (ch != def) logdev(D_SWITCH, ch->id);
    return ch;
}

static void block(void) { // cur->state already set to a blocked state
    Thr *me = cur;
    flush_steps();
    Thr *n = pick_blocked();
    if (n == me) { arm(); return; }
    hand(n);
    gate_wait(me);
}

static void switch_to(Thr *n) { Thr *me = cur; hand(n); gate_wait(me); }

// Slow path of a basic-block step.
static void slow(void) {
    Cfg *c = &sim_shm->cfg;
    flush_steps();
    if (gsteps >= c->max_steps) end_run(ST_STEPS);
    expire();
    Thr *n = 0; uint64_t a;
    int others = nrun() > 1;
    if (c->replay) {
        if (take(D_STALL, &a)) { logdev(D_STALL, a); cur->state = SLEEPING; cur->wake = now_ns() + a * 1000; block(); return; }
        if (take(D_SWITCH, &a) && a < (uint64_t)nthr && T[a].state == RUN && &T[a] != cur) { n = &T[a]; logdev(D_SWITCH, a); }
    } else if (exploring && nswitch < c->max_switches && others) {
        if (c->strategy == 2) {
            while (pct_i < pct_n && gsteps >= ebase + pct_points[pct_i]) { pct_i++; cur->prio = --pct_low; }
            Thr *b = pct_best(0);
            if (b != cur) { n = b; logdev(D_SWITCH, n->id); }
        } else if ((c->strategy == 1 || (c->strategy == 4 && gsteps < burst_end))) {
            if (c->pf[D_STALL] && nfaults < c->max_faults && (rnd(&rs) & 0xffff) < c->pf[D_STALL]) {
                a = 1 + rnd(&rs) % 5000; nfaults++;
                logdev(D_STALL, a); cur->state = SLEEPING; cur->wake = now_ns() + a * 1000; block(); return;
            }
            int k = rnd(&rs) % nrun(); Thr *ch = 0;
            for (int i = 0; i < nthr; i++) if (T[i].state == RUN && k-- == 0) { ch = &T[i]; break; }
            if (ch && ch != cur) { n = ch; logdev(D_SWITCH, n->id); }
        }
    }
    if (!n && cur->steps - cur->slice_start >= c->slice) {
        if (others) { if (c->strategy == 2 && !c->replay) cur->prio = --pct_low; n = rr_next(); th = mix(th, 77 + n->id); }
        else cur->slice_start = cur->steps;
    }
    if (n) switch_to(n); else arm();
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++sim_ncov;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!active) return;
    if (sim_cov) sim_cov[*g] = 1;
    if (leaving) return;
    if (--countdown <= 0) slow();
}

// ---- interposed calls --------------------------------------------------------------------------------
static inline int insim(void) { return active && in_thread && !leaving; }

// A synchronisation / I/O point: counts as one step, may switch.
static void point(uint32_t op) {
    Cfg *c = &sim_shm->cfg;
    countdown--; flush_steps();
    if (countdown <= 0) { countdown = budget = 1; }
    if (gsteps >= c->max_steps) end_run(ST_STEPS);
    sim_shm->sync_ops++;
    th = mix(th, mix(mix(cur->id, op), cur->steps));
    sh = mix(sh, mix(cur->id + 1, op));
}
static void maybe_switch(void) {
    Cfg *c = &sim_shm->cfg; uint64_t a; Thr *n = 0;
    expire();
    if (nrun() < 2 && !(c->replay)) return;
    if (c->replay) { if (take(D_SWITCH, &a) && a < (uint64_t)nthr && T[a].state == RUN && &T[a] != cur) n = &T[a]; }
    else if (!exploring) {}
    else if (c->strategy == 2) { Thr *b = pct_best(0); if (b != cur && nswitch < c->max_switches) n = b; }
    else if (c->strategy && nswitch < c->max_switches && (rnd(&rs) & 0xffff) < c->p_sync) {
        int k = rnd(&rs) % nrun();
        for (int i = 0; i < nthr; i++) if (T[i].state == RUN && k-- == 0) { if (&T[i] != cur) n = &T[i]; break; }
    }
    if (n) { logdev(D_SWITCH, n->id); switch_to(n); }
    else if (c->replay) arm();
}
// Fault decision at the current point.
static int fault(uint32_t kind, uint64_t *arg, uint64_t range) {
    Cfg *c = &sim_shm->cfg;
    if (c->replay) { if (!take(kind, arg)) return 0; logdev(kind, *arg); return 1; }
    if (!exploring || !c->pf[kind] || nfaults >= c->max_faults) return 0;
    if ((rnd(&rs) & 0xffff) >= c->pf[kind]) return 0;
    *arg = range ? rnd(&rs) % range : 0;
    nfaults++; logdev(kind, *arg);
    return 1;
}

static long futex_wait(uint32_t *addr, uint32_t val, uint64_t abs_wake, uint32_t mask) {
    uint64_t a;
    point(1);
    maybe_switch();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    countdown--; flush_steps(); if (countdown <= 0) countdown = budget = 1; // own step for the blocking decision
    if (fault(F_SPURIOUS, &a, 2)) { if (a) { errno = EINTR; return -1; } return 0; }
    cur->state = FUT; cur->faddr = addr; cur->fmask = mask; cur->wake = abs_wake; cur->timed_out = 0; cur->wait_seq = ++waitseq;
    if (abs_wake && abs_wake <= now_ns()) { cur->state = RUN; errno = ETIMEDOUT; return -1; }
    Thr *me = cur;
    block();
    if (me->timed_out) { me->timed_out = 0; errno = ETIMEDOUT; return -1; }
    return 0;
}
static long futex_wake(uint32_t *addr, int n, uint32_t mask) {
    int woken = 0; uint64_t a;
    point(2);
    while (woken < n) {
        Thr *w[MAX_THR]; int k = 0;
        for (int i = 0; i < nthr; i++) if (T[i].state == FUT && T[i].faddr == addr && (T[i].fmask & mask)) w[k++] = &T[i];
        if (!k) break;
        for (int i = 1; i < k; i++) for (int j = i; j > 0 && w[j]->wait_seq < w[j - 1]->wait_seq; j--) { Thr *x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; }
        int ch = 0;
        if (n < k && woken == 0) {
            if (sim_shm->cfg.replay) { if (take(D_WAKEPICK, &a) && a < (uint64_t)k) ch = a; }
            else if (sim_shm->cfg.strategy && exploring) ch = rnd(&rs) % k;
            if (ch) logdev(D_WAKEPICK, ch);
        }
        w[ch]->state = RUN; w[ch]->wake = 0; w[ch]->timed_out = 0;
        woken++;
    }
    maybe_switch();
    return woken;
}

static uint64_t ts_ns(const struct timespec *t) {
    if (t->tv_sec > 9000000000ll) return UINT64_MAX / 4;
    return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
}

static void fill(void *buf, size_t n) {
    uint8_t *p = buf;
    for (size_t i = 0; i < n; i++) { static uint64_t v; if (i % 8 == 0) v = rnd(&es); p[i] = v >> (8 * (i % 8)); }
}

long sim_syscall(long n, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long sim_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (!insim()) return fix(raw6(n, a, b, c, d, e, f));
    if (n == SYS_futex) {
        int op = b & 127;
        flush_steps();
        uint64_t w = 0;
        if (op == FUTEX_WAIT) { if (d) w = now_ns() + ts_ns((void *)d); return futex_wait((void *)a, c, w, ~0u); }
        if (op == FUTEX_WAIT_BITSET) {
            if (d) { w = ts_ns((void *)d); if (b & FUTEX_CLOCK_REALTIME) w = now_ns() + 1000000; if (!w) w = 1; }
            return futex_wait((void *)a, c, w, f);
        }
        if (op == FUTEX_WAKE) return futex_wake((void *)a, c, ~0u);
        if (op == FUTEX_WAKE_BITSET) return futex_wake((void *)a, c, f);
        die("unsupported futex op");
    }
    if (n == SYS_getrandom) { fill((void *)a, b); return b; }
    return fix(raw6(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (!active) { // outside a run: fixed stream, so that pre-warmed state is the same in every process
        static uint64_t s0 = 12345; uint8_t *p = buf; for (size_t i = 0; i < n; i++) p[i] = rnd(&s0); return n;
    }
    fill(buf, n); return n;
}

static void *tramp(void *p) {
    Thr *t = p;
    in_thread = 1;
    gate_wait(t);
    t->ret = t->fn(t->arg);
    // finished: wake joiners, hand over, then run TLS destructors while the successor waits for us.
    countdown--; flush_steps(); if (countdown <= 0) countdown = budget = 1;
    sh = mix(sh, mix(cur->id + 1, 9));
    t->state = FIN;
    for (int i = 0; i < nthr; i++) if (T[i].state == JOIN && T[i].join_on == t->id) T[i].state = RUN;
    Thr *n = pick_blocked();
    leaving = 1; reap = t;
    hand(n);
    return t->ret;
}

int pthread_create(pthread_t *th_, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!insim()) return real_create(th_, at, fn, arg);
    uint64_t a;
    point(3);
    if (fault(F_SPAWN_FAIL, &a, 0)) return EAGAIN;
    if (nthr >= MAX_THR) return EAGAIN;
    Thr *t = &T[nthr];
    uint32_t *dq = t->dq; uint32_t dqn = t->dqn;
    memset(t, 0, sizeof *t); t->dq = dq; t->dqn = dqn;
    t->id = nthr; t->fn = fn; t->arg = arg; t->state = RUN;
    t->prio = 1000 + (int64_t)(rnd(&rs) % 1000000);
    int r = real_create(&t->real, at, tramp, t);
    if (r) die("real pthread_create failed");
    nthr++;
    *th_ = (pthread_t)(FAKE + t->id); // never reused, unlike the real handle of a finished thread
    maybe_switch();
    return 0;
}
static Thr *find(pthread_t p) { uint64_t i = (uint64_t)p - FAKE; return i < (uint64_t)nthr ? &T[i] : 0; }
int pthread_join(pthread_t p, void **ret) {
    if (!insim()) return real_join(p, ret);
    point(4);
    maybe_switch();
    Thr *t = find(p);
    if (!t) return ESRCH;
    countdown--; flush_steps(); if (countdown <= 0) countdown = budget = 1;
    if (t->state != FIN) { cur->state = JOIN; cur->join_on = t->id; block(); }
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!insim()) { if (active) return 0; return real_detach(p); }
    return 0;
}
int sched_yield(void) { if (!insim()) return fix(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0)); point(5);
    Thr *n = 0; uint64_t a;
    if (sim_shm->cfg.replay && take(D_SWITCH, &a) && a < (uint64_t)nthr && T[a].state == RUN && &T[a] != cur) { n = &T[a]; logdev(D_SWITCH, a); }
    if (!n) n = rr_next();
    if (n) switch_to(n); return 0; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!insim()) return fix(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
    uint64_t a;
    point(6);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        if (fault(F_CLOCKJUMP, &a, 1u << 20)) real_skew += ((int64_t)a - (1 << 19)) * 1000000ll; // +-524 s
        int64_t v = (int64_t)sim_shm->cfg.epoch_ns_lo + (int64_t)(now_ns() - 1000000000ull) + (int64_t)real_skew;
        int64_t s = v / 1000000000ll, n = v % 1000000000ll; if (n < 0) { n += 1000000000ll; s--; }
        ts->tv_sec = s; ts->tv_nsec = n; cur->last_rt = v;
    } else { uint64_t v = now_ns(); ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; }
    return 0;
}
static int do_sleep(uint64_t wake, struct timespec *rem) {
    uint64_t a;
    point(7);
    if (fault(F_SLEEP_EINTR, &a, 1000)) {
        uint64_t n = now_ns(), tot = wake > n ? wake - n : 0, part = tot / 1000 * a;
        if (rem) { uint64_t l = tot - part; rem->tv_sec = l / 1000000000ull; rem->tv_nsec = l % 1000000000ull; }
        if (part) { cur->state = SLEEPING; cur->wake = n + part; block(); cur->timed_out = 0; }
        return EINTR;
    }
    if (wake <= now_ns()) { maybe_switch(); return 0; }
    cur->state = SLEEPING; cur->wake = wake;
    Thr *me = cur; block(); me->timed_out = 0;
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    if (!insim()) return -raw6(SYS_clock_nanosleep, id, flags, (long)req, (long)rem, 0, 0);
    flush_steps();
    uint64_t w = (flags & TIMER_ABSTIME) ? ts_ns(req) : now_ns() + ts_ns(req);
    return do_sleep(w, (flags & TIMER_ABSTIME) ? 0 : rem);
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (!insim()) return fix(raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0));
    flush_steps();
    int r = do_sleep(now_ns() + ts_ns(req), rem);
    if (r) { errno = r; return -1; }
    return 0;
}

// ---- simulated file system -----------------------------------------------------------------------------
#define FD0 100000
#define NFD 64
static struct { int used; SFile *f; uint64_t pos; int fl; } FD[NFD];
static int is_sim_path(const char *p) { return p && !strncmp(p, "/sim/", 5); }
static SFile *ffind(const char *p) {
    for (int i = 0; i < MAX_FILES; i++) if (sim_shm->files[i].used && sim_shm->files[i].exists && !strcmp(sim_shm->files[i].name, p)) return &sim_shm->files[i];
    return 0;
}
static SFile *fnew(const char *p) {
    for (int i = 0; i < MAX_FILES; i++) if (!sim_shm->files[i].used) {
        SFile *f = &sim_shm->files[i]; f->used = f->exists = 1; f->len = 0; f->is_dir = 0;
        snprintf(f->name, sizeof f->name, "%s", p); return f; }
    return 0;
}
static void crash_check(void) {
    uint64_t a;
    io_ops++;
    if (sim_shm->cfg.replay) { if (take(F_CRASH, &a)) { logdev(F_CRASH, 0); end_run(ST_CRASHED); } }
    else if (sim_shm->cfg.crash_io && io_ops == sim_shm->cfg.crash_io) { logdev(F_CRASH, 0); end_run(ST_CRASHED); }
}
static int sim_open(const char *p, int fl) {
    uint64_t a; static const int errs[] = {EACCES, EMFILE, ENOENT, EIO, EINTR, ENFILE};
    point(20);
    crash_check();
    if (fault(F_OPEN_FAIL, &a, 6)) { errno = errs[a]; return -1; }
    SFile *f = ffind(p);
    if (f && f->is_dir && (fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if (!f) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
        if (fault(F_W_ENOSPC, &a, 0)) { errno = ENOSPC; return -1; }
        f = fnew(p); if (!f) { errno = ENOSPC; return -1; } }
    else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) { sim_shm->disk_used -= f->len; f->len = 0; }
    for (int i = 0; i < NFD; i++) if (!FD[i].used) { FD[i].used = 1; FD[i].f = f; FD[i].pos = 0; FD[i].fl = fl; maybe_switch(); return FD0 + i; }
    errno = EMFILE; return -1;
}
static long sim_rw(int fd, void *buf, size_t n, int64_t at, int wr) {
    uint64_t a; int i = fd - FD0; SFile *f;
    point(wr ? 22 : 21);
    crash_check();
    if (i >= NFD || !FD[i].used) { errno = EBADF; return -1; }
    f = FD[i].f;
    uint64_t pos = at >= 0 ? (uint64_t)at : FD[i].pos;
    if (f->is_dir) { errno = EISDIR; return -1; }
    if (!wr) {
        if ((FD[i].fl & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
        if (fault(F_R_EINTR, &a, 0)) { errno = EINTR; return -1; }
        if (fault(F_R_EIO, &a, 0)) { errno = EIO; return -1; }
        size_t av = pos < f->len ? f->len - pos : 0; if (n < av) av = n;
        if (av > 1 && fault(F_R_SHORT, &a, av < 4096 ? av : 4096)) av = 1 + a % av;
        memcpy(buf, f->data + pos, av);
        if (at < 0) FD[i].pos += av;
        maybe_switch();
        return av;
    }
    if ((FD[i].fl & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (fault(F_W_EINTR, &a, 0)) { errno = EINTR; return -1; }
    if (fault(F_W_EIO, &a, 0)) { errno = EIO; return -1; }
    if (n && fault(F_W_ENOSPC, &a, 0)) { errno = ENOSPC; return -1; }
    if (FD[i].fl & O_APPEND) pos = f->len;
    if (n > 1 && fault(F_W_SHORT, &a, n < 65536 ? n : 65536)) n = 1 + a % n;
    uint64_t grow = pos + n > f->len ? pos + n - f->len : 0;
    if (sim_shm->disk_used + grow > sim_shm->cfg.disk_cap) {
        uint64_t room = sim_shm->cfg.disk_cap > sim_shm->disk_used ? sim_shm->cfg.disk_cap - sim_shm->disk_used : 0;
        if (grow - (grow < n ? grow : n) == 0 && room == 0) { sim_shm->fault_count[F_W_ENOSPC]++; sim_shm->full_hits++; errno = ENOSPC; return -1; }
        n = n - (grow - room); grow = room;
        if (!n) { sim_shm->fault_count[F_W_ENOSPC]++; sim_shm->full_hits++; errno = ENOSPC; return -1; }
    }
    if (pos + n > FILE_CAP) { errno = EFBIG; return -1; }
    if (pos > f->len) memset(f->data + f->len, 0, pos - f->len);
    memcpy(f->data + pos, buf, n);
    if (pos + n > f->len) f->len = pos + n;
    sim_shm->disk_used += grow;
    if (at < 0) FD[i].pos = pos + n;
    maybe_switch();
    return n;
}
int open64(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    if (insim() && is_sim_path(p)) return sim_open(p, fl);
    return fix(raw6(SYS_openat, AT_FDCWD, (long)p, fl, mode, 0, 0));
}
int open(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    if (insim() && is_sim_path(p)) return sim_open(p, fl);
    return fix(raw6(SYS_openat, AT_FDCWD, (long)p, fl, mode, 0, 0));
}
static void capture(int fd, const void *b, size_t n) {
    char *dst = fd == 1 ? sim_shm->out : sim_shm->err; uint32_t *len = fd == 1 ? &sim_shm->out_len : &sim_shm->err_len;
    size_t room = OUT_CAP - 1 - *len; if (n > room) n = room;
    memcpy(dst + *len, b, n); *len += n;
}
ssize_t read(int fd, void *buf, size_t n) {
    if (insim() && fd >= FD0) return sim_rw(fd, buf, n, -1, 0);
    if (insim() && fd == 0) {
        uint64_t a;
        point(23);
        if (fault(F_R_EINTR, &a, 0)) { errno = EINTR; return -1; }
        if (fault(F_R_EIO, &a, 3)) { static const int errs[] = {EIO, EAGAIN, ENXIO}; errno = errs[a % 3]; return -1; }
        size_t av = sim_shm->cfg.stdin_len - sim_shm->stdin_pos; if (n < av) av = n;
        if (av > 1 && fault(F_R_SHORT, &a, av < 4096 ? av : 4096)) av = 1 + a % av;
        memcpy(buf, sim_shm->stdin_buf + sim_shm->stdin_pos, av); sim_shm->stdin_pos += av;
        maybe_switch();
        return av;
    }
    return fix(raw6(SYS_read, fd, (long)buf, n, 0, 0, 0));
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (insim() && fd >= FD0) return sim_rw(fd, (void *)buf, n, -1, 1);
    if (insim() && fd == 1) {
        uint64_t a;
        point(24);
        crash_check();
        if (fault(F_W_EINTR, &a, 0)) { errno = EINTR; return -1; }
        if (n > 1 && fault(F_W_SHORT, &a, n)) n = 1 + a % n;
        capture(1, buf, n);
        maybe_switch();
        return n;
    }
    if (active && fd == 2) { capture(2, buf, n); return n; }
    return fix(raw6(SYS_write, fd, (long)buf, n, 0, 0, 0));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (insim() && (fd >= FD0 || fd == 0)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return 0; }
    return fix(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (insim() && (fd >= FD0 || fd == 1) ) { for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }
    if (active && fd == 2) { ssize_t t = 0; for (int i = 0; i < c; i++) { capture(2, v[i].iov_base, v[i].iov_len); t += v[i].iov_len; } return t; }
    return fix(raw6(SYS_writev, fd, (long)v, c, 0, 0, 0));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (insim() && fd >= FD0) return sim_rw(fd, b, n, o, 0); return fix(raw6(SYS_pread64, fd, (long)b, n, o, 0, 0)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (insim() && fd >= FD0) return sim_rw(fd, (void *)b, n, o, 1); return fix(raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0)); }
off64_t lseek64(int fd, off64_t o, int w) {
    if (insim() && fd >= FD0) {
        int i = fd - FD0; if (i >= NFD || !FD[i].used) { errno = EBADF; return -1; }
        int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)FD[i].pos : (int64_t)FD[i].f->len;
        if (b + o < 0) { errno = EINVAL; return -1; }
        FD[i].pos = b + o; return FD[i].pos;
    }
    return fix(raw6(SYS_lseek, fd, o, w, 0, 0, 0));
}
int ftruncate64(int fd, off64_t n) {
    if (insim() && fd >= FD0) {
        int i = fd - FD0; if (i >= NFD || !FD[i].used) { errno = EBADF; return -1; }
        point(25); crash_check();
        SFile *f = FD[i].f; if (n > FILE_CAP) { errno = EFBIG; return -1; }
        if (n > f->len) memset(f->data + f->len, 0, n - f->len);
        sim_shm->disk_used += n - f->len; f->len = n; return 0;
    }
    return fix(raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0));
}
int close(int fd) {
    if (insim() && fd >= FD0) {
        uint64_t a;
        point(26); crash_check();
        int i = fd - FD0; if (i >= NFD || !FD[i].used) { errno = EBADF; return -1; }
        FD[i].used = 0;
        if (fault(F_CLOSE_EIO, &a, 0)) { errno = EIO; return -1; }
        maybe_switch();
        return 0;
    }
    return fix(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int do_sync(int fd, long nr) {
    uint64_t a;
    if (insim() && fd >= FD0) { point(27); crash_check(); if (fault(F_W_EIO, &a, 0)) { errno = EIO; return -1; } return 0; }
    return fix(raw6(nr, fd, 0, 0, 0, 0, 0));
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int flock(int fd, int op) { if (insim() && fd >= FD0) return 0; return fix(raw6(SYS_flock, fd, op, 0, 0, 0, 0)); }
static SFile *by_fd_or_path(int fd, const char *p) {
    if (fd >= FD0) { int i = fd - FD0; return i < NFD && FD[i].used ? FD[i].f : 0; }
    return ffind(p);
}
static int path_sim(int dfd, const char *p) { return insim() && (dfd >= FD0 || is_sim_path(p)); }
int statx(int dfd, const char *restrict p, int fl, unsigned mask, struct statx *restrict st) {
    if (path_sim(dfd, p)) {
        point(28);
        SFile *f = by_fd_or_path(dfd, p); if (!f) { errno = ENOENT; return -1; }
        memset(st, 0, sizeof *st); st->stx_mask = STATX_BASIC_STATS; st->stx_mode = f->is_dir ? S_IFDIR | 0755 : S_IFREG | 0644;
        st->stx_size = f->len; st->stx_nlink = 1; st->stx_blksize = 4096; st->stx_blocks = (f->len + 511) / 512;
        return 0;
    }
    return fix(raw6(SYS_statx, dfd, (long)p, fl, mask, (long)st, 0));
}
static int fill64(SFile *f, struct stat64 *st) {
    if (!f) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st); st->st_mode = f->is_dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = f->len; st->st_nlink = 1; st->st_blksize = 4096;
    return 0;
}
int fstat64(int fd, struct stat64 *st) { if (insim() && fd >= FD0) { point(28); return fill64(by_fd_or_path(fd, 0), st); } return fix(raw6(SYS_fstat, fd, (long)st, 0, 0, 0, 0)); }
int stat64(const char *restrict p, struct stat64 *restrict st) { if (path_sim(-1, p)) { point(28); return fill64(ffind(p), st); } return fix(raw6(SYS_stat, (long)p, (long)st, 0, 0, 0, 0)); }
int lstat64(const char *restrict p, struct stat64 *restrict st) { if (path_sim(-1, p)) { point(28); return fill64(ffind(p), st); } return fix(raw6(SYS_lstat, (long)p, (long)st, 0, 0, 0, 0)); }
int access(const char *p, int m) { if (path_sim(-1, p)) { point(28); if (ffind(p)) return 0; errno = ENOENT; return -1; } return fix(raw6(SYS_access, (long)p, m, 0, 0, 0, 0)); }
int unlink(const char *p) {
    if (path_sim(-1, p)) { point(29); crash_check(); SFile *f = ffind(p); if (!f) { errno = ENOENT; return -1; } f->exists = 0; sim_shm->disk_used -= f->len;
        int open_ = 0; for (int i = 0; i < NFD; i++) open_ |= FD[i].used && FD[i].f == f; if (!open_) f->used = 0; return 0; }
    return fix(raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0));
}
int rename(const char *o, const char *n) {
    if (path_sim(-1, o) || path_sim(-1, n)) {
        uint64_t a;
        point(30); crash_check();
        if (fault(F_W_EIO, &a, 0)) { errno = EIO; return -1; }
        SFile *f = ffind(o); if (!f) { errno = ENOENT; return -1; }
        SFile *g = ffind(n); if (g && g != f) { g->exists = 0; sim_shm->disk_used -= g->len; }
        snprintf(f->name, sizeof f->name, "%s", n); return 0;
    }
    return fix(raw6(SYS_rename, (long)o, (long)n, 0, 0, 0, 0));
}
int mkdir(const char *p, mode_t m) { if (path_sim(-1, p)) { point(31); return 0; } return fix(raw6(SYS_mkdir, (long)p, m, 0, 0, 0, 0)); }
int chmod(const char *p, mode_t m) { if (path_sim(-1, p)) return 0; return fix(raw6(SYS_chmod, (long)p, m, 0, 0, 0, 0)); }
int fchmod(int fd, mode_t m) { if (insim() && fd >= FD0) return 0; return fix(raw6(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
int posix_fadvise64(int fd, off64_t o, off64_t l, int a) { if (insim() && fd >= FD0) return 0; return -raw6(SYS_fadvise64, fd, o, l, a, 0, 0); }
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (insim() && fd >= FD0) return 0;
    return fix(raw6(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
}

int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (insim() && fd >= FD0) return 0;
    return fix(raw6(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
}

// ---- API for the harness ---------------------------------------------------------------------------------
void *sim_alloc_shared(size_t n) {
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? 0 : p;
}
size_t sim_shm_size(void) { return sizeof(Shm); }
void sim_init(void) {
    real_create = dlsym(RTLD_NEXT, "pthread_create"); real_join = dlsym(RTLD_NEXT, "pthread_join"); real_detach = dlsym(RTLD_NEXT, "pthread_detach");
}
void sim_set_cov(uint8_t *p) { sim_cov = p; }
uint32_t sim_cov_n(void) { return sim_ncov; }
void sim_clear(Shm *s, int keep_files) {
    // only touch what a previous run dirtied
    s->ndev_in = 0; s->status = 0; s->ndev = 0; s->steps = s->switches = s->sync_ops = s->sim_ns = s->io_ops = 0;
    s->trace_hash = s->shape_hash = 0; s->nthreads = 0; memset(s->fault_count, 0, sizeof s->fault_count);
    s->msg_len = s->out_len = s->err_len = s->stdin_pos = 0; s->dead_n = 0; s->harness_done = 0; s->jour_len = 0; memset(s->ctr, 0, sizeof s->ctr); s->live_allocs = s->full_hits = 0;
    memset(&s->cfg, 0, sizeof s->cfg);
    if (!keep_files) { s->disk_used = 0; for (int i = 0; i < MAX_FILES; i++) { s->files[i].used = s->files[i].exists = 0; s->files[i].len = 0; } }
}
// Called in the forked child: the calling thread becomes T0.
void sim_start(Shm *s) {
    sim_shm = s;
    Cfg *c = &s->cfg;
    memset(T, 0, sizeof T);
    if (s->ndev_in > MAX_DEV) die("too many deviations");
    if (c->replay && s->ndev_in) {
        uint32_t cnt[MAX_THR] = {0};
        for (uint32_t i = 0; i < s->ndev_in; i++) if (s->dev_in[i].tid < MAX_THR) cnt[s->dev_in[i].tid]++;
        for (int t = 0; t < MAX_THR; t++) if (cnt[t]) { T[t].dq = malloc(cnt[t] * sizeof(uint32_t)); }
        for (uint32_t i = 0; i < s->ndev_in; i++) { uint32_t t = s->dev_in[i].tid; if (t < MAX_THR) T[t].dq[T[t].dqn++] = i; }
    }
    rs = c->seed * 0x9e3779b97f4a7c15ull + 1; es = c->rng_seed * 0xd1342543de82ef95ull + 7;
    nthr = 1; cur = &T[0]; cur->id = 0; cur->state = RUN; cur->real = pthread_self(); cur->prio = 1000 + (int64_t)(rnd(&rs) % 1000000);
    gsteps = clock_extra = real_skew = io_ops = 0; nfaults = nswitch = 0; th = 1; sh = 1; leaving = 0; reap = 0;
    pct_n = pct_i = 0; pct_low = 0;
    if (c->strategy == 2) {
        pct_n = c->pct_depth > 60 ? 60 : c->pct_depth;
        for (uint32_t i = 0; i < pct_n; i++) pct_points[i] = 1 + rnd(&rs) % (c->mean ? c->mean : 1);
        for (uint32_t i = 1; i < pct_n; i++) for (uint32_t j = i; j > 0 && pct_points[j] < pct_points[j - 1]; j--) { uint64_t x = pct_points[j]; pct_points[j] = pct_points[j - 1]; pct_points[j - 1] = x; }
    }
    exploring = 0; burst_end = burst_next = 0; ebase = 0;
    memset(FD, 0, sizeof FD);
    in_thread = 1;
    arm();
    active = 1;
}
// The main simulated thread is done; other threads are abandoned.
void sim_stop(void) { if (!active) return; flush_steps(); report_threads(); stop(ST_DONE); active = 0; }
void sim_exit(int code) { raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); }
uint64_t sim_now(void) { if (!insim()) return 0; flush_steps(); return now_ns() - 1000000000ull; }
int64_t sim_realtime_ns(void) { flush_steps(); return (int64_t)sim_shm->cfg.epoch_ns_lo + (int64_t)(now_ns() - 1000000000ull) + (int64_t)real_skew; }
int64_t sim_last_clock(void) { return cur->last_rt; }
void sim_explore(int on) { if (!active) return; flush_steps(); exploring = on; ebase = gsteps; burst_end = gsteps; burst_next = gsteps + (sim_shm->cfg.strategy == 4 ? rnd(&rs) % (sim_shm->cfg.mean * 20 + 1) : 0); arm(); }
uint32_t sim_tid(void) { return active && in_thread ? (uint32_t)cur->id : 0xffffffffu; }
// A host-level fault point (external functions registered by the harness).
int sim_host_fault(uint32_t kind, uint64_t *arg, uint64_t range) { if (!insim()) return 0; point(40); int r = fault(kind, arg, range); if (!r) maybe_switch(); else if (sim_shm->cfg.replay) arm(); return r; }
void sim_yield_point(void) { if (!insim()) return; point(41); maybe_switch(); }
// Number of live (unfinished) simulated threads except the caller.
uint32_t sim_live_threads(void) { uint32_t c = 0; for (int i = 0; i < nthr; i++) if (T[i].state != FIN && &T[i] != cur) c++; return c; }
// Let all other threads run until none is runnable (quiescence); sleeping ones are waited for.
int sim_active(void) { return active; }
