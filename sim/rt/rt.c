// Simulator runtime: every source of nondeterminism the library can reach is
// answered here -- entropy, hash seeds, clocks, sleeping, futexes -- and the
// seeded scheduler that decides which caller thread runs, at basic-block
// granularity (sanitizer-coverage callbacks inserted into the real code).
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/futex.h>

#define MAXT 8
#define MAXP 256
#define NCOV (1u << 21)

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// ---- shared status (survives the run's process) ---------------------------
struct sim_status {
    uint64_t code; // 0 running, 1 finished, 2 step budget exhausted, 3 deadlock, 4 planned crash
    uint64_t steps;
    uint64_t draws;
    uint64_t clock_reads;
    uint64_t nchoices;
};
struct sim_status *sim_status;
unsigned char sim_cov_dummy[8];
unsigned char *sim_cov; // shared, accumulated over runs
uint32_t sim_nguards;

// ---- per-process simulation state -----------------------------------------
int sim_active;                 // seams answer from the simulator
__thread int sim_on;            // this thread is inside library code
__thread int sim_tid;
uint64_t sim_steps, sim_stop = ~0ull;
uint64_t sim_limit = ~0ull, sim_crash_at = ~0ull;
uint64_t sim_trace_hash;
uint64_t sim_switches, sim_futex_waits, sim_sleeps;

static struct { uint64_t s, n, opens, fail_at, sticky, left; int mode; } rng[MAXT];
uint64_t sim_entropy_failures, sim_rng_forced;
static uint64_t hash_s;
uint64_t sim_hash_draws;
static struct { uint64_t now, n, seed; int mode; } clk;
uint64_t sim_clock_jumps;

// ---- scheduler --------------------------------------------------------------
static int nthr, cur, sched_on;
static int st[MAXT];            // 1 runnable, 3 done
static sem_t sems[MAXT], main_sem;
static uint64_t pstep[MAXP]; static uint32_t pto[MAXP]; static int np, pi;
static uint64_t fair_at;
static uint64_t spin_blocks;
#define FAIR 400000ull

static void recompute_stop(void) {
    uint64_t s = sim_limit;
    if (sim_crash_at < s) s = sim_crash_at;
    if (sched_on) {
        if (pi < np && pstep[pi] < s) s = pstep[pi];
        if (fair_at < s) s = fair_at;
    }
    sim_stop = s;
}

static void die(uint64_t code) {
    if (sim_status) { sim_status->code = code; sim_status->steps = sim_steps; }
    _exit(90 + (int)code);
}

static int pick_other(uint32_t want) {
    int c = 0, i;
    for (i = 0; i < nthr; i++) if (i != cur && st[i] == 1) c++;
    if (!c) return -1;
    int k = want % c;
    for (i = 0; i < nthr; i++) if (i != cur && st[i] == 1 && k-- == 0) return i;
    return -1;
}

static void switch_to(int t) {
    int me = cur;
    sim_switches++;
    sim_trace_hash = (sim_trace_hash ^ (sim_steps * 31 + t)) * 0x100000001b3ull;
    cur = t;
    fair_at = sim_steps + FAIR;
    recompute_stop();
    int on = sim_on; sim_on = 0;
    sem_post(&sems[t]);
    while (sem_wait(&sems[me]) != 0) {}
    sim_on = on;
}

static void slow(void) {
    if (sim_steps >= sim_crash_at) die(4);
    if (sim_steps >= sim_limit) die(2);
    if (sched_on) {
        if (pi < np && sim_steps >= pstep[pi]) {
            uint32_t w = pto[pi++];
            recompute_stop();
            int t = pick_other(w);
            if (t >= 0) { spin_blocks = 0; switch_to(t); }
            return;
        }
        if (sim_steps >= fair_at) {
            fair_at = sim_steps + FAIR;
            recompute_stop();
            int t = pick_other(cur);
            if (t >= 0) switch_to(t);
            return;
        }
    }
    recompute_stop();
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (; a < b; a++) *a = (++sim_nguards) & (NCOV - 1);
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!sim_on) return;
    sim_cov[*g] = 1;
    if (++sim_steps >= sim_stop) slow();
}

void sim_init(void) {
    sim_cov = mmap(0, NCOV, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void *sim_shared(size_t n) {
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? 0 : p;
}
uint64_t sim_cov_count(void) { uint64_t c = 0; for (uint32_t i = 0; i <= sim_nguards && i < NCOV; i++) c += sim_cov[i]; return c; }

void sim_begin(uint64_t limit, uint64_t hash_seed) {
    memset(rng, 0, sizeof rng);
    for (int i = 0; i < MAXT; i++) rng[i].fail_at = ~0ull;
    sim_steps = 0; sim_limit = limit; sim_crash_at = ~0ull; sim_trace_hash = 0xcbf29ce484222325ull;
    hash_s = hash_seed; memset(&clk, 0, sizeof clk); clk.now = 1000000000ull * 1000;
    sim_active = 1; sched_on = 0; recompute_stop();
}
void sim_set_limit(uint64_t l) { sim_limit = l; recompute_stop(); }
void sim_set_crash(uint64_t at) { sim_crash_at = at; recompute_stop(); }
void sim_rng_set(int t, int mode, uint64_t seed, uint64_t fail_at) {
    rng[t].mode = mode; rng[t].s = seed; rng[t].n = 0; rng[t].opens = 0; rng[t].fail_at = fail_at; rng[t].left = 0;
}
uint64_t sim_rng_draws(int t) { return rng[t].n; }
void sim_hash_set(uint64_t seed) { hash_s = seed; }
void sim_clock_set(int mode, uint64_t seed) { clk.mode = mode; clk.seed = seed; }
uint64_t sim_clock_now(void) { return clk.now; }
uint64_t sim_clock_reads(void) { return clk.n; }

// entropy -------------------------------------------------------------------
int32_t curvo_sim_rng_open(void) {
    int t = sim_tid;
    if (rng[t].opens++ >= rng[t].fail_at) { sim_entropy_failures++; return 1; }
    return 0;
}
uint64_t curvo_sim_rng_u64(void) {
    int t = sim_tid;
    uint64_t n = rng[t].n++;
    uint64_t u = mix(&rng[t].s);
    switch (rng[t].mode) {
    case 0: return u;
    case 1: sim_rng_forced++; return 0;
    case 2: sim_rng_forced++; return ~0ull;
    case 3: sim_rng_forced++; return (n & 1) ? ~0ull : 0;
    case 4: sim_rng_forced++; return 0x8000000000000000ull;
    case 5: // sticky: one value repeated for a while
        if (!rng[t].left) { rng[t].sticky = u; rng[t].left = 1 + (mix(&rng[t].s) & 63); }
        rng[t].left--; sim_rng_forced++; return rng[t].sticky;
    case 6: // extremes mixed in
        if ((u & 3) == 0) { sim_rng_forced++; return 0; }
        if ((u & 3) == 1) { sim_rng_forced++; return ~0ull; }
        return u;
    case 7: // only the top bits vary: coarse values, many ties
        sim_rng_forced++; return u & 0xE000000000000000ull;
    case 8: // slow ramp
        sim_rng_forced++; return n * 0x0123456789abcdefull;
    }
    return u;
}

// hash seeds and any direct entropy -------------------------------------------
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    if (!sim_active) {
        long r = raw6(SYS_getrandom, (long)buf, len, flags, 0, 0, 0);
        if (r < 0) { errno = -r; return -1; }
        return r;
    }
    unsigned char *p = buf;
    uint64_t s = hash_s ^ (0x51ed2701ull * (uint64_t)(sim_tid + 1));
    sim_hash_draws++;
    for (size_t i = 0; i < len; i++) p[i] = (unsigned char)(mix(&s) >> 24);
    return len;
}

// clocks ------------------------------------------------------------------------
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!sim_active || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) {
        long r = raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
        if (r < 0) { errno = -r; return -1; }
        return 0;
    }
    clk.n++;
    uint64_t u = mix(&clk.seed);
    switch (clk.mode) {
    case 0: clk.now += 1000; break;
    case 1: break;                                              // stopped clock
    case 2: clk.now += 1000000ull * (u % 1000); break;          // slow machine
    case 3: if (u % 4 == 0) { clk.now += 1000000000ull * (u % 86400); sim_clock_jumps++; } else clk.now += 50; break;
    case 4: if (u % 4 == 0 && clk.now > 500000000000ull) { clk.now -= 1000000ull * (u % 100000); sim_clock_jumps++; } else clk.now += 1000; break;
    }
    ts->tv_sec = clk.now / 1000000000ull; ts->tv_nsec = clk.now % 1000000000ull;
    return 0;
}
int sim_real_ns(uint64_t *out) {
    struct timespec ts;
    raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
    *out = ts.tv_sec * 1000000000ull + ts.tv_nsec;
    return 0;
}

// blocking ------------------------------------------------------------------------
static int blocked_yield(void) {
    int t = pick_other((uint32_t)(sim_steps * 2654435761u >> 7));
    if (t < 0) return -1;
    if (++spin_blocks > 2000) die(3);
    switch_to(t);
    return 0;
}
int sched_yield(void) {
    if (sim_active && sched_on && sim_on) { blocked_yield(); return 0; }
    return 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
    if (sim_active && sim_on) { sim_sleeps++; clk.now += r->tv_sec * 1000000000ull + r->tv_nsec; if (sched_on) blocked_yield(); return 0; }
    long x = raw6(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0);
    if (x < 0) { errno = -x; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
    if (sim_active && sim_on) return nanosleep(r, rem);
    long x = raw6(SYS_clock_nanosleep, c, fl, (long)r, (long)rem, 0, 0);
    return x < 0 ? -x : 0;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (sim_active && sim_on) {
        if (n == SYS_futex) {
            int op = b & 127;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                sim_futex_waits++;
                if (sched_on) {
                    if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
                    if (blocked_yield() != 0) die(3);
                    return 0;
                }
                if (*(volatile int *)a == (int)c) { if (d) { errno = ETIMEDOUT; return -1; } die(3); }
                errno = EAGAIN; return -1;
            }
        }
        if (n == SYS_getrandom) return getrandom((void *)a, b, c);
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}

// caller threads ---------------------------------------------------------------
void sim_sched_setup(int n, int npre, const uint64_t *steps, const uint32_t *to) {
    nthr = n; np = npre > MAXP ? MAXP : npre; pi = 0;
    for (int i = 0; i < np; i++) { pstep[i] = sim_steps + steps[i]; pto[i] = to[i]; }
    for (int i = 0; i < n; i++) { st[i] = 1; sem_init(&sems[i], 0, 0); }
    sem_init(&main_sem, 0, 0);
    spin_blocks = 0;
}
void sim_thread_enter(int id) {
    sim_tid = id;
    while (sem_wait(&sems[id]) != 0) {}
}
void sim_thread_exit(void) {
    sim_on = 0;
    st[cur] = 3;
    int t = pick_other((uint32_t)cur);
    if (t < 0) { sched_on = 0; recompute_stop(); sem_post(&main_sem); return; }
    cur = t; fair_at = sim_steps + FAIR; spin_blocks = 0; recompute_stop();
    sim_trace_hash = (sim_trace_hash ^ (sim_steps * 31 + 7 + t)) * 0x100000001b3ull;
    sem_post(&sems[t]);
}
void sim_sched_run(int first) {
    cur = first % nthr; sched_on = 1; fair_at = sim_steps + FAIR; recompute_stop();
    sem_post(&sems[cur]);
    while (sem_wait(&main_sem) != 0) {}
}
int sim_on_set(int v) { int o = sim_on; sim_on = v; return o; }
