// Simulation runtime: scheduler, virtual clock, interposed pthread/clock/futex/poll calls, interrupt injection,
// tracked heap and the __tsan_* callbacks that turn every memory access of the code under test into a point.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "rt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {

Config cfg;
bool replaying = false;
std::vector<Decision> tape;
Stats stats;
bool tracing = false;
void (*on_violation)(const char*, const std::string&) = nullptr;

// ------------------------------------------------------------------ raw system calls (never interposed)
static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void Rng::reseed(uint64_t seed) {
    for (auto& v : s) v = splitmix(seed);
}
uint64_t Rng::next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
}

// ------------------------------------------------------------------ threads
enum State { RUNNABLE, BLOCKED, DONE };
enum Reason { R_NONE, R_MUTEX, R_COND, R_JOIN, R_SLEEP, R_FUTEX, R_POLL, R_STALL };
enum Woke { W_NONE = 0, W_SIGNALLED, W_TIMEOUT, W_SPURIOUS_ };
static const char* reasonName(int r) {
    static const char* n[] = {"-", "mutex", "condition", "join", "sleep", "futex", "poll", "stall"};
    return n[r];
}

struct Wait {
    Reason reason = R_NONE;
    const void* obj = nullptr;
    int64_t deadline = -1;
    bool wall = false;  // deadline is measured on the wall clock
    int woke = W_NONE;
    uint64_t order = 0;
    Wait* outer = nullptr;
    struct pollfd* fds = nullptr;
    int nfds = 0;
};

constexpr int MAXT = 250;
constexpr int PCDEPTH = 48;
struct Thr {
    int id = 0;
    State state = RUNNABLE;
    Wait* w = nullptr;
    uint64_t pts = 0;
    uint64_t since_switch = 0;
    int64_t clockRead = 0;   // when it looked at the monotonic clock last
    bool heavy = false;      // executes callbacks of machines: may be busy for long without anything to be seen
    uint64_t ready_at = 0;                  // since when it could have run
    int in_sig = 0;
    int in_rt = 0;
    int pend_irq = 0;
    int busy = 0;
    int nopts = 0;
    sigset_t mask;
    pthread_t handle{};
    std::atomic<int> go{0};
    uintptr_t stk_lo = 0, stk_hi = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool detached = false;
    int prio = 0;
    size_t cursor = 0;
    std::vector<Decision>* plan = nullptr;  // replay decisions of this thread
    const void* pcs[PCDEPTH];
    int depth = 0;
};

static Thr* thr[MAXT];
static int nthr = 0;
static thread_local Thr* self __attribute__((tls_model("initial-exec"))) = nullptr;
static bool g_active = false, g_quiet = false;
static uint64_t g_nextfair = 50000;
static int64_t g_injected = 0;             // time added by slow execution, stalls and late wakeups
constexpr int64_t MAX_INJECTED = 1500000000;
constexpr uint64_t MAX_DECISIONS = 60000, STARVED = 150000;
static uint64_t g_alone = 0;         // steps since anything observable happened, another thread ran or everybody slept
constexpr uint64_t SPIN = 4000, SPIN_HEAVY = 150000;    // who takes that many is spinning: that time explains no delay
static uint64_t g_steps = 0, g_hash = 1469598103934665603ull, g_waitorder = 0;
static int64_t g_now = 0, g_wall = 0, g_nextdl = INT64_MAX;
static Rng g_rng;
static int64_t g_skip = 1;
static bool g_resched = false;
static uint64_t g_weight = 0;  // weighted steps, for PCT change points
static uint64_t g_change[16];
static int g_nchange = 0, g_nextchange = 0, g_lowprio = 0;
static pthread_key_t g_key;
static bool g_keyinit = false;
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;
static int (*real_join)(pthread_t, void**) = nullptr;
static int (*real_detach)(pthread_t) = nullptr;

struct Irq {
    std::function<void()> fn;
    int remaining = 0;
    uint64_t not_before = 0;
};
static Irq g_irq[16];
static int g_nirq = 0;

NoPoints::NoPoints() {
    if (self) self->nopts++;
}
NoPoints::~NoPoints() {
    if (self) self->nopts--;
}
void no_points(int d) {
    if (self) self->nopts += d;
}
Internal::Internal() {
    if (self) self->in_rt++;
}
Internal::~Internal() {
    if (self) self->in_rt--;
}

static inline void hmix(uint64_t v) {
    g_hash = (g_hash ^ v) * 1099511628211ull;
}

void trace(const char* fmt, ...) {
    if (!tracing) return;
    Internal in;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > 510) n = 510;
    char line[640];
    int m = snprintf(line, sizeof line, "%10.6f ms  t%d/%llu  %.*s\n", double(g_now) / 1e6, self ? self->id : -1,
                     self ? (unsigned long long)self->pts : 0ull, n, buf);
    raw(SYS_write, 2, (long)line, m);
}

bool active() { return g_active && self; }
bool quiesced() { return g_quiet; }
int tid() { return self ? self->id : -1; }
int64_t now() { return g_now; }
uint64_t steps() { return g_steps; }
bool in_interrupt() { return self && self->in_sig > 0; }
uint64_t sched_hash() { return g_hash; }
void note_switch(uint64_t what) {
    hmix(what);
    hmix((uint64_t)now());
    stats.switches++;
}
uint64_t switches() { return stats.switches; }
uint64_t contended() { return stats.contended; }
int threads_alive() {
    int n = 0;
    for (int i = 0; i < nthr; i++) n += thr[i]->state != DONE;
    return n;
}

static std::string symbol(const void* pc) {
    Dl_info di;
    char b[64];
    if (dladdr(pc, &di) && di.dli_sname) {
        std::string s = di.dli_sname;
        return s;
    }
    snprintf(b, sizeof b, "%p", pc);
    return b;
}
static std::string stackOf(Thr* t, int n = 6) {
    std::string s;
    for (int i = std::min(t->depth, PCDEPTH) - 1; i >= 0 && n > 0; --i, --n) {
        if (!s.empty()) s += " < ";
        s += symbol(t->pcs[i]);
    }
    return s;
}
std::string blocked_report() {
    std::string s;
    char b[256];
    for (int i = 0; i < nthr; i++) {
        Thr* t = thr[i];
        if (t->state == DONE) continue;
        if (t->w && t->state == BLOCKED) {
            int owner = -1;
            if (t->w->reason == R_MUTEX) owner = ((const pthread_mutex_t*)t->w->obj)->__data.__owner - 1;
            snprintf(b, sizeof b, "; t%d blocked on %s", t->id, reasonName(t->w->reason));
            s += b;
            if (owner >= 0) {
                snprintf(b, sizeof b, " held by t%d", owner);
                s += b;
            }
            s += " in [" + stackOf(t, 4) + "]";
        } else {
            snprintf(b, sizeof b, "; t%d runnable", t->id);
            s += b;
        }
    }
    return s;
}

void violation(const char* tag, const std::string& msg) {
    if (self) self->in_rt += 1000;
    std::string m = msg;
    if (self && self->depth && (!strcmp(tag, TAG_UAF) || !strcmp(tag, TAG_INT_ALLOC))) m += " in [" + stackOf(self) + "]";
    g_active = false;
    if (on_violation) on_violation(tag, m);
    fprintf(stderr, "VIOLATION %s: %s\n", tag, m.c_str());
    _exit(10);
}
#define VIOL(tag, msg) do { if (self) self->in_rt += 1000; violation(tag, msg); } while (0)

// ------------------------------------------------------------------ baton
static void waitGo(Thr* t) {
    while (t->go.load(std::memory_order_acquire) == 0) raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void giveGo(Thr* n) {
    n->go.store(1, std::memory_order_release);
    raw(SYS_futex, (long)&n->go, FUTEX_WAKE_PRIVATE, 1);
}
static void switchTo(Thr* me, Thr* next, bool wait) {
    if (me == next) return;
    stats.switches++;
    hmix(0x5157 ^ (uint64_t(me->id) << 32) ^ next->id ^ (me->pts << 40));
    me->since_switch = 0;
    g_alone = 0;
    me->ready_at = g_steps;
    next->since_switch = 0;
    if (tracing) trace("---- switch to t%d", next->id);
    giveGo(next);
    if (wait) waitGo(me);
}

// ------------------------------------------------------------------ decisions
static void record(Thr* t, char kind, int64_t arg);
static bool planned(Thr* t, char kind, int64_t& arg) {
    if (!t->plan) return false;
    auto& p = *t->plan;
    while (t->cursor < p.size() && p[t->cursor].pt < t->pts) t->cursor++;
    for (size_t i = t->cursor; i < p.size() && p[i].pt == t->pts; i++)
        if (p[i].kind == kind) {
            arg = p[i].arg;
            record(t, kind, arg);
            return true;
        }
    return false;
}
static void record(Thr* t, char kind, int64_t arg) {
    stats.decisions++;
    Internal in;
    tape.push_back({t->id, t->pts, kind, arg});
    if (tape_log && tape_log->n < TapeLog::CAP) {
        tape_log->d[tape_log->n] = {t->id, t->pts, kind, arg};
        tape_log->n++;
    }
    if (tracing) trace("decision %c %lld", kind, (long long)arg);
}

TapeLog* tape_log = nullptr;
struct Jump { int64_t from, to; };
static Jump* g_jumps = nullptr;      // idle periods in which nobody was stalled by the simulator
static size_t g_njumps = 0;
constexpr size_t MAXJUMPS = 1 << 18;
int64_t idle_between(int64_t a, int64_t b) {
    int64_t s = 0;
    size_t lo = 0, hi = g_njumps;
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if (g_jumps[m].to <= a) lo = m + 1;
        else hi = m;
    }
    for (size_t i = lo; i < g_njumps && g_jumps[i].from < b; i++)
        s += std::min(b, g_jumps[i].to) - std::max(a, g_jumps[i].from);
    return s;
}
bool in_wait(int id) {
    if (id < 0 || id >= nthr) return false;
    Thr* t = thr[id];
    return t->state != DONE && !t->in_sig && !t->busy && t->w && (t->w->reason == R_COND || t->w->reason == R_POLL);
}
uint64_t wait_id(int id) {
    if (id < 0 || id >= nthr) return 0;
    Thr* t = thr[id];
    return t->state != DONE && t->w && t->w->woke == W_NONE && t->w->reason == R_COND ? t->w->order : 0;
}
void set_busy(int d) {
    if (self) self->busy += d;
}
static void noteIdle(int64_t from, int64_t to) {
    if (to <= from) return;
    for (int i = 0; i < nthr; i++) {
        Thr* t = thr[i];
        if (t->state == DONE) continue;
        if (t->busy > 0) return;
        for (Wait* w = t->w; w; w = w->outer)
            if (w->reason == R_STALL && w->woke == W_NONE) return;
    }
    if (g_njumps && g_jumps[g_njumps - 1].to == from) {
        g_jumps[g_njumps - 1].to = to;
        return;
    }
    if (g_njumps < MAXJUMPS) g_jumps[g_njumps++] = {from, to};
}

static void recomputeDeadline() {
    g_nextdl = INT64_MAX;
    for (int i = 0; i < nthr; i++) {
        Thr* t = thr[i];
        if (t->state == DONE) continue;
        for (Wait* w = t->w; w; w = w->outer)
            if (w->woke == W_NONE && w->deadline >= 0 && w->deadline < g_nextdl) g_nextdl = w->deadline;
    }
}
static void wakeWait(Thr* t, Wait* w, int why) {
    w->woke = why;
    if (t->w == w && t->state == BLOCKED) {
        t->state = RUNNABLE, t->ready_at = g_steps;
        if (cfg.policy == P_PCT && self && t->prio > self->prio) g_resched = true;
    }
}
static void expire() {
    for (int i = 0; i < nthr; i++) {
        Thr* t = thr[i];
        if (t->state == DONE) continue;
        for (Wait* w = t->w; w; w = w->outer)
            if (w->woke == W_NONE && w->deadline >= 0 && w->deadline <= g_now) wakeWait(t, w, W_TIMEOUT);
    }
    recomputeDeadline();
}
static void checkPollers() {
    for (int i = 0; i < nthr; i++) {
        Thr* t = thr[i];
        if (t->state == DONE) continue;
        for (Wait* w = t->w; w; w = w->outer)
            if (w->reason == R_POLL && w->woke == W_NONE) {
                struct timespec z = {0, 0};
                long r = raw(SYS_ppoll, (long)w->fds, w->nfds, (long)&z, 0, 8);
                if (r != 0) wakeWait(t, w, W_SIGNALLED);
            }
    }
}

static void pctInit(uint64_t) {
    g_nchange = std::min(cfg.pct_depth, 16);
    for (int i = 0; i < g_nchange; i++) g_change[i] = 1 + g_rng.below(cfg.pct_len ? cfg.pct_len : 1);
    std::sort(g_change, g_change + g_nchange);
    g_nextchange = 0;
}
static int64_t drawSkip() {
    if (!cfg.preempt_every) return INT64_MAX;
    // geometric-ish: uniform in [1, 2m)
    return 1 + (int64_t)g_rng.below(2 * (uint64_t)cfg.preempt_every);
}

static int runnables(int* out) {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (thr[i]->state == RUNNABLE) out[n++] = i;
    return n;
}
static Thr* pickPct(int* ids, int n) {
    Thr* b = thr[ids[0]];
    for (int i = 1; i < n; i++)
        if (thr[ids[i]]->prio > b->prio) b = thr[ids[i]];
    return b;
}

// the caller cannot continue (blocked or done): give the baton to somebody
static void reschedule(Thr* me, bool wait) {
    for (;;) {
        int ids[MAXT];
        int n = runnables(ids);
        if (n == 0) {
            recomputeDeadline();
            if (g_nextdl == INT64_MAX) {
                VIOL(TAG_HANG, "no thread can run and no timeout is pending" + blocked_report());
            }
            int64_t late = 0;
            me->pts++;
            if (replaying) {
                planned(me, D_LATE, late);
            } else if (!g_quiet && cfg.late_pct && g_injected < MAX_INJECTED && (int)g_rng.below(100) < cfg.late_pct) {
                late = (int64_t)g_rng.below(cfg.late_max_ns + 1);
                record(me, D_LATE, late);
            }
            g_injected += late;
            if (late) stats.late++;
            stats.idle_jumps++;
            if (g_nextdl > g_now) {
                noteIdle(g_now, g_nextdl);
                if (g_nextdl - g_now > 50000) g_alone = 0;
                g_now = g_nextdl;
            }
            g_now += late;
            expire();
            continue;
        }
        Thr* next = nullptr;
        me->pts++;
        int64_t arg;
        if (replaying) {
            if (planned(me, D_NEXT, arg) && arg >= 0 && arg < nthr && thr[arg]->state == RUNNABLE) next = thr[arg];
            if (!next) next = thr[ids[0]];
        } else {
            if (g_quiet || n == 1 || stats.decisions > MAX_DECISIONS) next = thr[ids[0]];
            else if (cfg.policy == P_PCT) next = pickPct(ids, n);
            else next = thr[ids[g_rng.below(n)]];
            if (next != thr[ids[0]]) record(me, D_NEXT, next->id);
        }
        if (next == me) return;
        switchTo(me, next, wait);
        return;
    }
}

static void deliver(Thr* t, int irq);

// Block the calling thread until w is woken. Interrupts may be handled meanwhile.
static void block(Thr* t, Wait& w) {
    w.order = ++g_waitorder;
    w.outer = t->w;
    t->w = &w;
    stats.blocks++;
    if (w.deadline >= 0 && w.deadline < g_nextdl) g_nextdl = w.deadline;
    if (tracing) trace("block on %s%s", reasonName(w.reason), w.deadline >= 0 ? " (timed)" : "");
    while (w.woke == W_NONE) {
        t->state = BLOCKED;
        reschedule(t, true);
        t->state = RUNNABLE, t->ready_at = g_steps;
        if (t->pend_irq) {
            int i = t->pend_irq - 1;
            t->pend_irq = 0;
            deliver(t, i);
        }
    }
    t->w = w.outer;
}

static bool blockedSigOk(Thr* b) {
    return b->state == BLOCKED && !b->pend_irq && !b->in_sig && !sigismember(&b->mask, SIGUSR1) && b->w &&
           b->w->reason != R_STALL;
}
static int pickIrq() {
    int c[16], n = 0;
    for (int i = 0; i < g_nirq; i++)
        if (g_irq[i].remaining > 0 && g_steps >= g_irq[i].not_before) c[n++] = i;
    return n ? c[g_rng.below(n)] : -1;
}

static void applySwitch(Thr* t, int target) {
    if (target < 0 || target >= nthr || thr[target]->state != RUNNABLE || thr[target] == t) return;
    stats.preempts++;
    switchTo(t, thr[target], true);
}
static void applyTime(int64_t d) {
    g_injected += d;
    stats.time_adv++;
    g_now += d;
    if (g_now >= g_nextdl) expire();
}
static void applyStall(Thr* t, int64_t d) {
    g_injected += d;
    stats.stalls++;
    Wait w;
    w.reason = R_STALL;
    w.deadline = g_now + d;
    block(t, w);
}
static void applySpurious(int target) {
    if (target < 0 || target >= nthr) return;
    Thr* b = thr[target];
    if (b->state == BLOCKED && b->w && b->w->reason == R_COND) {
        stats.spurious++;
        wakeWait(b, b->w, W_SPURIOUS_);
    }
}
static void applyBsignal(int irq, int target) {
    if (target < 0 || target >= nthr || irq >= g_nirq || g_irq[irq].remaining <= 0) return;
    Thr* b = thr[target];
    if (!blockedSigOk(b)) return;
    stats.bsignals++;
    b->pend_irq = irq + 1;
    b->state = RUNNABLE, b->ready_at = g_steps;
}
static void applyWall(int64_t ms) {
    stats.wall++;
    int64_t d = ms * 1000000;
    g_wall += d;
    for (int i = 0; i < nthr; i++)
        for (Wait* w = thr[i]->w; w; w = w->outer)
            if (w->deadline >= 0 && w->wall && w->woke == W_NONE) {
                w->deadline -= d;
                if (w->deadline < 0) w->deadline = 0;
            }
    recomputeDeadline();
    if (g_now >= g_nextdl) expire();
}

static void decide(Thr* t) {
    int ws = cfg.w_switch, wt = cfg.w_time, wl = cfg.w_stall, wu = cfg.w_spurious, wi = cfg.w_signal, wb = cfg.w_bsignal,
        wc = cfg.w_wall;
    if (cfg.policy == P_PCT) ws = 0;
    if (g_injected >= MAX_INJECTED) wt = wl = 0;
    int sum = ws + wt + wl + wu + wi + wb + wc;
    if (sum <= 0) return;
    int x = (int)g_rng.below(sum);
    if ((x -= ws) < 0) {
        int ids[MAXT];
        int n = runnables(ids);
        if (n <= 1) return;
        int k = ids[g_rng.below(n)];
        if (k == t->id) return;
        record(t, D_SWITCH, k);
        applySwitch(t, k);
    } else if ((x -= wt) < 0) {
        int64_t d = 1 + (int64_t)g_rng.below(cfg.time_max_ns);
        record(t, D_TIME, d);
        applyTime(d);
    } else if ((x -= wl) < 0) {
        int64_t d = 1 + (int64_t)g_rng.below(cfg.stall_max_ns);
        record(t, D_STALL, d);
        applyStall(t, d);
    } else if ((x -= wu) < 0) {
        int c[MAXT], n = 0;
        for (int i = 0; i < nthr; i++)
            if (thr[i]->state == BLOCKED && thr[i]->w && thr[i]->w->reason == R_COND) c[n++] = i;
        if (!n) return;
        int k = c[g_rng.below(n)];
        record(t, D_SPURIOUS, k);
        applySpurious(k);
    } else if ((x -= wi) < 0) {
        if (t->in_sig || sigismember(&t->mask, SIGUSR1)) return;
        int i = pickIrq();
        if (i < 0) return;
        record(t, D_SIGNAL, i);
        stats.signals++;
        deliver(t, i);
    } else if ((x -= wb) < 0) {
        int c[MAXT], n = 0;
        for (int i = 0; i < nthr; i++)
            if (blockedSigOk(thr[i])) c[n++] = i;
        int i = pickIrq();
        if (!n || i < 0) return;
        int k = c[g_rng.below(n)];
        record(t, D_BSIGNAL, (int64_t)i * 1000 + k);
        applyBsignal(i, k);
    } else {
        int64_t ms = (int64_t)g_rng.below(7200001) - 3600000;
        record(t, D_WALL, ms);
        applyWall(ms);
    }
}

static void replayAt(Thr* t) {
    auto& p = *t->plan;
    while (t->cursor < p.size() && p[t->cursor].pt < t->pts) t->cursor++;
    while (t->cursor < p.size() && p[t->cursor].pt == t->pts) {
        Decision d = p[t->cursor];
        if (d.kind != D_LATE && d.kind != D_NEXT && d.kind != D_WAKE && d.kind != D_FAULT) record(t, d.kind, d.arg);
        switch (d.kind) {
            case D_SWITCH: t->cursor++; applySwitch(t, (int)d.arg); return;
            case D_TIME: t->cursor++; applyTime(d.arg); return;
            case D_STALL: t->cursor++; applyStall(t, d.arg); return;
            case D_SPURIOUS: t->cursor++; applySpurious((int)d.arg); return;
            case D_SIGNAL:
                t->cursor++;
                if (!t->in_sig && !sigismember(&t->mask, SIGUSR1) && d.arg < g_nirq && g_irq[d.arg].remaining > 0) {
                    stats.signals++;
                    deliver(t, (int)d.arg);
                }
                return;
            case D_BSIGNAL: t->cursor++; applyBsignal((int)(d.arg / 1000), (int)(d.arg % 1000)); return;
            case D_WALL: t->cursor++; applyWall(d.arg); return;
            default: return;  // consumed by its own query
        }
    }
}

int64_t lastClockRead() { return self ? self->clockRead : 0; }
void progress(bool heavy) {
    g_alone = 0;
    if (heavy && self) self->heavy = true;
}
static void noteSpin() {
    int ids[MAXT];
    if (g_alone > (self->id == 0 || self->heavy ? SPIN_HEAVY : SPIN) && runnables(ids) == 1) noteIdle(g_now - cfg.tick_ns, g_now);
}

// A preemption point of weight w.
static void pointSlow(Thr* t) {
    if (g_now >= g_nextdl) expire();
    if (g_steps > cfg.max_steps)
        VIOL(TAG_LIVELOCK, "no quiescence within " + std::to_string(cfg.max_steps) + " steps" + blocked_report());
    if (g_steps >= g_nextfair) {     // nobody starves (deterministic, so not recorded)
        g_nextfair = g_steps + 50000;
        Thr* b = nullptr;
        for (int i = 0; i < nthr; i++)
            if (thr[i] != t && thr[i]->state == RUNNABLE && g_steps - thr[i]->ready_at > STARVED && (!b || thr[i]->ready_at < b->ready_at)) b = thr[i];
        if (b) {
            int top = 0;
            for (int i = 0; i < nthr; i++) top = std::max(top, thr[i]->prio);
            b->prio = top + 1;
            applySwitch(t, b->id);
            return;
        }
    }
    if (t->since_switch > 300000) {  // forced fairness (deterministic, so not recorded)
        int ids[MAXT];
        int n = runnables(ids);
        t->since_switch = 0;
        if (n > 1) {
            int k = ids[0];
            for (int i = 0; i < n; i++)
                if (ids[i] > t->id) {
                    k = ids[i];
                    break;
                }
            applySwitch(t, k);
        }
    }
}
static inline void pt(Thr* t, uint32_t w) {
    if (__builtin_expect(t->nopts, 0)) return;
    t->pts++;
    t->since_switch++;
    g_steps++;
    g_now += cfg.tick_ns;
    if (__builtin_expect(++g_alone > SPIN, 0)) noteSpin();
    if (__builtin_expect(g_now >= g_nextdl || t->since_switch > 300000 || g_steps > cfg.max_steps || g_steps >= g_nextfair, 0)) pointSlow(t);
    if (replaying) {
        if (t->plan && t->cursor < t->plan->size()) {
            t->in_rt++;
            int rt = t->in_rt;
            t->in_rt = 0;
            replayAt(t);
            t->in_rt = rt - 1;
        }
        return;
    }
    if (g_quiet || stats.decisions > MAX_DECISIONS) return;
    if (cfg.policy == P_PCT) {
        g_weight += w;
        bool change = g_nextchange < g_nchange && g_weight >= g_change[g_nextchange];
        if (change) {
            g_nextchange++;
            t->prio = --g_lowprio;
        }
        if (change || g_resched) {
            g_resched = false;
            int ids[MAXT];
            int n = runnables(ids);
            Thr* b = pickPct(ids, n);
            if (b != t) {
                record(t, D_SWITCH, b->id);
                applySwitch(t, b->id);
            }
            return;
        }
    }
    if ((g_skip -= w) > 0) return;
    g_skip = drawSkip();
    decide(t);
}

static inline Thr* me() {
    Thr* t = self;
    return (t && !t->in_rt && g_active) ? t : nullptr;
}

static void deliver(Thr* t, int irq) {
    Irq& q = g_irq[irq];
    q.remaining--;
    sigset_t old = t->mask;
    sigfillset(&t->mask);
    t->in_sig++;
    if (tracing) trace("interrupt %d begins", irq);
    hmix(0x1111 + irq + t->id * 31);
    int e = errno;
    q.fn();
    errno = e;
    if (tracing) trace("interrupt %d ends", irq);
    t->in_sig--;
    t->mask = old;
}

int add_interrupt(std::function<void()> h, int n, uint64_t not_before) {
    Internal in;
    if (g_nirq >= 16) return -1;
    g_irq[g_nirq].fn = std::move(h);
    g_irq[g_nirq].remaining = n;
    g_irq[g_nirq].not_before = not_before;
    return g_nirq++;
}
void set_interrupt_budget(int irq, int n) {
    if (irq >= 0 && irq < g_nirq) g_irq[irq].remaining = n;
}
int interrupt_remaining(int irq) { return (irq >= 0 && irq < g_nirq) ? g_irq[irq].remaining : 0; }

bool fault_site(int code) {
    Thr* t = me();
    if (!t) return false;
    stats.fault_sites++;
    t->pts++;
    int64_t a;
    bool f = false;
    if (replaying) {
        f = planned(t, D_FAULT, a) && a == code;
    } else if (!g_quiet && cfg.fault_pct && (int)g_rng.below(100) < cfg.fault_pct) {
        f = true;
        record(t, D_FAULT, code);
    }
    if (f) stats.faults++;
    return f;
}

void point() {
    if (Thr* t = me()) pt(t, cfg.sync_boost);
}
void sleep_ns(int64_t ns) {
    Thr* t = me();
    if (!t) return;
    Wait w;
    w.reason = R_SLEEP;
    w.deadline = g_now + (ns > 0 ? ns : 0);
    block(t, w);
}
void quiet() {
    g_quiet = true;
    for (int i = 0; i < g_nirq; i++) g_irq[i].remaining = 0;
    if (tracing) trace("==== quiet: faults stop, default scheduling from here");
}
void drain(int64_t ns) { sleep_ns(ns); }

// ------------------------------------------------------------------ life of a run
static void stackBounds(Thr* t) {
    pthread_attr_t a;
    void* lo;
    size_t sz;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &lo, &sz);
        t->stk_lo = (uintptr_t)lo;
        t->stk_hi = (uintptr_t)lo + sz;
        pthread_attr_destroy(&a);
    }
}
static void keyDtor(void* v);
static void resolve() {
    if (real_create) return;
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    real_detach = (decltype(real_detach))dlsym(RTLD_NEXT, "pthread_detach");
}
static std::vector<Decision>* plans[MAXT];
static Thr* newThr() {
    if (nthr >= MAXT) VIOL("ERROR", "too many simulated threads");
    Internal in;
    Thr* t = new Thr();
    t->id = nthr;
    t->plan = replaying ? plans[nthr] : nullptr;
    if (cfg.policy == P_PCT && !replaying) t->prio = 1000 + (int)g_rng.below(1000000);
    thr[nthr++] = t;
    stats.threads++;
    return t;
}
void start(uint64_t seed) {
    resolve();
    heap_init();
    if (!g_keyinit) {
        pthread_key_create(&g_key, keyDtor);
        g_keyinit = true;
    }
    g_rng.reseed(seed ^ 0xd1ce5eedull);
    if (replaying) {
        for (auto& d : tape)
            if (d.tid >= 0 && d.tid < MAXT) {
                if (!plans[d.tid]) plans[d.tid] = new std::vector<Decision>();
                plans[d.tid]->push_back(d);
            }
    } else {
        tape.clear();
    }
    Thr* t = newThr();
    sigemptyset(&t->mask);
    t->handle = pthread_self();
    t->fn = nullptr;
    pctInit(seed);
    g_skip = drawSkip();
    stackBounds(t);
    self = t;
    g_active = true;
}
void finish() {
    g_active = false;
}

static void threadDone() {
    Thr* t = self;
    t->state = DONE;
    hmix(0xd0e + t->id);
    if (tracing) trace("thread ends");
    for (int i = 0; i < nthr; i++)
        for (Wait* w = thr[i]->w; w; w = w->outer)
            if (w->reason == R_JOIN && w->obj == t && w->woke == W_NONE) wakeWait(thr[i], w, W_SIGNALLED);
    reschedule(t, false);
    self = nullptr;
}
static void keyDtor(void* v) {
    intptr_t n = (intptr_t)v;
    if (!self) return;
    if (n > 1) {
        pthread_setspecific(g_key, (void*)(n - 1));
        return;
    }
    if (g_active) threadDone();
}
static void* trampoline(void* p) {
    Thr* t = (Thr*)p;
    self = nullptr;
    stackBounds(t);
    pthread_setspecific(g_key, (void*)4);
    self = t;
    waitGo(t);
    t->ret = t->fn(t->arg);
    return t->ret;
}

// ------------------------------------------------------------------ heap
static uint8_t* g_arena = nullptr;
static uint8_t* g_shadow = nullptr;
static size_t g_arenaSize = 0, g_arenaTop = 0;
struct Hdr {
    uint64_t size;
    uint32_t magic;
    uint32_t tid;
};
void heap_init() {
    if (g_arena) return;
    g_arenaSize = size_t(1) << 28;
    g_jumps = (Jump*)mmap(nullptr, MAXJUMPS * sizeof(Jump), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_arena = (uint8_t*)mmap(nullptr, g_arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_shadow = (uint8_t*)mmap(nullptr, g_arenaSize >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_arena == MAP_FAILED || g_shadow == MAP_FAILED) abort();
}
static inline bool inArena(const void* p) { return (uintptr_t)p - (uintptr_t)g_arena < g_arenaSize && g_arena; }
bool heap_dead(const void* p) { return inArena(p) && g_shadow[((uintptr_t)p - (uintptr_t)g_arena) >> 4] == 2; }

static void badAccess(const void* p, bool write, int st) {
    char b[160];
    snprintf(b, sizeof b, "%s of %s heap memory by thread %d%s", write ? "write" : "read", st == 2 ? "freed" : "unallocated",
             self ? self->id : -1, in_interrupt() ? " (interrupt)" : "");
    VIOL(TAG_UAF, b);
}
static inline void checkMem(const void* p, bool write) {
    uintptr_t o = (uintptr_t)p - (uintptr_t)g_arena;
    if (o < g_arenaSize && g_arena) {
        int st = g_shadow[o >> 4];
        if (__builtin_expect(st != 1, 0)) badAccess(p, write, st);
    }
}

static void* simAlloc(size_t n) {
    Thr* t = me();
    if (!t) {
        void* p = malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    if (t->in_sig) {
        VIOL(TAG_INT_ALLOC, "heap allocation of " + std::to_string(n) + " bytes inside an interrupt handler");
    }
    stats.allocs++;
    size_t body = (n + 15) & ~size_t(15);
    if (!body) body = 16;
    size_t need = 16 + body + 16;
    if (g_arenaTop + need > g_arenaSize) VIOL("ERROR", "simulated heap exhausted");
    uint8_t* base = g_arena + g_arenaTop;
    g_arenaTop += need;
    Hdr* h = (Hdr*)base;
    h->size = body;
    h->magic = 0xA110C8ED;
    h->tid = t->id;
    memset(g_shadow + ((base + 16 - g_arena) >> 4), 1, body >> 4);
    memset(base + 16, 0xCB, body < 4096 ? body : 4096);
    return base + 16;
}
static void simFree(void* p) {
    if (!p) return;
    if (!inArena(p)) {
        free(p);
        return;
    }
    Hdr* h = (Hdr*)((uint8_t*)p - 16);
    size_t o = (uint8_t*)p - g_arena;
    if (g_active && (h->magic != 0xA110C8ED || g_shadow[o >> 4] != 1)) {
        if (h->magic == 0xF4EEB10C) VIOL(TAG_UAF, "double free of heap memory by thread " + std::to_string(tid()));
        VIOL(TAG_UAF, "free of an invalid pointer by thread " + std::to_string(tid()));
    }
    if (in_interrupt() && me()) VIOL(TAG_INT_ALLOC, "heap memory freed inside an interrupt handler");
    stats.frees++;
    h->magic = 0xF4EEB10C;
    memset(g_shadow + (o >> 4), 2, h->size >> 4);
    if (h->size <= 4096) memset(p, 0xDD, h->size);
}

// ------------------------------------------------------------------ helpers for interposed calls
static inline int64_t tsNs(const struct timespec* ts) { return (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec; }
constexpr int64_t MONO_BASE = 5000ll * 1000000000ll;
constexpr int64_t WALL_BASE = 1700000000ll * 1000000000ll;
static int64_t clockNow(clockid_t c) {
    switch (c) {
        case CLOCK_REALTIME:
        case CLOCK_REALTIME_COARSE: return WALL_BASE + g_now + g_wall;
        default: return MONO_BASE + g_now;
    }
}

}  // namespace sim

using namespace sim;

// =================================================================== heap operators
void* operator new(size_t n) { return simAlloc(n); }
void* operator new[](size_t n) { return simAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simAlloc(n); }
void operator delete(void* p) noexcept { simFree(p); }
void operator delete[](void* p) noexcept { simFree(p); }
void operator delete(void* p, size_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t) noexcept { simFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simFree(p); }

// =================================================================== pthread
extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    resolve();
    Thr* t = me();
    if (!t) return real_create(out, attr, fn, arg);
    pt(t, cfg.sync_boost);
    Thr* n = newThr();
    n->fn = fn;
    n->arg = arg;
    n->mask = t->mask;
    int ds = 0;
    if (attr && pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) n->detached = true;
    int r = real_create(&n->handle, attr, trampoline, n);
    if (r) VIOL("ERROR", "pthread_create failed for real");
    *out = n->handle;
    hmix(0xc4ea + n->id + t->id * 131);
    if (tracing) trace("create thread t%d", n->id);
    if (cfg.policy == P_PCT && n->prio > t->prio) g_resched = true;
    pt(t, cfg.sync_boost);
    return 0;
}
static Thr* byHandle(pthread_t h) {
    for (int i = nthr - 1; i >= 0; i--)
        if (pthread_equal(thr[i]->handle, h)) return thr[i];
    return nullptr;
}
int pthread_join(pthread_t h, void** ret) {
    resolve();
    Thr* t = me();
    if (!t) return real_join(h, ret);
    pt(t, cfg.sync_boost);
    Thr* o = byHandle(h);
    if (!o) return ESRCH;
    if (o == t) return EDEADLK;
    if (o->state != DONE) {
        Wait w;
        w.reason = R_JOIN;
        w.obj = o;
        block(t, w);
    }
    real_join(h, ret);
    o->handle = 0;
    hmix(0x301 + o->id);
    pt(t, cfg.sync_boost);
    return 0;
}
int pthread_detach(pthread_t h) {
    resolve();
    Thr* t = me();
    if (t) {
        if (Thr* o = byHandle(h)) o->detached = true;
    }
    return real_detach(h);
}

// ---- mutex: state lives in the mutex itself
static inline bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    Thr* t = me();
    if (!t) return 0;
    pt(t, cfg.sync_boost);
    checkMem(m, true);
    if (m->__data.__owner == t->id + 1) {
        if (isRecursive(m)) {
            m->__data.__count++;
            return 0;
        }
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    while (m->__data.__owner != 0) {
        stats.contended++;
        Wait w;
        w.reason = R_MUTEX;
        w.obj = m;
        block(t, w);
        checkMem(m, true);
    }
    m->__data.__owner = t->id + 1;
    m->__data.__lock = 1;
    m->__data.__count = 1;
    hmix(0x10c + t->id * 257 + t->pts);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    Thr* t = me();
    if (!t) return 0;
    pt(t, cfg.sync_boost);
    checkMem(m, true);
    if (m->__data.__owner == t->id + 1 && isRecursive(m)) {
        m->__data.__count++;
        return 0;
    }
    if (m->__data.__owner != 0) return EBUSY;
    m->__data.__owner = t->id + 1;
    m->__data.__lock = 1;
    m->__data.__count = 1;
    hmix(0x10d + t->id * 257 + t->pts);
    return 0;
}
static void mutexRelease(pthread_mutex_t* m) {
    m->__data.__owner = 0;
    m->__data.__lock = 0;
    m->__data.__count = 0;
    for (int i = 0; i < nthr; i++)
        for (Wait* w = thr[i]->w; w; w = w->outer)
            if (w->reason == R_MUTEX && w->obj == m && w->woke == W_NONE) wakeWait(thr[i], w, W_SIGNALLED);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    Thr* t = me();
    if (!t) return 0;
    checkMem(m, true);
    if (m->__data.__owner != t->id + 1) {
        // releasing somebody else's mutex is undefined behaviour
        VIOL(TAG_UAF, "thread " + std::to_string(t->id) + " unlocks a mutex it does not hold");
    }
    if (isRecursive(m) && m->__data.__count > 1) {
        m->__data.__count--;
        return 0;
    }
    mutexRelease(m);
    hmix(0x11c + t->id * 257 + t->pts);
    pt(t, cfg.sync_boost);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* abs) {
    Thr* t = me();
    if (!t) return 0;
    pt(t, cfg.sync_boost);
    while (m->__data.__owner != 0) {
        Wait w;
        w.reason = R_MUTEX;
        w.obj = m;
        w.deadline = tsNs(abs) - (WALL_BASE + g_wall);
        w.wall = true;
        if (w.deadline < 0) w.deadline = 0;
        block(t, w);
        if (w.woke == W_TIMEOUT) return ETIMEDOUT;
    }
    m->__data.__owner = t->id + 1;
    m->__data.__lock = 1;
    m->__data.__count = 1;
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        m->__data.__kind = k;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    Thr* t = me();
    if (t && m->__data.__owner) VIOL(TAG_UAF, "a locked mutex is destroyed");
    return 0;
}

// ---- condition variables: waiters are found by scanning the threads
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, bool wall) {
    Thr* t = me();
    if (!t) {
        if (!self && !g_active) abort();
        return 0;
    }
    pt(t, cfg.sync_boost);
    checkMem(c, true);
    stats.cond_waits++;
    if (m->__data.__owner != t->id + 1)
        VIOL(TAG_UAF, "condition wait without holding its mutex by thread " + std::to_string(t->id));
    Wait w;
    w.reason = R_COND;
    w.obj = c;
    w.deadline = deadline < 0 ? -1 : deadline;
    w.wall = wall;
    hmix(0xc0d + t->id * 257 + t->pts);
    mutexRelease(m);
    if (deadline >= 0 && deadline <= g_now) {
        w.woke = W_TIMEOUT;
        pt(t, cfg.sync_boost);
    } else {
        block(t, w);
    }
    if (w.woke == W_TIMEOUT) stats.timeouts++;
    // reacquire
    checkMem(m, true);
    while (m->__data.__owner != 0) {
        stats.contended++;
        Wait w2;
        w2.reason = R_MUTEX;
        w2.obj = m;
        block(t, w2);
    }
    m->__data.__owner = t->id + 1;
    m->__data.__lock = 1;
    m->__data.__count = 1;
    hmix(0xc1d + t->id * 257 + w.woke);
    return w.woke == W_TIMEOUT ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, -1, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs) {
    bool mono = (c->__data.__wrefs & 2) != 0;  // set by pthread_cond_init with a monotonic clock attribute
    int64_t d = tsNs(abs) - (mono ? MONO_BASE : WALL_BASE + g_wall);
    return condWait(c, m, d < 0 ? 0 : d, !mono);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* abs) {
    bool mono = clk != CLOCK_REALTIME;
    int64_t d = tsNs(abs) - (mono ? MONO_BASE : WALL_BASE + g_wall);
    return condWait(c, m, d < 0 ? 0 : d, !mono);
}
static int collectWaiters(pthread_cond_t* c, Thr** ts, Wait** ws) {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        for (Wait* w = thr[i]->w; w; w = w->outer)
            if (w->reason == R_COND && w->obj == c && w->woke == W_NONE) {
                ts[n] = thr[i];
                ws[n++] = w;
            }
    for (int i = 1; i < n; i++)  // by arrival
        for (int j = i; j > 0 && ws[j]->order < ws[j - 1]->order; j--) {
            std::swap(ws[j], ws[j - 1]);
            std::swap(ts[j], ts[j - 1]);
        }
    return n;
}
int pthread_cond_signal(pthread_cond_t* c) {
    Thr* t = me();
    if (!t) return 0;
    pt(t, cfg.sync_boost);
    checkMem(c, true);
    Thr* ts[MAXT];
    Wait* ws[MAXT];
    int n = collectWaiters(c, ts, ws);
    stats.notifies++;
    if (!n) stats.notify_nobody++;
    if (n) {
        int k = 0;
        if (n > 1) {
            t->pts++;
            int64_t a;
            if (replaying) {
                if (planned(t, D_WAKE, a) && a >= 0 && a < n) k = (int)a;
            } else if (!g_quiet) {
                k = (int)g_rng.below(n);
                if (k) record(t, D_WAKE, k);
            }
        }
        wakeWait(ts[k], ws[k], W_SIGNALLED);
    }
    hmix(0x516 + t->id * 257 + t->pts + n);
    pt(t, cfg.sync_boost);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    Thr* t = me();
    if (!t) return 0;
    pt(t, cfg.sync_boost);
    checkMem(c, true);
    Thr* ts[MAXT];
    Wait* ws[MAXT];
    int n = collectWaiters(c, ts, ws);
    stats.notifies++;
    if (!n) stats.notify_nobody++;
    for (int i = 0; i < n; i++) wakeWait(ts[i], ws[i], W_SIGNALLED);
    hmix(0xb0ca + t->id * 257 + t->pts + n);
    pt(t, cfg.sync_boost);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    memset(c, 0, sizeof *c);
    if (a) {
        clockid_t k = CLOCK_REALTIME;
        pthread_condattr_getclock(a, &k);
        if (k == CLOCK_MONOTONIC) c->__data.__wrefs |= 2;
    }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    Thr* t = me();
    if (t) {
        Thr* ts[MAXT];
        Wait* ws[MAXT];
        if (collectWaiters(c, ts, ws)) VIOL(TAG_UAF, "a condition variable is destroyed while a thread waits on it");
    }
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    // 0 = fresh, 1 = running, 2 = done
    Thr* t = me();
    volatile int* v = (volatile int*)o;
    if (*v == 2) return 0;
    if (!t) {
        fn();
        *v = 2;
        return 0;
    }
    while (*v == 1) sleep_ns(1000);
    if (*v == 2) return 0;
    *v = 1;
    fn();
    *v = 2;
    return 0;
}

// ---- reader/writer locks (used by toolkits only): one big exclusive lock
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rwLock(pthread_rwlock_t* l, bool wr) {
    Thr* t = me();
    if (!t) return 0;
    pt(t, cfg.sync_boost);
    // __readers = number of readers, __cur_writer = writer tid+1
    while (l->__data.__cur_writer != 0 || (wr && l->__data.__readers != 0)) {
        Wait w;
        w.reason = R_MUTEX;
        w.obj = l;
        block(t, w);
    }
    if (wr) l->__data.__cur_writer = t->id + 1;
    else l->__data.__readers++;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwLock(l, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwLock(l, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!me()) return 0;
    if (l->__data.__cur_writer) return EBUSY;
    return rwLock(l, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!me()) return 0;
    if (l->__data.__cur_writer || l->__data.__readers) return EBUSY;
    return rwLock(l, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    Thr* t = me();
    if (!t) return 0;
    if (l->__data.__cur_writer == t->id + 1) l->__data.__cur_writer = 0;
    else if (l->__data.__readers) l->__data.__readers--;
    for (int i = 0; i < nthr; i++)
        for (Wait* w = thr[i]->w; w; w = w->outer)
            if (w->reason == R_MUTEX && w->obj == l && w->woke == W_NONE) wakeWait(thr[i], w, W_SIGNALLED);
    pt(t, cfg.sync_boost);
    return 0;
}

// ---- signal masks of simulated threads
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
    Thr* t = me();
    if (!t) return (int)-raw(SYS_rt_sigprocmask, how, (long)set, (long)old, 8);
    if (old) *old = t->mask;
    if (set) {
        pt(t, 1);
        if (how == SIG_BLOCK) {
            for (int s = 1; s < 64; s++)
                if (sigismember(set, s) == 1) sigaddset(&t->mask, s);
        } else if (how == SIG_UNBLOCK) {
            for (int s = 1; s < 64; s++)
                if (sigismember(set, s) == 1) sigdelset(&t->mask, s);
        } else {
            t->mask = *set;
        }
        pt(t, cfg.sync_boost);  // pending signals are delivered here
    }
    return 0;
}
int sigprocmask(int how, const sigset_t* set, sigset_t* old) { return pthread_sigmask(how, set, old); }

// ---- time
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!self || !g_active) return raw(SYS_clock_gettime, c, (long)ts) ? -1 : 0;
    if (Thr* t = me()) pt(t, 1);
    int64_t n = clockNow(c);
    if (c == CLOCK_MONOTONIC) self->clockRead = g_now;
    ts->tv_sec = n / 1000000000ll;
    ts->tv_nsec = n % 1000000000ll;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* out) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
    if (!me()) return raw(SYS_nanosleep, (long)req, (long)rem) ? -1 : 0;
    sleep_ns(tsNs(req));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* req, struct timespec* rem) {
    if (!me()) return (int)-raw(SYS_clock_nanosleep, c, flags, (long)req, (long)rem);
    int64_t d = tsNs(req);
    if (flags & TIMER_ABSTIME) d -= clockNow(c);
    sleep_ns(d);
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
int sched_yield() {
    if (Thr* t = me()) {
        Wait w;
        w.reason = R_SLEEP;
        w.deadline = g_now + 1;
        block(t, w);
        return 0;
    }
    return (int)raw(SYS_sched_yield);
}

// ---- futex through syscall(2): libstdc++ static-initialisation guards, GLib and Qt mutexes
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    Thr* t = me();
    if (n == SYS_futex && t) {
        int op = (int)b & 127;
        op &= ~FUTEX_PRIVATE_FLAG;
        op &= ~FUTEX_CLOCK_REALTIME;
        int* addr = (int*)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            pt(t, cfg.sync_boost);
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)c) {
                errno = EAGAIN;
                return -1;
            }
            Wait w;
            w.reason = R_FUTEX;
            w.obj = addr;
            const struct timespec* ts = (const struct timespec*)d;
            if (ts) {
                if (op == FUTEX_WAIT) w.deadline = g_now + tsNs(ts);
                else w.deadline = tsNs(ts) - ((b & FUTEX_CLOCK_REALTIME) ? WALL_BASE + g_wall : MONO_BASE);
                if (w.deadline < 0) w.deadline = 0;
            }
            block(t, w);
            if (w.woke == W_TIMEOUT) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int cnt = 0, max = (int)c;
            while (cnt < max) {
                Thr* bt = nullptr;
                Wait* bw = nullptr;
                for (int i = 0; i < nthr; i++)
                    for (Wait* w = thr[i]->w; w; w = w->outer)
                        if (w->reason == R_FUTEX && w->obj == addr && w->woke == W_NONE && (!bw || w->order < bw->order)) {
                            bt = thr[i];
                            bw = w;
                        }
                if (!bw) break;
                wakeWait(bt, bw, W_SIGNALLED);
                cnt++;
            }
            pt(t, cfg.sync_boost);
            return cnt;
        }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ---- descriptors
static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
static int pollImpl(struct pollfd* fds, nfds_t n, int64_t timeoutNs) {
    Thr* t = me();
    pt(t, cfg.sync_boost);
    struct timespec z = {0, 0};
    long r = raw(SYS_ppoll, (long)fds, n, (long)&z, 0, 8);
    if (r != 0 || timeoutNs == 0) return (int)ret(r);
    Wait w;
    w.reason = R_POLL;
    w.fds = fds;
    w.nfds = (int)n;
    w.deadline = timeoutNs < 0 ? -1 : g_now + timeoutNs;
    block(t, w);
    r = raw(SYS_ppoll, (long)fds, n, (long)&z, 0, 8);
    return (int)ret(r);
}
int poll(struct pollfd* fds, nfds_t n, int timeout) {
    if (!me()) {
        struct timespec ts = {timeout / 1000, (timeout % 1000) * 1000000l};
        return (int)ret(raw(SYS_ppoll, (long)fds, n, timeout < 0 ? 0 : (long)&ts, 0, 8));
    }
    return pollImpl(fds, n, timeout < 0 ? -1 : (int64_t)timeout * 1000000);
}
int ppoll(struct pollfd* fds, nfds_t n, const struct timespec* ts, const sigset_t* m) {
    if (!me()) return (int)ret(raw(SYS_ppoll, (long)fds, n, (long)ts, (long)m, 8));
    return pollImpl(fds, n, ts ? tsNs(ts) : -1);
}

}  // extern "C"

namespace sim {
// scenarios may take over file output (C20): returns true if handled
bool (*fd_write_hook)(int fd, const void* buf, size_t n, long* out) = nullptr;
int pipe_cap = 0;
// a pipe holds pipe_cap bytes only. Returns true if the write fails (descriptors which do not block)
static bool pipeFull(Thr* t, int fd) {
    struct stat st;
    if (!pipe_cap || fstat(fd, &st) != 0 || !S_ISFIFO(st.st_mode)) return false;
    int n = 0;
    for (;;) {
        if (raw(SYS_ioctl, fd, FIONREAD, (long)&n) < 0 || n < pipe_cap) return false;
        stats.pipe_full++;
        if (raw(SYS_fcntl, fd, F_GETFL) & O_NONBLOCK) {
            errno = EAGAIN;
            return true;
        }
        Wait w;
        w.reason = R_POLL;
        w.deadline = g_now + 200000;
        block(t, w);
    }
}
static void waitFd(Thr* t, int fd, short ev) {
    for (;;) {
        struct pollfd p = {fd, ev, 0};
        struct timespec z = {0, 0};
        if (raw(SYS_ppoll, (long)&p, 1, (long)&z, 0, 8) != 0) return;
        if (raw(SYS_fcntl, fd, F_GETFL) & O_NONBLOCK) return;
        Wait w;
        w.reason = R_POLL;
        w.fds = &p;
        w.nfds = 1;
        block(t, w);
    }
}
}  // namespace sim

extern "C" {
ssize_t write(int fd, const void* buf, size_t n) {
    Thr* t = me();
    if (!t) return ret(raw(SYS_write, fd, (long)buf, n));
    pt(t, cfg.sync_boost);
    ssize_t o;
    if (fd_write_hook && fd_write_hook(fd, buf, n, &o)) {
        pt(t, cfg.sync_boost);
        return o;
    }
    if (pipeFull(t, fd)) return -1;
    waitFd(t, fd, POLLOUT);
    ssize_t r = ret(raw(SYS_write, fd, (long)buf, n));
    if (r < 0 && errno == EBADF && fd >= 0) VIOL(TAG_UAF, "write to a closed file descriptor by thread " + std::to_string(t->id));
    checkPollers();
    pt(t, cfg.sync_boost);
    return r;
}
int eventfd_write(int fd, uint64_t v) { return write(fd, &v, sizeof v) == (ssize_t)sizeof v ? 0 : -1; }
ssize_t writev(int fd, const struct iovec* v, int n) {
    Thr* t = me();
    if (!t) return ret(raw(SYS_writev, fd, (long)v, n));
    pt(t, cfg.sync_boost);
    if (fd_write_hook) {
        ssize_t tot = 0, o;
        for (int i = 0; i < n; i++) {
            if (!v[i].iov_len) continue;
            if (!fd_write_hook(fd, v[i].iov_base, v[i].iov_len, &o)) goto realv;
            if (o < 0) return tot ? tot : o;
            tot += o;
            if ((size_t)o < v[i].iov_len) return tot;
        }
        return tot;
    }
realv:
    if (pipeFull(t, fd)) return -1;
    waitFd(t, fd, POLLOUT);
    ssize_t r = ret(raw(SYS_writev, fd, (long)v, n));
    checkPollers();
    pt(t, cfg.sync_boost);
    return r;
}
ssize_t read(int fd, void* buf, size_t n) {
    Thr* t = me();
    if (!t) return ret(raw(SYS_read, fd, (long)buf, n));
    pt(t, cfg.sync_boost);
    waitFd(t, fd, POLLIN);
    ssize_t r = ret(raw(SYS_read, fd, (long)buf, n));
    checkPollers();
    pt(t, cfg.sync_boost);
    return r;
}
int close(int fd) {
    Thr* t = me();
    if (t) pt(t, cfg.sync_boost);
    long r = raw(SYS_close, fd);
    checkPollers();
    return (int)ret(r);
}

// =================================================================== memory access callbacks
#define ACC(p, wr)                                                        \
    do {                                                                  \
        Thr* t = self;                                                    \
        if (!t || t->in_rt || !g_active) return;                          \
        uintptr_t a_ = (uintptr_t)(p);                                    \
        if (a_ - t->stk_lo < t->stk_hi - t->stk_lo) return;               \
        pt(t, 1);                                                         \
        checkMem((const void*)a_, wr);                                    \
    } while (0)

void __tsan_init() {}
void __tsan_func_entry(void*) {
    if (Thr* t = self) {
        if (t->depth < PCDEPTH && t->depth >= 0) t->pcs[t->depth] = __builtin_return_address(0);
        t->depth++;
    }
}
void __tsan_func_exit() {
    if (Thr* t = self)
        if (t->depth > 0) t->depth--;
}
#define RW(n)                                              \
    void __tsan_read##n(void* p) { ACC(p, false); }        \
    void __tsan_write##n(void* p) { ACC(p, true); }        \
    void __tsan_unaligned_read##n(void* p) { ACC(p, false); } \
    void __tsan_unaligned_write##n(void* p) { ACC(p, true); } \
    void __tsan_volatile_read##n(void* p) { ACC(p, false); }  \
    void __tsan_volatile_write##n(void* p) { ACC(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { ACC(p, true); }
void __tsan_vptr_read(void** p) { ACC(p, false); }
void __tsan_read_range(void* p, size_t n) {
    if (n) {
        ACC(p, false);
        checkMem((char*)p + n - 1, false);
    }
}
void __tsan_write_range(void* p, size_t n) {
    if (n) {
        ACC(p, true);
        checkMem((char*)p + n - 1, true);
    }
}

static inline void atomicPoint(const volatile void* p) {
    Thr* t = me();
    if (!t) return;
    pt(t, cfg.sync_boost);
    checkMem((const void*)p, true);
    hmix(0xa70 + t->id * 257 + t->pts);
}
#define ATOM(bits, T)                                                                                                  \
    T __tsan_atomic##bits##_load(const volatile T* a, int) {                                                           \
        atomicPoint(a);                                                                                                \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                                        \
        atomicPoint(a);                                                                                                \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                                        \
        atomicPoint(a);                                                                                                \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                                                       \
        atomicPoint(a);                                                                                                \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                                                       \
        atomicPoint(a);                                                                                                \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                                                       \
        atomicPoint(a);                                                                                                \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                                        \
        atomicPoint(a);                                                                                                \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                                                       \
        atomicPoint(a);                                                                                                \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) {                                                      \
        atomicPoint(a);                                                                                                \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                            \
        atomicPoint(a);                                                                                                \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                              \
        atomicPoint(a);                                                                                                \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                                  \
        atomicPoint(a);                                                                                                \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return c;                                                                                                      \
    }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { atomicPoint(&g_steps); }
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
