// Deterministic simulation runtime. One process = one run. Every thread of the system under test is a real
// pthread, but exactly one of them runs at a time: the one holding the baton. All scheduling, time, signals and
// faults are decided here, from one seeded PRNG or from a recorded decision tape.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- PRNG (xoshiro256**, seeded by splitmix64); a run has independent streams derived from the same seed
struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    void reseed(uint64_t seed);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(int num, int den) { return below(den) < static_cast<uint64_t>(num); }
};

// ---- decisions. Everything that is not the default is recorded on the tape; replay reads the tape instead of
// the PRNG. Keyed by (thread, how many points that thread has passed), so deleting one entry moves no other.
enum DecisionKind : char {
    D_SWITCH = 'S',    // preempt the running thread, run thread arg
    D_NEXT = 'N',      // running thread blocked; run thread arg (default: lowest id)
    D_WAKE = 'W',      // notify_one wakes the arg-th waiter (default: the first)
    D_SPURIOUS = 'U',  // spurious wakeup of condition waiter thread arg
    D_TIME = 'T',      // the clock advances by arg ns while the thread runs (slow execution)
    D_STALL = 'L',     // the running thread is stalled for arg ns
    D_LATE = 'J',      // an idle jump of the clock overshoots by arg ns (late wakeup)
    D_SIGNAL = 'I',    // deliver interrupt number arg to the running thread here
    D_BSIGNAL = 'B',   // deliver interrupt to a blocked thread (arg = irq*64 + thread)
    D_WALL = 'C',      // wall clock jumps by arg ms
    D_FAULT = 'F',     // injected failure of the call at this point, arg = fault code
};
struct Decision { int tid; uint64_t pt; char kind; int64_t arg; };

enum Policy { P_DEFAULT = 0, P_RANDOM = 1, P_PCT = 2, P_SYNC = 3 };

struct Config {                 // swarm configuration, drawn per run from the seed (or fixed by the profile)
    int policy = P_RANDOM;
    uint32_t preempt_every = 50;    // mean number of points between decisions (0 = never)
    uint32_t sync_boost = 4;        // how many ordinary points one synchronisation point weighs
    int pct_depth = 3;              // number of priority change points
    uint32_t pct_len = 3000;        // over how many points they are spread
    int64_t tick_ns = 200;          // virtual cost of one point
    // weights of the decision kinds at a decision point
    int w_switch = 100, w_time = 0, w_stall = 0, w_spurious = 0, w_signal = 0, w_bsignal = 0, w_wall = 0;
    int64_t time_max_ns = 5000000;
    int64_t stall_max_ns = 20000000;
    int late_pct = 0;               // % of idle jumps that overshoot
    int64_t late_max_ns = 3000000;
    int fault_pct = 0;              // % of fault sites that fail
    uint64_t max_steps = 4000000;
};

extern Config cfg;
extern bool replaying;              // decisions come from the tape
extern std::vector<Decision> tape;  // replay: input; search: output

// copy of the tape in shared memory, so that it survives a crash of the run
struct TapeLog {
    static constexpr uint32_t CAP = 1 << 17;
    uint32_t n;
    Decision d[CAP];
};
extern TapeLog* tape_log;

// ---- life of a run
void start(uint64_t seed);          // the calling thread becomes simulated thread 0
void quiet();                       // no more injected decisions: default scheduling from here on (faults stopped)
void finish();                      // stop simulating (threads must be gone)
bool active();
bool quiesced();                    // quiet() was called

// ---- facts
int tid();                          // -1 outside
int64_t now();                      // virtual ns since start
int64_t lastClockRead();            // when this thread looked at the clock last
uint64_t steps();
int threads_alive();                // simulated threads not finished (incl. caller)
bool in_interrupt();
uint64_t sched_hash();              // hash of all synchronisation operations and switches so far
void note_switch(uint64_t what);    // the scenario switched between activities by itself (polled dispatchers)
uint64_t switches();
uint64_t contended();               // how often a thread blocked on a mutex
std::string blocked_report();
// nanoseconds between two moments in which no thread could run and none of them was stalled by the simulator or
// blocked inside a user callback: time nobody can blame on scheduling
int64_t idle_between(int64_t from, int64_t to);
uint64_t wait_id(int tid);              // identifies the condition wait that thread is in (not woken yet); 0: none
bool in_wait(int tid);                // that thread is inside a condition/poll wait and has not executed anything since
void set_busy(int delta);           // the calling thread runs user code (callback): its waits are not idle time
extern int pipe_cap;                 // bytes which fit into a pipe (0: as many as the kernel says)
extern bool (*fd_write_hook)(int fd, const void* buf, size_t n, long* out);

// ---- things scenarios do
void progress(bool heavy);          // something observable happened; heavy: it is the beginning of a callback of a machine
void point();                       // explicit preemption point
void sleep_ns(int64_t ns);
void drain(int64_t ns);             // sleep in quiet mode
int add_interrupt(std::function<void()> handler, int max_deliveries, uint64_t not_before_step = 0);
void set_interrupt_budget(int irq, int n);
int interrupt_remaining(int irq);
bool fault_site(int code);          // decides (and records) whether the call at this site fails

// ---- violations
// tags: the property this contradicts, e.g. "C04". Ends the run at once (the process exits through the runner).
[[noreturn]] void violation(const char* tag, const std::string& msg);
extern void (*on_violation)(const char* tag, const std::string& msg);

// generic oracles raised by the runtime use these tags; the runner maps them to the property being checked
#define TAG_HANG "HANG"
#define TAG_UAF "MEM"
#define TAG_LIVELOCK "LIVELOCK"
#define TAG_INT_ALLOC "INTALLOC"

// ---- statistics
struct Stats {
    uint64_t decisions = 0, switches = 0, preempts = 0, blocks = 0, spurious = 0, stalls = 0, time_adv = 0,
             late = 0, signals = 0, bsignals = 0, wall = 0, faults = 0, fault_sites = 0, idle_jumps = 0, contended = 0,
             threads = 0, allocs = 0, frees = 0, cond_waits = 0, notifies = 0, notify_nobody = 0, timeouts = 0, pipe_full = 0;
};
extern Stats stats;

void heap_init();
bool heap_dead(const void* p);      // freed block

// tracing for human-readable replays
extern bool tracing;
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct NoPoints {                   // scope in which the calling thread is never preempted (its heap is still tracked)
    NoPoints();
    ~NoPoints();
};

void no_points(int delta);          // the same without a scope

struct Internal {                   // scope in which runtime hooks are inert for this thread
    Internal();
    ~Internal();
};

}  // namespace sim
