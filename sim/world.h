// Workloads on the real library, driven through its public interface inside the simulator, and the recorded history.
#pragma once
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "hsmcpp/IHsmEventDispatcher.hpp"
#include "hsmcpp/hsm.hpp"
#include "rt.h"
#include "spec.h"

namespace w {

enum OpKind {
    OP_SEND, OP_SYNC, OP_CLEAR, OP_CLEARSYNC, OP_INT, OP_ACTION,
    OP_TSTART, OP_TRESTART, OP_TSTOP, OP_TQUERY,          // timers of a machine
    OP_RSTART, OP_RRESTART, OP_RSTOP, OP_RQUERY,          // timers of a raw dispatcher timer handler
    OP_SLEEP, OP_SPIN, OP_WAITINIT,
    OP_INIT, OP_RELEASE, OP_DELETE, OP_DSTOP, OP_DDROP,
    OP_REGH, OP_REGT, OP_IDLE, OP_QUIET, OP_POSSIBLE, OP_LOGOFF, OP_LOGON, OP_CHECK, OP_POLL, OP_REGRAW, OP_UNREGRAW, OP_ALLTSTOP,
    OP_HANDOFF,
    OP_NKINDS
};
const char* opName(int k);
struct Op {
    int id = 0;
    OpKind k = OP_SPIN;
    int m = 0;            // machine, dispatcher (DSTOP, DDROP, REGH) or raw handler index
    int ev = 0, flags = 0;
    int timeout = 0;
    int timer = 0;
    int ms = 0;           // interval (ms), sleep (us), spin (points)
    bool single = false;
    std::vector<Op> body;
};
struct Script { int m, kind, obj, nth; std::vector<Op> ops; };   // kind: RecKind or SK_RAW
constexpr int SK_RAW = 50;
struct Irq { int opid; int m, ev; int count; uint64_t notBefore; int burst; };
struct MachPlan { int disp = 0; int log = 0; };   // 1: its own log file, 2: one file shared by machines, 3: a file that cannot be opened
struct RawTimer { int disp = 0; int firstTimer = 0; };

struct Plan {
    std::string profile;
    uint64_t wseed = 0;
    std::vector<Spec> specs;
    std::vector<MachPlan> mach;
    std::vector<int> cache;                 // per dispatcher: size of the interrupt event queue
    std::vector<RawTimer> raws;
    std::vector<Op> setup;                  // main thread, before the clients start
    std::vector<std::vector<Op>> clients;
    std::vector<Op> parallel;               // main thread, while the clients run
    std::vector<Op> finale;                 // main thread, when the clients are done
    std::vector<Script> scripts;
    std::vector<Irq> irqs;
    sim::Config cfg;
    int ioHard = 0;                         // writes of the log may fail for good: 1 disk full, 2 I/O error
    bool expectAll = true;                  // the run drains with everything alive: completeness can be judged
    int opCount = 0;
    std::string describe(const std::set<int>& mask) const;
};

// ---- history
enum RecType { R_B, R_E, R_INV, R_RET, R_RAWB, R_RAWE, R_ACTB, R_ACTE, R_IRQB, R_IRQE, R_QUIET, R_ACTIVE, R_IDLE, R_HB };
struct Rec {
    int type = 0, tid = 0, m = -1;
    int kind = 0, a = 0;            // callbacks: RecKind and object; ops: OpKind and op id
    int seq = -1, ev = NONE, flags = 0;
    uint64_t argh = 0;
    bool veto = false;
    int depth = 0;                  // callbacks of this machine already open when this one began
    long res = 0;
    int op = -1, inst = -1;         // op instance
    int timer = 0, ms = 0;
    bool single = false;
    bool inSig = false;
    bool dwait = false;             // the dispatcher's thread was waiting for work at this moment
    int ctx = -1;                   // index of the enclosing R_B / R_ACTB / R_RAWB record on the same thread
    int64_t t = 0;
    uint64_t steps = 0;
    std::vector<int> active;
    int last = NONE;
};
struct Poll { int d; int64_t t0, t1; size_t i0, i1; };
struct History {
    std::vector<Rec> r;
    bool complete = false;
    std::vector<std::string> logs;   // contents of the log files: one per machine, then the shared one
    std::vector<Poll> polls;         // polled dispatchers: every completed poll
    int ioHard = -1;                 // index of the record after which a write failed for good
};
extern History hist;

struct Verdict { std::string tag, msg; };
struct Probes { uint64_t n[40] = {}; };
extern const char* probeNames[40];
enum { PB_EVENTS, PB_TRANS, PB_FAILED, PB_SYNC_TRUE, PB_SYNC_FALSE, PB_SYNC_TIMEOUT, PB_DROPPED, PB_INT_OK, PB_INT_FULL, PB_RAW_EXPIRY,
       PB_TIMER_EVENT, PB_ACTIONS, PB_VETO_EXIT, PB_VETO_ENTER, PB_HIST_RESTORE, PB_HIST_DEFAULT, PB_FINAL, PB_FINAL_BLOCKED,
       PB_PARALLEL, PB_ENTRY, PB_SELF_INT, PB_SELF_EXT, PB_STATE_ACT, PB_RELEASED_BUSY, PB_DELETED, PB_DSTOP_BUSY, PB_INIT_CONC,
       PB_POSSIBLE_T, PB_POSSIBLE_F, PB_QUERY_T, PB_QUERY_F, PB_LOGREC, PB_INT_IN_LIB, PB_REPLAYED, PB_FAILCB, PB_ACT_OVERTAKE, PB_IOFAULT, PB_DISCARDED, PB_ENDLESS };

// one whole run: must be called in a fresh process. Returns all contradictions found in the history.
std::vector<Verdict> runPlan(const Plan& p, const std::set<int>& mask, uint64_t schedSeed, Probes& pr);
Plan genPlan(const std::string& profile, uint64_t seed);
std::vector<std::string> profileNames();
// what the debug log of a machine has to contain, in order; complete: nothing was left out at the end
struct LogWant { std::vector<LogExp> v; bool complete = true, valid = false; int end = 0; };
std::vector<Verdict> judgeLogs(const Plan& p, const History& h, std::vector<LogWant>& want, Probes& pr);
std::vector<Verdict> judgeEndless(const Plan& p, const History& h, Probes& pr);
std::vector<Verdict> judge(const Plan& p, const History& h, Probes& pr);

// backend: which dispatcher is under test
struct Backend {
    const char* name;
    std::shared_ptr<hsmcpp::IHsmEventDispatcher> (*create)(size_t cache, int index);
    bool polled;                             // no dispatcher thread: the main thread calls poll() again and again
    void (*poll)(int index);
    bool loop;                               // dispatchers live on event loops: everything but events, timers and actions happens there
    void (*openLoops)(int n, uint64_t seed); // starts the threads
    void (*post)(int index, std::function<void()> f);   // to the loop of a dispatcher
    void (*closeLoops)();                    // lets them finish what they have to do, and joins them
    int64_t slack;                           // what the toolkit's own timers add to a delay
    int earlyPct;                            // how much earlier than asked its timers may be
    bool noSignals;                          // interrupt handlers are not supported
    int64_t early;                           // resolution of its clock
    bool catchesUp;                          // an expiration that is handled late does not delay the following ones
};
extern Backend backend;
extern int64_t countdownMs;                  // polled: the millisecond counter overflows after this time (<0: does not)
extern std::string scratchDir;

}  // namespace w
