// Generated machine structures and the reference statechart model. Pure code: no threads, no library.
#pragma once
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <string>
#include <vector>
#include "rt.h"

namespace w {

constexpr int NONE = -1000;          // "no event / no state", same convention as the library

struct SState {
    int id = 0, parent = -1;
    bool hasEnter = true, hasExit = true, hasChanged = true;
    bool composite = false, final_ = false, history = false;
    int finEvent = NONE;
    std::vector<int> enterVeto, exitVeto;   // the n-th call of the callback (0-based) refuses
    bool groupParallel = false;             // its children group can be active in parallel
};
struct STrans { int id, from, to, ev; bool self, internal; int cond; bool expect; };   // cond: bit of flags, -1 = none
struct SEntry { int parent, state, onEvent; int cond; bool expect; };
struct SHist { int parent, id; bool deep; int def; bool cb; };
enum ActType { A_START = 0, A_STOP = 1, A_RESTART = 2, A_TRANS = 3 };
struct SAct { int state; bool onEntry; int type; int timer; int interval; bool single; int ev; std::vector<int> extra; };
struct STimer { int id, ev; };

struct Spec {
    int initial = 0;
    std::vector<SState> states;             // index == id
    std::vector<STrans> trans;              // registration order
    std::vector<SEntry> entries;
    std::vector<SHist> hists;
    std::vector<SAct> acts;
    std::vector<STimer> timers;
    int nEvents = 6;                        // ordinary events 0..nEvents-1
    int nextEvent = 100;                    // special events (final, history, timers, interrupts, actions)
    std::vector<int> finEvents, histEvents, irqEvents, actEvents;
    bool anyVeto = false, anyPar = false;
    std::string describe() const;
};

struct GenCfg {
    int maxStates = 10, maxDepth = 3;
    int compositePct = 40, parPct = 20, condPct = 20, histPct = 30, finalPct = 25, selfPct = 15, vetoPct = 0, multiPct = 10,
        actPct = 0, missingCbPct = 5, entryEvPct = 15;
    int transPct = 60;
    int timers = 0, irqs = 0;
    int timerBase = 0;
};
Spec generate(sim::Rng& r, const GenCfg& g);

// ------------------------------------------------------------------ model
enum RecKind { K_ENTER, K_EXIT, K_CHANGED, K_TRANS, K_HISTDEF, K_FAIL, K_ACT /* silent marker: state action */ };
const char* kindName(int k);
struct Exp {
    int kind, a, b;      // a: state/transition/event id; b: action index for K_ACT
    int seq;             // args: sequence number (-1: no arguments)
    uint64_t argh = 0;   // hash of the arguments
    bool veto = false;
    std::vector<int> active;   // K_FAIL: states reported; others: active set at that moment (sorted)
};
// one record the debug log is expected to contain; cb: number of callbacks of the same step that come before it
enum LogKind { L_IDLE, L_TRANS, L_ENTRYTRANS, L_EXIT, L_ENTER, L_STATE, L_ONENTER, L_ONEXIT, L_NKINDS };
const char* logKindName(int k);
struct LogExp {
    int kind, from, to, ev;
    bool failed = false;
    bool hasArgs = false;
    int seq = -1, flags = 0;
    std::vector<int> extra;
    std::vector<int> active;
    int cb = 0;
    int after = -1, before = 0;   // history indices between which it must have been written
};
enum Status { ST_PENDING, ST_OK, ST_FAILED, ST_CANCELED };

struct MT { int from, to; bool internal; int trans; int histcb; };   // candidate transition
struct Ev {
    enum T { REG, ENTRY, FORCED } type = REG;
    int id = NONE;
    int seq = -1, flags = 0;
    std::vector<int> extra;
    bool hasArgs = false;
    std::vector<MT> forced;
    std::vector<int> left;          // states left by a transition into a history state
    bool ignoreEP = false;
    long chain = -1;       // which external event it belongs to
    bool raised = false;   // raised by a final state
    int born = -1;         // history index of the first record of the element that raised it
};

uint64_t argHash(const Ev* e);           // hash of the arguments an event carries
uint64_t argHashOwn(int seq, int flags);
uint64_t argHashInts(const std::vector<int>& v);

class Model {
public:
    explicit Model(const Spec* s) : sp(s) { enterCalls.resize(s->states.size()); exitCalls.resize(s->states.size()); build(); }
    const Spec* sp;
    std::vector<int> active;                 // order of activation
    std::deque<Ev> front;                    // internal continuations (and final-state events), next first
    std::vector<Exp> out;
    std::vector<LogExp> logs;                // of the same step
    bool merged = false;                     // a parallel merge or another corner happened in the last step
    // counters for reach probes
    struct Probe { long transitions = 0, vetoExit = 0, vetoEnter = 0, histRestore = 0, histDefault = 0, finals = 0, finalBlocked = 0,
                   parallelReact = 0, entry = 0, nestedEntry = 0, failed = 0, selfInt = 0, selfExt = 0, deepPar = 0; } probe;

    void startup();                          // initial state (synchronous part); may queue an ENTRY event in front
    Status process(const Ev& e);             // one queue element: fills out
    std::string lintMsg;                     // what is wrong with it, whatever the rules are
    bool possible(int ev, int flags, bool hasArgs) const;
    bool isActive(int s) const;
    bool isSubOf(int parent, int child) const;
    std::vector<int> activeSorted() const;
    int last() const { return active.empty() ? NONE : active.back(); }
    bool cond(int bit, bool expect, int flags, bool hasArgs) const;
    std::vector<int> entryPoints(int state, int ev, int flags, bool hasArgs) const;
    bool hasSubstates(int s) const { return !children[s].empty(); }

private:
    Status step(const Ev& e);
    void lint(const Ev& e, Status res, const std::vector<int>& before);
    std::vector<int> chainBefore;    // active when the event was taken
    std::vector<int> asked, reacted; // states which had a look at the event, and took it
    bool vetoed = false;             // anything ever
    int chainTargets = 0;            // targets it has
    std::vector<std::vector<int>> children;
    std::vector<std::vector<const SEntry*>> ep;
    std::map<int, std::vector<int>> hist;    // history state -> remembered states
    std::vector<int> enterCalls, exitCalls;
    void build();
    const SHist* histOf(int id) const;
    bool enter(int s, const Ev* e);
    bool exit(int s);
    void changed(int s, const Ev* e);
    void actions(int s, bool onEntry);
    void remove(int s);
    bool add(int s);
    bool findTargets(int from, const Ev& e, std::vector<MT>& o) const;
    bool targetEnterable(int dest, int ev, int flags, bool hasArgs) const;
    bool determine(int from, const Ev& e, std::vector<MT>& o) const;
    Status single(int from, const Ev& e, bool& attempted);
    void finals(const Ev& e, int to);
    Status external(const Ev& e, int from, const MT& t, const std::vector<int>& exited);
    void remember(int top, const std::vector<int>& exited);
    bool hasActiveNonFinal(int parent) const;
    void log(int kind, int from, int to, int ev = NONE, const Ev* e = nullptr, bool failed = false);
    void emit(int kind, int a, const Ev* e, bool veto = false);
};

}  // namespace w
