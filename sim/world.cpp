#include "world.h"

#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fstream>
#include <algorithm>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <map>
#include <mutex>
#include <thread>
#include <tuple>

using namespace hsmcpp;

namespace w {

History hist;
std::string scratchDir = "/tmp";
const char* probeNames[40] = {"external events processed", "transitions taken", "events rejected", "sync calls answered true",
    "sync calls answered false", "sync calls timed out", "events discarded by clear", "interrupt events accepted",
    "interrupt events refused (queue full)", "raw timer expiries", "timer events processed", "enqueued actions run", "exits vetoed",
    "entries vetoed", "history restored", "history default taken", "final events raised", "final blocked by siblings",
    "parallel reactions", "automatic entries", "internal self transitions", "external self transitions", "state actions run",
    "releases with work pending", "machines deleted", "dispatcher stopped with work pending", "initialisations concurrent with clients",
    "possible: true", "possible: false", "timer running: true", "timer running: false", "log records checked",
    "interrupts inside library code", "machine histories replayed on the model", "failed-transition callbacks",
    "actions that overtook events", "log I/O faults", "events discarded by release/stop", "runs cut off (legally endless)"};

const char* opName(int k) {
    static const char* n[] = {"send", "send-sync", "send-clear", "send-clear-sync", "interrupt-safe", "enqueue-action", "start-timer",
        "restart-timer", "stop-timer", "query-timer", "raw-start-timer", "raw-restart-timer", "raw-stop-timer", "raw-query-timer", "sleep",
        "spin", "wait-initialised", "initialise", "release", "delete", "stop-dispatcher", "drop-dispatcher", "register-handler",
        "register-timer-handler", "wait-idle", "quiet", "possible?", "log-off", "log-on", "check", "poll", "register-raw", "unregister-raw",
        "stop-all-timers", "drop-dispatcher-in-callback"};
    return k >= 0 && k < OP_NKINDS ? n[k] : "?";
}

// ------------------------------------------------------------------ world state
struct Mach;
class Hsm : public HierarchicalStateMachine {
public:
    Hsm(int initial, int i) : HierarchicalStateMachine(initial), idx(i) {}
    const int idx;
    std::string getStateName(const StateID_t s) const override { return s == INVALID_HSM_STATE_ID ? std::string() : "m" + std::to_string(idx) + "s" + std::to_string(s); }
    std::string getEventName(const EventID_t e) const override { return e == INVALID_HSM_EVENT_ID ? std::string() : "m" + std::to_string(idx) + "e" + std::to_string(e); }
};
struct Mach {
    int idx = 0;
    const Spec* spec = nullptr;
    Hsm* hsm = nullptr;
    bool gone = false, built = false, initReturned = false;
    int initTid = -1;   // initialize() may be used by other threads only after it returned
    bool usable() const { return hsm && !gone && (initReturned || initTid == sim::tid()); }
    int users = 0;
    int open = 0;   // callbacks in progress
    std::vector<int> enterCalls, exitCalls;
    std::map<std::pair<int, int>, int> calls;
    std::string logPath;
    std::weak_ptr<char> held;   // expires with the last callback the machine was given
};
struct Disp {
    std::shared_ptr<IHsmEventDispatcher> d;
    std::weak_ptr<IHsmEventDispatcher> weak;
    void* object = nullptr;
    int tid = -1;   // its thread, once seen
    bool gone = false;
    int users = 0;  // threads inside a call on it
};
static const Plan* P;
static const std::set<int>* MASK;
static std::vector<Mach*> M;
static std::vector<Disp> D;
static std::vector<int> rawHandler;
static int g_seq = 1, g_inst = 0, g_nirqs = 0;
static std::map<std::tuple<int, int, int, int>, const Script*> scripts;
static std::map<std::pair<int, int>, int> rawCalls;
static std::vector<std::vector<int>> ctxStack(256);
static int rec(Rec&& r);
static std::shared_ptr<char> actionToken, handlerToken;   // shared by everything dispatchers were given
static void handlerCalled(int d, int inst, int kind, int which) {
    {
        sim::Internal in;
        Rec r;
        r.type = R_HB;
        r.m = d;
        r.inst = inst;
        r.kind = kind;
        r.timer = which;
        rec(std::move(r));
    }
    sim::point();
}

static int ctxTop() {
    int t = sim::tid();
    return t >= 0 && !ctxStack[t].empty() ? ctxStack[t].back() : -1;
}
static int rec(Rec&& r) {
    sim::progress(r.type == R_B);
    r.tid = sim::tid();
    r.t = sim::now();
    r.steps = sim::steps();
    r.inSig = sim::in_interrupt();
    r.ctx = ctxTop();
    if (hist.r.size() > 12000) sim::violation("ENDLESS", "");
    hist.r.push_back(std::move(r));
    if (sim::tracing) {
        const Rec& x = hist.r.back();
        int i = (int)hist.r.size() - 1;
        switch (x.type) {
            case R_B: sim::trace("#%d machine %d: %s %d args seq %d%s", i, x.m, kindName(x.kind), x.a, x.seq, x.veto ? " REFUSES" : ""); break;
            case R_INV: sim::trace("#%d call %s op%d m%d ev%d seq%d timer%d %dms%s", i, opName(x.kind), x.op, x.m, x.ev, x.seq, x.timer, x.ms, x.single ? " single" : ""); break;
            case R_RET: sim::trace("#%d return %s op%d -> %ld", i, opName(x.kind), x.op, x.res); break;
            case R_RAWB: sim::trace("#%d raw timer %d fires", i, x.timer); break;
            case R_ACTB: sim::trace("#%d action of op%d runs", i, x.op); break;
            default: break;
        }
    }
    return (int)hist.r.size() - 1;
}
static void execOps(const std::vector<Op>& ops);

struct UserCode {   // marks the calling thread as executing user code
    UserCode(int recIdx) {
        sim::set_busy(1);
        sim::Internal in;
        ctxStack[sim::tid()].push_back(recIdx);
    }
    ~UserCode() {
        sim::Internal in;
        ctxStack[sim::tid()].pop_back();
        sim::set_busy(-1);
    }
};

static uint64_t hashArgs(const VariantVector_t& a, int& seq, int& flags) {
    std::vector<int> v;
    seq = -1;
    flags = 0;
    if (a.size() == 4 && a[3].isString()) {
        seq = (int)a[0].toInt64();
        flags = (int)a[1].toInt64();
        v = {seq, flags, (int)a[2].toInt64(), a[3].toString() == "k" + std::to_string(seq) ? -77 : 1};
    } else {
        for (auto& x : a) v.push_back((int)x.toInt64());
    }
    return argHashInts(v);
}

static bool callback(Mach* m, int kind, int obj, const VariantVector_t* args, const std::list<StateID_t>* failed, bool veto) {
    const Script* sc = nullptr;
    int idx;
    {
        sim::Internal in;
        Rec r;
        r.type = R_B;
        r.m = m->idx;
        r.kind = kind;
        r.a = obj;
        r.veto = veto;
        r.depth = m->open++;
        if (args) r.argh = hashArgs(*args, r.seq, r.flags);
        if (m->hsm) {
            const auto& act = failed ? *failed : m->hsm->getActiveStates();
            r.active.assign(act.begin(), act.end());
            std::sort(r.active.begin(), r.active.end());
            r.last = m->hsm->getLastActiveState();
        }
        int nth = m->calls[{kind, obj}]++;
        auto it = scripts.find({m->idx, kind, obj, nth});
        if (it != scripts.end()) sc = it->second;
        idx = rec(std::move(r));
        if (m->initReturned) D[P->mach[m->idx].disp].tid = sim::tid();
    }
    {
        UserCode u(idx);
        sim::point();
        if (sc) execOps(sc->ops);
        sim::point();
    }
    {
        sim::Internal in;
        m->open--;
        Rec r;
        r.type = R_E;
        r.m = m->idx;
        r.kind = kind;
        r.a = obj;
        r.op = idx;
        rec(std::move(r));
    }
    return !veto;
}
static bool rawTimer(int raw, TimerID_t timer) {
    const Script* sc = nullptr;
    int idx;
    {
        sim::Internal in;
        Rec r;
        r.type = R_RAWB;
        r.m = raw;
        r.res = (long)sim::lastClockRead();
        r.timer = (int)timer;
        int nth = rawCalls[{raw, (int)timer}]++;
        auto it = scripts.find({raw, SK_RAW, (int)timer, nth});
        if (it != scripts.end()) sc = it->second;
        idx = rec(std::move(r));
    }
    {
        UserCode u(idx);
        sim::point();
        if (sc) execOps(sc->ops);
        sim::point();
    }
    {
        sim::Internal in;
        Rec r;
        r.type = R_RAWE;
        r.m = raw;
        r.timer = (int)timer;
        r.op = idx;
        rec(std::move(r));
    }
    return true;
}

static bool condVal(const VariantVector_t& a, int bit) {
    sim::Internal in;
    return a.size() == 4 && a[3].isString() && (((int)a[1].toInt64() >> bit) & 1);
}

static void build(Mach* m) {
    sim::NoPoints np;
    const Spec& s = *m->spec;
    Hsm* h = new Hsm(s.initial, m->idx);
    {
        sim::Internal in;
        m->hsm = h;
        m->enterCalls.assign(s.states.size(), 0);
        m->exitCalls.assign(s.states.size(), 0);
    }
    for (auto& st : s.states) {
        if (st.history) continue;
        HsmStateChangedCallback_t ch;
        HsmStateEnterCallback_t en;
        HsmStateExitCallback_t ex;
        const SState* p = &st;
        if (st.hasChanged) ch = [m, p](const VariantVector_t& a) { callback(m, K_CHANGED, p->id, &a, nullptr, false); };
        if (st.hasEnter)
            en = [m, p](const VariantVector_t& a) {
                int n = m->enterCalls[p->id]++;
                bool veto = std::find(p->enterVeto.begin(), p->enterVeto.end(), n) != p->enterVeto.end();
                return callback(m, K_ENTER, p->id, &a, nullptr, veto);
            };
        if (st.hasExit)
            ex = [m, p]() {
                int n = m->exitCalls[p->id]++;
                bool veto = std::find(p->exitVeto.begin(), p->exitVeto.end(), n) != p->exitVeto.end();
                return callback(m, K_EXIT, p->id, nullptr, nullptr, veto);
            };
        if (st.final_) h->registerFinalState(st.id, st.finEvent == NONE ? INVALID_HSM_EVENT_ID : st.finEvent, ch, en, ex);
        else h->registerState(st.id, ch, en, ex);
    }
    // entry points first in declaration order, then the remaining substates
    std::set<int> done;
    for (auto& e : s.entries) {
        HsmTransitionConditionCallback_t c;
        int bit = e.cond;
        if (bit >= 0) c = [bit](const VariantVector_t& a) { return condVal(a, bit); };
        h->registerSubstateEntryPoint(e.parent, e.state, e.onEvent == NONE ? INVALID_HSM_EVENT_ID : e.onEvent, c, e.expect);
        sim::Internal in;
        done.insert(e.state);
    }
    for (auto& st : s.states)
        if (st.parent >= 0 && !done.count(st.id)) h->registerSubstate(st.parent, st.id);
    for (auto& hi : s.hists) {
        HsmTransitionCallback_t cb;
        int id = hi.id;
        if (hi.cb) cb = [m, id](const VariantVector_t& a) { callback(m, K_HISTDEF, id, &a, nullptr, false); };
        h->registerHistory(hi.parent, hi.id, hi.deep ? HistoryType::DEEP : HistoryType::SHALLOW,
                           hi.def == NONE ? INVALID_HSM_STATE_ID : hi.def, cb);
    }
    for (auto& t : s.trans) {
        int id = t.id, bit = t.cond;
        HsmTransitionCallback_t cb = [m, id](const VariantVector_t& a) { callback(m, K_TRANS, id, &a, nullptr, false); };
        HsmTransitionConditionCallback_t c;
        if (bit >= 0) c = [bit](const VariantVector_t& a) { return condVal(a, bit); };
        if (t.self)
            h->registerSelfTransition(t.from, t.ev, t.internal ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION, cb, c, t.expect);
        else
            h->registerTransition(t.from, t.to, t.ev, cb, c, t.expect);
    }
    for (auto& t : s.timers) h->registerTimer(t.id, t.ev);
    for (auto& a : s.acts) {
        auto tr = a.onEntry ? StateActionTrigger::ON_STATE_ENTRY : StateActionTrigger::ON_STATE_EXIT;
        switch (a.type) {
            case A_START: h->registerStateAction(a.state, tr, StateAction::START_TIMER, a.timer, a.interval, a.single); break;
            case A_STOP: h->registerStateAction(a.state, tr, StateAction::STOP_TIMER, a.timer); break;
            case A_RESTART: h->registerStateAction(a.state, tr, StateAction::RESTART_TIMER, a.timer); break;
            default:
                if (a.extra.empty()) h->registerStateAction(a.state, tr, StateAction::TRANSITION, a.ev);
                else if (a.extra.size() == 1) h->registerStateAction(a.state, tr, StateAction::TRANSITION, a.ev, a.extra[0]);
                else h->registerStateAction(a.state, tr, StateAction::TRANSITION, a.ev, a.extra[0], a.extra[1]);
        }
    }
    auto token = std::make_shared<char>('m');
    {
        sim::Internal in;
        m->held = token;
    }
    h->registerFailedTransitionCallback([m, token](const std::list<StateID_t>& st, const EventID_t ev, const VariantVector_t& a) {
        callback(m, K_FAIL, ev, &a, &st, false);
    });
    sim::Internal in;
    m->built = true;
}

static void logOn(Mach* m, int op) {
    int inst;
    {
        sim::Internal in;
        inst = g_inst++;
        Rec r;
        r.type = R_INV;
        r.kind = OP_LOGON;
        r.m = m->idx;
        r.op = op;
        r.inst = inst;
        rec(std::move(r));
    }
    bool res = m->hsm->enableHsmDebugging(m->logPath);
    sim::Internal in;
    Rec r;
    r.type = R_RET;
    r.kind = OP_LOGON;
    r.m = m->idx;
    r.op = op;
    r.inst = inst;
    r.res = res;
    rec(std::move(r));
}
// the disk: writes of log files may be short, interrupted or fail
static bool diskWrite(int fd, const void* buf, size_t n, long* out) {
    struct stat st;
    if (fd <= 2 || fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) return false;
    if (sim::tracing) sim::trace("write %d bytes to file %d", (int)n, fd);
    if (sim::fault_site(11)) {
        errno = EINTR;
        *out = -1;
        return true;
    }
    if (n > 1 && sim::fault_site(12)) {
        long w = syscall(SYS_write, fd, buf, n / 2);
        *out = w;
        return true;
    }
    if (P->ioHard && sim::fault_site(13)) {
        hist.ioHard = hist.ioHard < 0 ? (int)hist.r.size() : hist.ioHard;
        errno = P->ioHard == 1 ? ENOSPC : EIO;
        *out = -1;
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ operations
struct Use {   // a thread other than the machine's own callbacks uses the machine object
    Mach* m;
    bool ok;
    explicit Use(Mach* x) : m(x) {
        ok = m->usable();
        if (ok) m->users++;
    }
    ~Use() {
        if (ok) m->users--;
    }
};
struct DUse {   // the same for a dispatcher
    int i;
    std::shared_ptr<IHsmEventDispatcher> d;
    explicit DUse(int x) : i(x) {
        if (D[i].gone) return;
        d = D[i].weak.lock();
        if (d) D[i].users++;
    }
    ~DUse() {
        bool had = !!d;
        d.reset();
        if (had) D[i].users--;
    }
    explicit operator bool() const { return !!d; }
    IHsmEventDispatcher* operator->() const { return d.get(); }
};
static void waitFor(const std::function<bool()>& f) {
    while (!f()) sim::sleep_ns(50000);
}
static void execOp(const Op& o);
// runs f where dispatcher d lives
static void onLoop(int d, const std::function<void()>& f) {
    if (!backend.loop || sim::tid() == D[d].tid) {
        f();
        return;
    }
    bool done = false;
    const std::function<void()>* pf = &f;
    bool* pd = &done;
    backend.post(d, [pf, pd] {
        (*pf)();
        *pd = true;
    });
    waitFor([pd] { return *pd; });
}
// the last reference to a dispatcher is dropped by one of its own callbacks (or by this thread, if that does not happen in time)
static void handOff(const Op& o, const std::function<void(bool)>& inv) {
    struct Last {
        std::shared_ptr<IHsmEventDispatcher> d;
        bool callerDone = false;
    };
    Last* last;
    void* object = D[o.m].object;
    {
        sim::Internal in;
        last = new Last;
    }
    last->d = std::move(D[o.m].d);
    IHsmEventDispatcher* d = last->d.get();
    auto drop = [last] {
        std::shared_ptr<IHsmEventDispatcher> x;
        for (int i = 0; i < 200 && !last->callerDone; i++) sim::sleep_ns(50000);
        {
            sim::NoPoints np;
            x = std::move(last->d);
        }
        x.reset();
    };
    onLoop(o.m, [&] {
        auto keep = last->d;
        inv(false);
        switch (o.flags) {
            case 1: d->emitEvent(d->registerEventHandler([drop] { drop(); return true; })); break;
            case 2: d->startTimer(d->registerTimerHandler([drop](const TimerID_t) { drop(); return true; }), 9999, (unsigned)o.ms, o.single); break;
            case 3: d->enqueueEvent(d->registerEnqueuedEventHandler([drop](const EventID_t) { drop(); return true; }), 1); break;
            default: d->enqueueAction(drop);
        }
        if (o.timer) last->callerDone = true;
        keep.reset();
        last->callerDone = true;
    });
    for (int i = 0; i < 200 && !sim::heap_dead(object); i++) sim::sleep_ns(1000000);
    if (last->d)
        onLoop(o.m, [&] {
            std::shared_ptr<IHsmEventDispatcher> x;
            {
                sim::NoPoints np;
                x = std::move(last->d);
            }
            x.reset();
        });
    sim::Internal in;
    if (!last->d) return;
}
static void stopAllTimers();
// ---- polled dispatchers: a sketch's loop()
static sim::Rng pollRng(1);
static int64_t pollGap = 1000000;
int64_t countdownMs = -1;
static void pollOnce(int d) {
    if (D[d].gone || !D[d].d) return;
    Poll q;
    q.d = d;
    q.t0 = sim::now();
    q.i0 = hist.r.size();
    if (sim::tracing) sim::trace("poll of dispatcher %d", d);
    backend.poll(d);
    sim::Internal in;
    q.t1 = sim::now();
    q.i1 = hist.r.size();
    hist.polls.push_back(q);
}
static void pollAll() {
    int first = (int)pollRng.below(D.size());
    for (size_t i = 0; i < D.size(); i++) pollOnce((int)((first + i) % D.size()));
}
static void pollSleep(int64_t ns) {
    int64_t end = sim::now() + ns;
    do {
        pollAll();
        int64_t g = 1000 + (int64_t)pollRng.below(std::max(pollGap, ns / 20));
        if (sim::now() < end) sim::sleep_ns(std::min(g, end - sim::now()));
    } while (sim::now() < end);
}
static bool onBoard() { return backend.polled && !sim::in_interrupt() && ctxTop() < 0; }
static bool waitIdle(bool stopTimers) {   // true: nothing happened for a long time
    size_t last = 0;
    int stable = 0;
    for (int i = 0; i < 40 && stable < 3; i++) {
        if (stopTimers) stopAllTimers();
        size_t before = hist.r.size();
        int64_t t0 = sim::now();
        if (backend.polled) {
            pollSleep(60000000);
            if (hist.r.size() == before && (stopTimers || before == last)) stable++;
            else stable = 0;
            last = hist.r.size();
            continue;
        }
        sim::sleep_ns(60000000);
        // nothing was recorded although nobody was stalled
        if (hist.r.size() == before && sim::idle_between(t0, sim::now()) > 55000000 && (stopTimers || before == last)) stable++;
        else stable = 0;
        last = hist.r.size();
    }
    return stable >= 3;
}
static void execOps(const std::vector<Op>& ops) {
    for (auto& o : ops)
        if (!MASK->count(o.id)) execOp(o);
}
static VariantVector_t makeArgs(int seq, int flags) {
    VariantVector_t v;
    v.reserve(4);
    v.emplace_back(seq);
    v.emplace_back(flags);
    v.emplace_back(static_cast<int64_t>(seq * 31 + flags));
    v.emplace_back("k" + std::to_string(seq));
    return v;
}
static void execOp(const Op& o) {
    if (o.k == OP_SLEEP && onBoard()) {
        pollSleep((int64_t)o.ms * 1000);
        return;
    }
    if (o.k == OP_SLEEP) {
        sim::sleep_ns((int64_t)o.ms * 1000);
        return;
    }
    if (o.k == OP_SPIN) {
        for (int i = 0; i < o.ms; i++) sim::point();
        return;
    }
    Mach* m = nullptr;
    if (o.m >= 0 && o.m < (int)M.size()) m = M[o.m];
    int inst, seq = -1, retTimer = -1;
    uint64_t wid = 0;
    auto inv = [&](bool needSeq) {
        sim::Internal in;
        inst = g_inst++;
        if (needSeq) seq = g_seq++;
        Rec r;
        r.type = R_INV;
        r.m = o.m;
        r.kind = o.k;
        r.op = o.id;
        r.inst = inst;
        r.seq = seq;
        r.ev = o.ev;
        r.flags = o.flags;
        r.timer = o.timer;
        r.ms = (o.k == OP_SYNC || o.k == OP_CLEARSYNC) ? o.timeout : o.ms;
        r.single = o.single;
        rec(std::move(r));
    };
    auto ret = [&](long res) {
        sim::Internal in;
        Rec r;
        r.type = R_RET;
        r.m = o.m;
        r.kind = o.k;
        r.op = o.id;
        r.inst = inst;
        r.res = res;
        r.timer = retTimer >= 0 ? retTimer : o.timer;
        if (o.k == OP_ACTION) r.dwait = sim::in_wait(D[o.m].tid);
        if (o.k == OP_INT) r.dwait = wid && wid == sim::wait_id(D[P->mach[o.m].disp].tid);   // nobody woke it
        rec(std::move(r));
    };
    switch (o.k) {
        case OP_SEND:
        case OP_SYNC:
        case OP_CLEAR:
        case OP_CLEARSYNC: {
            Use u(m);
            if (!u.ok) return;
            inv(true);
            bool sync = o.k == OP_SYNC || o.k == OP_CLEARSYNC, clear = o.k == OP_CLEAR || o.k == OP_CLEARSYNC;
            if (clear) sim::progress(true);   // takes the longer the more events there are
            VariantVector_t a;
            {
                sim::NoPoints np;
                a = makeArgs(seq, o.flags);
            }
            bool r = true;
            if (!sync && !clear) {
                if ((seq & 1) && m->initReturned) m->hsm->transitionWithArgsArray(o.ev, std::move(a));
                else r = m->hsm->transitionExWithArgsArray(o.ev, false, false, 0, std::move(a));
            } else {
                r = m->hsm->transitionExWithArgsArray(o.ev, clear, sync, o.timeout, std::move(a));
            }
            ret(r);
            return;
        }
        case OP_INT: {
            Use u(m);
            if (!u.ok) return;
            inv(false);
            wid = sim::wait_id(D[P->mach[o.m].disp].tid);
            ret(m->hsm->transitionInterruptSafe(o.ev));
            return;
        }
        case OP_ACTION: {
            DUse d(o.m);
            if (!d) return;
            inv(false);
            const Op* op = &o;
            auto token = actionToken;
            d->enqueueAction([op, inst, token]() {
                int idx;
                {
                    sim::Internal in;
                    Rec r;
                    r.type = R_ACTB;
                    r.m = op->m;
                    r.op = op->id;
                    r.inst = inst;
                    idx = rec(std::move(r));
                    D[op->m].tid = sim::tid();
                }
                {
                    UserCode uc(idx);
                    sim::point();
                    execOps(op->body);
                }
                sim::Internal in;
                Rec r;
                r.type = R_ACTE;
                r.m = op->m;
                r.op = op->id;
                r.inst = inst;
                rec(std::move(r));
            });
            ret(0);
            return;
        }
        case OP_TSTART:
        case OP_TRESTART:
        case OP_TSTOP:
        case OP_TQUERY: {
            Use u(m);
            if (!u.ok) return;
            inv(false);
            long r = 0;
            if (o.k == OP_TSTART) m->hsm->startTimer(o.timer, o.ms, o.single);
            else if (o.k == OP_TRESTART) m->hsm->restartTimer(o.timer);
            else if (o.k == OP_TSTOP) m->hsm->stopTimer(o.timer);
            else r = m->hsm->isTimerRunning(o.timer);
            ret(r);
            return;
        }
        case OP_RSTART:
        case OP_RRESTART:
        case OP_RSTOP:
        case OP_RQUERY: {
            DUse d(P->raws[o.m].disp);
            if (!d || rawHandler[o.m] <= 0) return;
            inv(false);
            long r = 0;
            if (o.k == OP_RSTART) d->startTimer(rawHandler[o.m], o.timer, o.ms, o.single);
            else if (o.k == OP_RRESTART) d->restartTimer(o.timer);
            else if (o.k == OP_RSTOP) d->stopTimer(o.timer);
            else r = d->isTimerRunning(o.timer);
            ret(r);
            return;
        }
        case OP_WAITINIT: {
            // bounded: the initialising operation may have been masked away
            for (int i = 0; i < 200; i++) {
                if (m->gone) return;
                if (m->hsm && m->built) {
                    Use u(m);
                    if (u.ok && m->hsm->isInitialized()) return;
                }
                sim::sleep_ns(20000);
            }
            return;
        }
        case OP_INIT: {
            DUse d(P->mach[o.m].disp);
            if (!d || m->hsm || m->gone) return;
            onLoop(P->mach[o.m].disp, [&] {
                m->initTid = sim::tid();
                build(m);
                if (P->mach[o.m].log) logOn(m, o.id);
                inv(false);
                bool r = m->hsm->initialize(D[P->mach[o.m].disp].weak);
                m->initReturned = true;
                ret(r);
            });
            return;
        }
        case OP_RELEASE: {
            Use u(m);
            if (!u.ok) return;
            onLoop(P->mach[o.m].disp, [&] {
                inv(false);
                m->hsm->release();
                ret(0);
            });
            return;
        }
        case OP_DELETE: {
            if (!m->hsm || m->gone) return;
            if (!m->usable()) waitFor([m] { return m->initReturned; });
            if (m->gone) return;
            m->gone = true;
            int d = P->mach[o.m].disp;
            onLoop(d, [&] {
                inv(false);
                if (m->users > 0) m->hsm->release();
            });
            waitFor([m] { return m->users == 0; });
            onLoop(d, [&] {
                Hsm* h = m->hsm;
                delete h;
                m->hsm = nullptr;
                ret(0);
            });
            return;
        }
        case OP_DSTOP: {
            DUse d(o.m);
            if (!d) return;
            onLoop(o.m, [&] {
                inv(false);
                d->stop();
                ret(0);
            });
            return;
        }
        case OP_HANDOFF:
        case OP_DDROP: {
            if (!D[o.m].d) return;
            D[o.m].gone = true;
            for (int q = 0; q < g_nirqs; q++) sim::set_interrupt_budget(q, 0);
            waitFor([&o] { return D[o.m].users == 0; });
            for (auto* x : M)
                if (P->mach[x->idx].disp == o.m) waitFor([x] { return x->users == 0; });
            if (o.k == OP_HANDOFF && !backend.polled) {
                handOff(o, inv);
                ret(0);
                return;
            }
            onLoop(o.m, [&] {
                inv(false);
                D[o.m].d.reset();
                ret(0);
            });
            return;
        }
        case OP_REGH: {
            DUse d(o.m);
            if (!d) return;
            inv(false);
            auto token = handlerToken;
            int dd = o.m, kind = o.flags, n = o.timer, accepted = 0;
            auto onEvent = [dd, inst, kind, token]() { handlerCalled(dd, inst, kind, 1); return true; };
            auto onEnqueued = [dd, inst, kind, token](const EventID_t e) { handlerCalled(dd, inst, kind, e == 77 ? 1 : 2); return true; };
            int h = 0;
            switch (kind) {
                case 1:   // stays
                    h = d->registerEventHandler(onEvent);
                    for (int i = 0; i < n; i++) d->emitEvent(h);
                    accepted = n;
                    break;
                case 2:   // nothing is emitted while it is registered
                    h = d->registerEventHandler(onEvent);
                    d->unregisterEventHandler(h);
                    for (int i = 0; i < n; i++) d->emitEvent(h);
                    break;
                case 3:
                    h = d->registerEnqueuedEventHandler(onEnqueued);
                    for (int i = 0; i < n; i++) accepted += d->enqueueEvent(h, 77);
                    break;
                case 4:
                    h = d->registerEnqueuedEventHandler(onEnqueued);
                    d->unregisterEnqueuedEventHandler(h);
                    for (int i = 0; i < n; i++) d->enqueueEvent(h, 77);
                    break;
                default:
                    h = d->registerEventHandler([dd, inst, token]() { sim::point(); return true; });
                    d->emitEvent(h);
                    d->unregisterEventHandler(h);
            }
            retTimer = accepted;
            ret(h);
            return;
        }
        case OP_REGT: {
            DUse d(o.m);
            if (!d) return;
            inv(false);
            auto token = handlerToken;
            int dd = o.m, kind = o.flags, t = 9000 + inst, h = 0, running = 0;
            auto make = [dd, inst, kind, token](int which) {
                return [dd, inst, kind, token, which](const TimerID_t) { handlerCalled(dd, inst, kind, which); return true; };
            };
            switch (kind) {
                case 1:   // stays
                    h = d->registerTimerHandler(make(1));
                    d->startTimer(h, t, (unsigned)o.ms, true);
                    break;
                case 2:   // nothing is started while it is registered
                    h = d->registerTimerHandler(make(1));
                    d->unregisterTimerHandler(h);
                    d->startTimer(h, t, (unsigned)o.ms, true);
                    running = d->isTimerRunning(t);
                    break;
                case 3:   // stopped with its handler
                    h = d->registerTimerHandler(make(1));
                    d->startTimer(h, t, (unsigned)o.ms, o.single);
                    for (int i = 0; i < o.timer; i++) sim::point();
                    d->unregisterTimerHandler(h);
                    running = d->isTimerRunning(t);
                    break;
                case 4: {   // taken over by another handler
                    h = d->registerTimerHandler(make(1));
                    int h2 = d->registerTimerHandler(make(2));
                    d->startTimer(h, t, (unsigned)o.ms, o.single);
                    for (int i = 0; i < o.timer; i++) sim::point();
                    d->startTimer(h2, t, (unsigned)o.ms, true);
                    break;
                }
                case 5:   // without an interval
                    h = d->registerTimerHandler(make(1));
                    d->startTimer(h, t, 0, o.single);
                    running = d->isTimerRunning(t);
                    break;
                default:
                    h = d->registerTimerHandler([token](const TimerID_t) { sim::point(); return true; });
                    d->unregisterTimerHandler(h);
            }
            retTimer = running;
            ret(h);
            return;
        }
        case OP_REGRAW: {
            DUse d(P->raws[o.m].disp);
            if (!d || rawHandler[o.m] > 0) return;
            int raw = o.m;
            rawHandler[raw] = d->registerTimerHandler([raw](const TimerID_t t) { return rawTimer(raw, t); });
            return;
        }
        case OP_UNREGRAW: {
            DUse d(P->raws[o.m].disp);
            if (!d || rawHandler[o.m] <= 0) return;
            inv(false);
            d->unregisterTimerHandler(rawHandler[o.m]);
            ret(0);
            return;
        }
        case OP_QUIET: {
            sim::Internal in;
            Rec r;
            r.type = R_QUIET;
            rec(std::move(r));
            sim::quiet();
            return;
        }
        case OP_IDLE: {
            if (!waitIdle(o.flags != 0)) return;
            sim::Internal in;
            Rec r;
            r.type = R_IDLE;
            rec(std::move(r));
            return;
        }
        case OP_CHECK: {
            Use u(m);
            if (!u.ok) return;
            sim::Internal in;
            Rec r;
            r.type = R_ACTIVE;
            r.m = o.m;
            const auto& act = m->hsm->getActiveStates();
            r.active.assign(act.begin(), act.end());
            std::sort(r.active.begin(), r.active.end());
            r.last = m->hsm->getLastActiveState();
            for (int s : r.active) r.res += m->hsm->isStateActive(s);
            r.ev = m->hsm->isInitialized();
            rec(std::move(r));
            return;
        }
        case OP_POSSIBLE: {
            Use u(m);
            if (!u.ok) return;
            inv(true);
            bool r;
            if (o.single) {   // without arguments
                r = m->hsm->isTransitionPossible(o.ev);
            } else {
                r = m->hsm->isTransitionPossible(o.ev, seq, o.flags, static_cast<int64_t>(seq * 31 + o.flags), "k" + std::to_string(seq));
            }
            ret(r);
            return;
        }
        case OP_LOGOFF: {
            Use u(m);
            if (!u.ok) return;
            inv(false);
            m->hsm->disableHsmDebugging();
            ret(0);
            return;
        }
        case OP_LOGON: {   // by a callback of the machine itself only
            Use u(m);
            int c = ctxTop();
            if (!u.ok || !P->mach[o.m].log || c < 0 || hist.r[c].type != R_B || hist.r[c].m != o.m) return;
            logOn(m, o.id);
            return;
        }
        case OP_ALLTSTOP: stopAllTimers(); return;
        case OP_POLL:
        default: return;
    }
}

// stop every timer of every machine and raw handler (main thread, before the drain)
static void stopAllTimers() {
    for (auto* x : M) {
        Use u(x);
        if (!u.ok || !x->hsm->isInitialized()) continue;
        for (auto& t : x->spec->timers) {
            Op s;
            s.k = OP_TSTOP;
            s.m = x->idx;
            s.timer = t.id;
            s.id = -1;
            execOp(s);
        }
    }
    for (size_t i = 0; i < rawHandler.size(); i++)
        for (int k = 0; k < 3; k++) {
            Op s;
            s.k = OP_RSTOP;
            s.m = (int)i;
            s.timer = P->raws[i].firstTimer + k;
            s.id = -1;
            execOp(s);
        }
}

// the clients of a polled dispatcher are activities of one loop(), interleaved with polls
static void runBoard(const Plan& p) {
    struct Fiber { const std::vector<Op>* ops; size_t pc = 0; int64_t wake = 0; int tries = 0; };
    std::vector<Fiber> f;
    for (auto& c : p.clients) f.push_back({&c});
    f.push_back({&p.parallel});
    int busy = pollRng.range(1, 3);
    Fiber* last = nullptr;   // null: a poll
    auto turn = [&](Fiber* x) {
        if (x != last) sim::note_switch(x ? (uint64_t)(x - f.data()) : 99);
        last = x;
    };
    for (;;) {
        std::vector<Fiber*> ready;
        bool any = false;
        for (auto& x : f) {
            if (x.pc >= x.ops->size()) continue;
            any = true;
            if (x.wake <= sim::now()) ready.push_back(&x);
        }
        if (!any) break;
        if (ready.empty() || pollRng.below(3 + busy) < 2) {
            turn(nullptr);
            if (pollRng.chance(3, 4)) pollAll();
            else pollOnce((int)pollRng.below(D.size()));
            if (ready.empty() || pollRng.chance(1, 4)) sim::sleep_ns(1000 + (int64_t)pollRng.below(pollGap));
            continue;
        }
        Fiber& x = *ready[pollRng.below(ready.size())];
        const Op& o = (*x.ops)[x.pc];
        if (MASK->count(o.id)) {
            x.pc++;
        } else if (o.k == OP_SLEEP) {
            x.wake = sim::now() + (int64_t)o.ms * 1000;
            x.pc++;
        } else if (o.k == OP_WAITINIT) {
            Mach* m = M[o.m];
            bool done = m->gone || ++x.tries > 200;
            if (!done && m->hsm && m->built) {
                Use u(m);
                done = u.ok && m->hsm->isInitialized();
            }
            if (done) x.pc++, x.tries = 0;
            else x.wake = sim::now() + 20000;
        } else {
            turn(&x);
            execOp(o);
            x.pc++;
        }
    }
}

// ------------------------------------------------------------------ a run
std::vector<Verdict> runPlan(const Plan& p, const std::set<int>& mask, uint64_t schedSeed, Probes& pr) {
    P = &p;
    MASK = &mask;
    sim::cfg = p.cfg;
    hist.r.reserve(1 << 12);
    for (size_t i = 0; i < p.specs.size(); i++) {
        Mach* m = new Mach();
        m->idx = (int)i;
        m->spec = &p.specs[i];
        // relative: the directory must not influence the run
        m->logPath = p.mach[i].log == 3 ? "missing/m.hsmlog" : p.mach[i].log == 2 ? "shared.hsmlog" : "m" + std::to_string(i) + ".hsmlog";
        if (p.mach[i].log) {
            if (chdir(scratchDir.c_str()) != 0) abort();
            remove(m->logPath.c_str());
            sim::fd_write_hook = diskWrite;
        }
        M.push_back(m);
    }
    rawHandler.assign(p.raws.size(), 0);
    for (auto& s : p.scripts) scripts[{s.m, s.kind, s.obj, s.nth}] = &s;
    sim::start(schedSeed);
    if (backend.polled) {
        sim::set_busy(1);   // nothing ever happens by itself: lateness is counted in polls
        pollRng.reseed(p.wseed * 77 + 5);
        static const int64_t gaps[] = {20000, 300000, 1500000, 6000000, 15000000};
        pollGap = gaps[pollRng.below(5)];
        countdownMs = pollRng.chance(1, 3) ? (int64_t)pollRng.below(60) : -1;
    }
    actionToken = std::make_shared<char>('a');
    handlerToken = std::make_shared<char>('h');
    D.resize(p.cache.size());
    if (backend.openLoops) backend.openLoops((int)p.cache.size(), p.wseed);
    for (size_t i = 0; i < p.cache.size(); i++)
        onLoop((int)i, [&] {
            {
                sim::NoPoints np;
                D[i].d = backend.create(p.cache[i], (int)i);
            }
            D[i].weak = D[i].d;
            D[i].object = dynamic_cast<void*>(D[i].d.get());
            if (backend.loop) D[i].tid = sim::tid();
        });
    for (auto& q : p.irqs) {
        if (mask.count(q.opid)) continue;
        const Irq* iq = &q;
        g_nirqs++;
        sim::add_interrupt(
            [iq]() {
                Mach* m = M[iq->m];
                for (int i = 0; i < iq->burst; i++) {
                    Use u(m);
                    if (!u.ok || !m->initReturned) return;
                    int inst;
                    {
                        sim::Internal in;
                        inst = g_inst++;
                        Rec r;
                        r.type = R_INV;
                        r.kind = OP_INT;
                        r.m = iq->m;
                        r.ev = iq->ev;
                        r.op = iq->opid;
                        r.inst = inst;
                        rec(std::move(r));
                    }
                    uint64_t wid = sim::wait_id(D[P->mach[iq->m].disp].tid);
                    bool res = m->hsm->transitionInterruptSafe(iq->ev);
                    sim::Internal in;
                    Rec r;
                    r.dwait = wid && wid == sim::wait_id(D[P->mach[iq->m].disp].tid);
                    r.type = R_RET;
                    r.kind = OP_INT;
                    r.m = iq->m;
                    r.op = iq->opid;
                    r.inst = inst;
                    r.res = res;
                    rec(std::move(r));
                }
            },
            q.count, q.notBefore);
    }
    execOps(p.setup);
    if (backend.polled) {
        runBoard(p);
    } else {
        std::vector<std::thread> th;
        std::mutex mx;
        std::condition_variable cv;
        size_t done = 0;
        th.reserve(p.clients.size());
        for (auto& c : p.clients)
            th.emplace_back([&c, &mx, &cv, &done] {
                execOps(c);
                std::lock_guard<std::mutex> l(mx);
                done++;
                cv.notify_all();
            });
        execOps(p.parallel);
        {
            std::unique_lock<std::mutex> l(mx);
            if (!cv.wait_for(l, std::chrono::seconds(20), [&] { return done == p.clients.size(); })) {
                sim::quiet();
                if (!cv.wait_for(l, std::chrono::seconds(60), [&] { return done == p.clients.size(); }))
                    sim::violation(TAG_HANG, "a client call does not return" + sim::blocked_report());
            }
        }
        for (auto& t : th) t.join();
    }
    execOps(p.finale);
    if (backend.closeLoops) backend.closeLoops();
    // a thread may delete its own dispatcher right before it ends: that is the last thing it does
    for (int i = 0; i < 400 && backend.polled == false && sim::threads_alive() != 1; i++) {
        if (i == 20) sim::quiet();
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    if (backend.polled == false && sim::threads_alive() != 1)
        sim::violation("C10", "threads created by the dispatcher are still alive after it was deleted" + sim::blocked_report());
    bool allGone = true;
    for (size_t i = 0; i < D.size(); i++) {
        allGone = allGone && D[i].gone;
        if (D[i].gone && !sim::heap_dead(D[i].object)) sim::violation("C10", "dispatcher " + std::to_string(i) + " was dropped, but never deleted");
    }
    if (allGone && actionToken.use_count() > 1) sim::violation("C10", std::to_string(actionToken.use_count() - 1) + " actions were never destroyed, although the dispatchers were deleted");
    if (allGone && handlerToken.use_count() > 1) sim::violation("C10", "handlers were never destroyed, although the dispatchers were deleted");
    for (auto* m : M)
        if (allGone && m->built && m->gone && !m->hsm && !m->held.expired())
            sim::violation("C09", "machine " + std::to_string(m->idx) + " was deleted, but the callbacks it had been given were not: its memory is never released");
    sim::finish();
    for (size_t i = 0; i <= M.size(); i++) {
        std::string t;
        bool used = i < M.size() ? p.mach[i].log == 1 : false;
        for (auto& x : p.mach) used = used || (i == M.size() && x.log == 2);
        if (used) {
            std::ifstream f(i < M.size() ? M[i]->logPath : "shared.hsmlog", std::ios::binary);
            t.assign(std::istreambuf_iterator<char>(f), {});
        }
        hist.logs.push_back(t);
    }
    hist.complete = true;
    return judge(p, hist, pr);
}

// ------------------------------------------------------------------ printing
static void printOps(std::string& o, const std::vector<Op>& ops, const std::set<int>& mask, const std::string& ind) {
    char b[256];
    for (auto& x : ops) {
        if (mask.count(x.id)) continue;
        snprintf(b, sizeof b, "%sop%d %s m%d", ind.c_str(), x.id, opName(x.k), x.m);
        o += b;
        switch (x.k) {
            case OP_SEND: case OP_CLEAR: snprintf(b, sizeof b, " event %d flags %d", x.ev, x.flags); break;
            case OP_SYNC: case OP_CLEARSYNC: snprintf(b, sizeof b, " event %d flags %d timeout %d", x.ev, x.flags, x.timeout); break;
            case OP_INT: snprintf(b, sizeof b, " event %d", x.ev); break;
            case OP_TSTART: case OP_RSTART: snprintf(b, sizeof b, " timer %d %d ms %s", x.timer, x.ms, x.single ? "single" : "repeating"); break;
            case OP_TSTOP: case OP_TRESTART: case OP_TQUERY: case OP_RSTOP: case OP_RRESTART: case OP_RQUERY: snprintf(b, sizeof b, " timer %d", x.timer); break;
            case OP_REGH: snprintf(b, sizeof b, " variant %d, %d emissions", x.flags, x.timer); break;
            case OP_REGT: snprintf(b, sizeof b, " variant %d, %d ms %s", x.flags, x.ms, x.single ? "single" : "repeating"); break;
            case OP_HANDOFF: snprintf(b, sizeof b, " variant %d%s", x.flags, x.timer ? " early" : ""); break;
            case OP_SLEEP: snprintf(b, sizeof b, " %d us", x.ms); break;
            case OP_SPIN: snprintf(b, sizeof b, " %d points", x.ms); break;
            case OP_POSSIBLE: snprintf(b, sizeof b, " event %d flags %d%s", x.ev, x.flags, x.single ? " (no arguments)" : ""); break;
            default: b[0] = 0;
        }
        o += b;
        o += "\n";
        if (!x.body.empty()) printOps(o, x.body, mask, ind + "    ");
    }
}
std::string Plan::describe(const std::set<int>& mask) const {
    std::string o = "profile " + profile + "\n";
    for (size_t i = 0; i < specs.size(); i++) o += "machine " + std::to_string(i) + " on dispatcher " + std::to_string(mach[i].disp) + "\n" + specs[i].describe();
    o += "main, before the clients:\n";
    printOps(o, setup, mask, "  ");
    for (size_t i = 0; i < clients.size(); i++) {
        std::string s;
        printOps(s, clients[i], mask, "  ");
        if (!s.empty()) o += "client " + std::to_string(i) + ":\n" + s;
    }
    o += "main, in parallel:\n";
    printOps(o, parallel, mask, "  ");
    o += "main, afterwards:\n";
    printOps(o, finale, mask, "  ");
    for (auto& s : scripts) {
        std::string t;
        printOps(t, s.ops, mask, "  ");
        if (!t.empty()) o += "in call " + std::to_string(s.nth) + " of machine " + std::to_string(s.m) + " " + (s.kind == SK_RAW ? "raw timer" : kindName(s.kind)) + " " + std::to_string(s.obj) + ":\n" + t;
    }
    for (auto& q : irqs)
        if (!mask.count(q.opid))
            o += "interrupt op" + std::to_string(q.opid) + ": machine " + std::to_string(q.m) + " event " + std::to_string(q.ev) + " up to " + std::to_string(q.count) + " times, burst " + std::to_string(q.burst) + "\n";
    return o;
}

}  // namespace w
