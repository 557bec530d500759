// Judges a recorded history: replay on the reference model, accounting, ordering, promptness, timers, life cycle.
#include <algorithm>
#include <climits>
#include <map>
#include <set>
#include "world.h"

namespace w {
namespace {

constexpr int64_t MS = 1000000;
const int64_t SLACK = 1200000 + backend.slack;     // idle time nobody has to explain
// an interrupt handler may not lock, so its wake-up can get lost if the dispatcher is about to wait; it then looks again
// after 100 ms. Where the dispatcher was waiting all along, the handler must have woken it.
const int64_t IRQ_POLL = 101200000 + backend.slack;
constexpr int64_t EARLY = 20000;        // resolution of timers
constexpr int INF = INT_MAX;
constexpr int64_t TINF = INT64_MAX / 4;

struct OpI {
    int kind = 0, m = -1, op = -1, inst = -1, seq = -1, ev = NONE, flags = 0, timer = 0, ms = 0;
    bool single = false, sig = false, dwait = false;
    int inv = -1, ret = INF, tid = -1, ctx = -1;
    int64_t ti = 0, tr = TINF;
    long res = 0, extra = 0;
};
struct El {                 // one processed queue element
    int m = -1, ev = NONE, seq = -1;
    int first = -1, last = -1;      // history indices of its first and last record (-1: it ran no callback)
    int64_t t0 = 0, t1 = 0;
    Status st = ST_OK;
    int chain = -1;                 // element index of the external event it belongs to
    bool external = false, raised = false;
    int src = -1;                   // op instance
    bool cut = false;
};
struct ActRun { int state, act; int inv, ret; int64_t ti, tr; int el; };   // a state action, between two records

struct J {
    const Plan& p;
    const History& h;
    Probes& pr;
    std::vector<Verdict> out;
    std::vector<OpI> ops;                 // by instance
    std::map<int, int> bySeq;             // seq -> instance
    std::vector<int> endOf;               // R_B index -> matching R_E index
    struct Mach {
        int initInv = INF, initRet = INF, relInv = INF, relRet = INF, end = INF;
        int64_t endT = TINF;
        std::vector<int> cb;              // R_B indices, in order
        std::vector<int> els;             // element indices, in order
        std::vector<ActRun> acts;
        bool bad = false;                 // replay stopped by a mismatch
        bool anyClear = false;
        int judgedUntil = INF;
        std::map<int, std::vector<int>> byEv;   // event -> external elements
    };
    std::vector<Mach> M;
    std::vector<El> els;
    std::map<int, std::vector<int>> seqEls;
    std::vector<int> dispEnd;
    std::map<int, std::vector<int>> handlerCalls;   // plain handlers: op instance -> records
    std::vector<int> dispTid;
    int64_t endTime = 0;

    J(const Plan& pp, const History& hh, Probes& q) : p(pp), h(hh), pr(q) {}

    void bad(const std::string& tag, const std::string& msg) {
        if (out.size() < 40) out.push_back({tag, msg});
    }
    static std::string num(long x) { return std::to_string(x); }
    std::string opStr(const OpI& o) {
        std::string s = std::string(opName(o.kind)) + " op" + num(o.op) + " (record #" + num(o.inv) + ", machine " + num(o.m);
        if (o.ev != NONE && o.kind <= OP_INT) s += ", event " + num(o.ev);
        if (o.seq >= 0) s += ", seq " + num(o.seq);
        return s + ")";
    }
    std::string recStr(const Rec& r) {
        std::string s = std::string(kindName(r.kind)) + " " + num(r.a);
        if (r.seq >= 0) s += " seq " + num(r.seq);
        if (r.veto) s += " (refuses)";
        s += " active {";
        for (int a : r.active) s += num(a) + " ";
        return s + "}";
    }
    std::string expStr(const Exp& r) {
        std::string s = std::string(kindName(r.kind)) + " " + num(r.a);
        if (r.seq >= 0) s += " seq " + num(r.seq);
        if (r.veto) s += " (refuses)";
        s += " active {";
        for (int a : r.active) s += num(a) + " ";
        return s + "}";
    }
    int64_t idle(int64_t a, int64_t b) { return sim::idle_between(a, b); }
    // could an event of machine m (an action of dispatcher d if m < 0) have been served between a and b? With a polled dispatcher
    // every poll has to serve something that is waiting; some continuations of an event leave no record.
    bool couldServe(int m, int d, int64_t a, int64_t b, int64_t slack) {
        if (!backend.polled) return idle(a, b) > slack;
        int spare = m < 0 ? 0 : slack > SLACK ? 8 : 6, n = 0;
        for (auto& q : h.polls) {
            if (q.d != d || q.t0 <= a || q.t1 >= b) continue;
            bool some = false;
            if (m >= 0)
                for (size_t i = q.i0; i < q.i1 && !some; i++) some = h.r[i].type == R_B && h.r[i].m == m;
            n += !some;
        }
        return n > spare;
    }
    bool couldServe(int m, int64_t a, int64_t b, int64_t slack) { return couldServe(m, p.mach[m].disp, a, b, slack); }
    // intervals are rounded up to ticks of the clock, if the backend has any
    int64_t ticks(int64_t D) { return backend.early ? (D + backend.early - 1) / backend.early * backend.early : D; }
    // an interval that has certainly not elapsed before
    int64_t atLeast(int64_t ms) { return backend.early ? ticks(ms * MS) - backend.early : (ms - 1) * MS; }
    // could a timer that was armed at a with interval D have fired before b?
    // m >= 0: and its event have been served by that machine
    bool couldFire(int m, int d, int64_t a, int64_t D, int64_t b) {
        if (!backend.polled) return idle(a, b) > D + SLACK;
        for (auto& q : h.polls)
            if (q.d == d && q.t0 >= a + D && q.t1 < b) return m < 0 || couldServe(m, d, q.t1, b, SLACK);
        return false;
    }

    // -------------------------------------------------------------- index
    void index() {
        endOf.assign(h.r.size(), INF);
        M.resize(p.specs.size());
        dispEnd.assign(p.cache.size(), INF);
        dispTid.assign(p.cache.size(), -1);
        for (int i = 0; i < (int)h.r.size(); i++) {
            const Rec& r = h.r[i];
            endTime = r.t;
            if (r.type == R_INV) {
                if ((int)ops.size() <= r.inst) ops.resize(r.inst + 1);
                OpI& o = ops[r.inst];
                o.kind = r.kind;
                o.m = r.m;
                o.op = r.op;
                o.inst = r.inst;
                o.seq = r.seq;
                o.ev = r.ev;
                o.flags = r.flags;
                o.timer = r.timer;
                o.ms = r.ms;
                o.single = r.single;
                o.sig = r.inSig;
                o.inv = i;
                o.ti = r.t;
                o.tid = r.tid;
                o.ctx = r.ctx;
                if (r.seq >= 0) bySeq[r.seq] = r.inst;
                if (r.kind == OP_INIT && M[r.m].initInv == INF) M[r.m].initInv = i;
                if ((r.kind == OP_RELEASE || r.kind == OP_DELETE) && M[r.m].relInv == INF) M[r.m].relInv = i;
                if (r.kind == OP_DSTOP || r.kind == OP_DDROP || r.kind == OP_HANDOFF) dispEnd[r.m] = std::min(dispEnd[r.m], i);
                if (r.kind == OP_CLEAR || r.kind == OP_CLEARSYNC) M[r.m].anyClear = true;
            } else if (r.type == R_RET) {
                OpI& o = ops[r.inst];
                o.ret = i;
                o.tr = r.t;
                o.res = r.res;
                o.extra = r.timer;
                o.dwait = r.dwait;
                if (r.kind == OP_INIT && M[r.m].initRet == INF) M[r.m].initRet = i;
                if ((r.kind == OP_RELEASE || r.kind == OP_DELETE) && M[r.m].relRet == INF) M[r.m].relRet = i;
            } else if (r.type == R_HB) {
                handlerCalls[r.inst].push_back(i);
            } else if (r.type == R_B) {
                M[r.m].cb.push_back(i);
            } else if (r.type == R_E || r.type == R_RAWE) {
                endOf[r.op] = i;
            } else if (r.type == R_ACTB) {
                int d = ops[r.inst].m;
                if (dispTid[d] < 0) dispTid[d] = r.tid;
            }
        }
        // a machine whose initialisation was refused (the dispatcher was being stopped) never becomes active; an undue
        // refusal is reported by C17
        for (auto& x : M)
            if (x.initRet != INF && h.r[x.initRet].res == 0 && x.cb.empty()) x.initInv = x.initRet = INF;
        for (size_t m = 0; m < M.size(); m++) {
            M[m].end = std::min(M[m].relInv, dispEnd[p.mach[m].disp]);
            M[m].endT = M[m].end == INF ? endTime : h.r[M[m].end].t;
            for (int i : M[m].cb) {
                int d = p.mach[m].disp;
                if (i > M[m].initRet && dispTid[d] < 0) dispTid[d] = h.r[i].tid;
            }
        }
    }

    // -------------------------------------------------------------- C03, C09 on the raw callbacks
    void callbacks() {
        for (size_t m = 0; m < M.size(); m++) {
            Mach& x = M[m];
            int d = p.mach[m].disp;
            int prevEnd = -1, prev = -1;
            for (int i : x.cb) {
                const Rec& r = h.r[i];
                if (r.depth > 0 || (prev >= 0 && prevEnd > i))
                    bad("C03", "callback " + recStr(r) + " of machine " + num(m) + " (record #" + num(i) + ") starts while another one of the same machine is running");
                prev = i;
                prevEnd = endOf[i];
                if (i > x.initRet && dispTid[d] >= 0 && r.tid != dispTid[d])
                    bad("C03", "callback " + recStr(r) + " of machine " + num(m) + " runs on thread " + num(r.tid) + ", not on the dispatcher's thread " + num(dispTid[d]));
                if (i > x.relRet)
                    bad("C09", "callback " + recStr(r) + " of machine " + num(m) + " (record #" + num(i) + ") starts after the machine was released (record #" + num(x.relRet) + ")");
                if (i < x.relRet && endOf[i] > x.relRet && x.relRet != INF)
                    bad("C09", "release returned (record #" + num(x.relRet) + ") while callback " + recStr(r) + " (record #" + num(i) + ") was running");
            }
            if (x.relRet != INF && x.relInv != INF) {
                int64_t since = h.r[x.relInv].t;
                for (int i : x.cb)
                    if (endOf[i] < x.relRet) since = std::max(since, h.r[endOf[i]].t);
                if (h.r[x.relInv].kind == OP_RELEASE && idle(since, h.r[x.relRet].t) > SLACK)
                    bad("C09", "release of machine " + num(m) + " did not return although nothing was running");
            }
        }
    }

    // -------------------------------------------------------------- replay on the model
    int evOfTrans(int m, int t) {
        for (auto& x : p.specs[m].trans)
            if (x.id == t) return x.ev;
        return NONE;
    }
    // compares the model's expectation with the recorded callbacks from position pos on. Returns the number of records
    // consumed, or -1 with the reason.
    int failAt = INF;   // record at which the last match() failed
    int match(int m, const Model& md, size_t pos, size_t limit, std::string& why) {
        failAt = INF;
        const Mach& x = M[m];
        const Spec& sp = p.specs[m];
        size_t q = pos;
        (void)sp;
        for (auto& e : md.out) {
            if (e.kind == K_ACT) continue;
            if (q >= limit) {
                why = "expected " + expStr(e) + ", but nothing more happened";
                return -1;
            }
            const Rec& r = h.r[x.cb[q]];
            bool ok = r.kind == e.kind && r.a == e.a && r.argh == e.argh && r.veto == e.veto && r.active == e.active;
            if (ok && e.seq >= 0 && r.seq != e.seq) ok = false;
            if (!ok) {
                why = "expected " + expStr(e) + ", but the machine did " + recStr(r) + " (record #" + num(x.cb[q]) + ")";
                if (r.kind == e.kind && r.a == e.a && r.active == e.active && r.argh != e.argh) why += " with wrong arguments";
                failAt = x.cb[q];
                return -1;
            }
            q++;
        }
        return (int)(q - pos);
    }
    // each record is written after the callback before it ended and before the next one begins
    void addLogs(int m, const Model& md, size_t pos) {
        Mach& x = M[m];
        auto& w = logWant[m];
        for (auto l : md.logs) {
            size_t q = pos + (size_t)l.cb;
            l.after = q > 0 ? endOf[x.cb[q - 1]] : x.initInv;
            l.before = q < x.cb.size() ? x.cb[q] : INF;
            w.v.push_back(l);
        }
    }
    void addActs(int m, const Model& md, size_t pos, int el) {
        Mach& x = M[m];
        size_t q = pos;
        for (auto& e : md.out) {
            if (e.kind != K_ACT) {
                q++;
                continue;
            }
            ActRun a;
            a.state = e.a;
            a.act = e.b;
            a.el = el;
            // between the end of the previous callback and the start of the next one of this machine
            a.inv = q > 0 ? std::min(endOf[x.cb[q - 1]], (int)h.r.size()) : x.initInv;
            a.ret = q < x.cb.size() ? x.cb[q] : INF;
            a.ti = a.inv >= 0 && a.inv < (int)h.r.size() ? h.r[a.inv].t : 0;
            a.tr = a.ret == INF ? TINF : h.r[a.ret].t;
            x.acts.push_back(a);
        }
    }
    void account(const Model& md) {
        for (auto& e : md.out) {
            if (e.kind == K_ACT) pr.n[PB_STATE_ACT]++;
            if (e.kind == K_FAIL) pr.n[PB_FAILCB]++;
        }
    }
    void observation(int m, const Model& md, int i, int lastIdle, bool quiet) {
        const Rec& r = h.r[i];
        if (r.type == R_ACTIVE) {
            if (i > M[m].end || !quiet) return;
            if (r.active != md.activeSorted() || r.last != md.last() || r.res != (long)r.active.size()) {
                std::string s = "when idle, machine " + num(m) + " reports active {";
                for (int a : r.active) s += num(a) + " ";
                s += "} last " + num(r.last) + ", the model has {";
                for (int a : md.activeSorted()) s += num(a) + " ";
                bad("MODEL", s + "} last " + num(md.last()));
            }
        } else if (r.type == R_INV && r.kind == OP_POSSIBLE && quiet) {
            const OpI& o = ops[r.inst];
            if (o.ret == INF || o.ret > M[m].end) return;
            bool want = md.possible(o.ev, o.flags, !o.single);
            pr.n[want ? PB_POSSIBLE_T : PB_POSSIBLE_F]++;
            if (want != (o.res != 0)) {
                std::string s;
                for (int a : md.activeSorted()) s += num(a) + " ";
                bad("C21", opStr(o) + " flags " + num(o.flags) + (o.single ? " without arguments" : "") + " answered " + num(o.res) + " in configuration {" + s + "}");
            }
        }
        (void)lastIdle;
    }
    void replay(int m) {
        Mach& x = M[m];
        if (x.initInv == INF) return;
        const Spec& sp = p.specs[m];
        Model md(&sp);
        // observations at idle moments
        struct Obs { int idx; bool quiet; };
        std::vector<Obs> obs;
        {
            int lastIdle = -1, lastBusy = -1;
            for (int i = 0; i < (int)h.r.size(); i++) {
                const Rec& r = h.r[i];
                if (r.type == R_IDLE) lastIdle = i;
                else if (r.m == m && r.type == R_ACTIVE) obs.push_back({i, lastIdle > lastBusy});
                else if (r.m == m && r.type == R_INV && r.kind == OP_POSSIBLE) obs.push_back({i, lastIdle > lastBusy});
                else if (r.type == R_B && r.m == m) lastBusy = i;
                else if (r.type == R_INV && r.m == m && (r.kind <= OP_INT || (r.kind >= OP_TSTART && r.kind <= OP_TSTOP))) lastBusy = i;
            }
        }
        size_t nextObs = 0;
        auto obsUntil = [&](int idx) {
            while (nextObs < obs.size() && obs[nextObs].idx < idx) {
                if (md.front.empty()) observation(m, md, obs[nextObs].idx, 0, obs[nextObs].quiet);
                nextObs++;
            }
        };
        // start-up
        size_t pos = 0, n = x.cb.size();
        std::string why;
        md.startup();
        size_t inStart = 0;
        int initTid = h.r[x.initInv].tid;
        while (inStart < n && x.cb[inStart] < x.initRet && h.r[x.cb[inStart]].tid == initTid) inStart++;
        int c = match(m, md, 0, n, why);
        if (c < 0) {
            x.bad = true;
            bad("MODEL", "start-up of machine " + num(m) + ": " + why);
            return;
        }
        if (x.initRet != INF && (size_t)c > inStart) {
            x.bad = true;
            bad("C17", "the start-up callbacks of machine " + num(m) + " were not all executed by the initialising call");
            return;
        }
        addActs(m, md, pos, -1);
        addLogs(m, md, pos);
        pos += c;
        bool truncated = x.end != INF;
        auto cutAt = [&](size_t q) { return q < n ? x.cb[q] : INF; };
        while (true) {
            if (!md.front.empty() || pos < n) obsUntil(cutAt(pos));
            else { obsUntil(INF); break; }
            if (truncated && cutAt(pos) != INF && cutAt(pos) > x.end) { x.judgedUntil = x.end; break; }
            Ev e;
            El el;
            el.m = m;
            size_t start = pos;
            if (!md.front.empty()) {
                e = md.front.front();
                Model keep(md);
                md.front.pop_front();
                el.st = md.process(e);
                c = match(m, md, pos, n, why);
                if (c < 0) {
                    if (pos >= n || (truncated && failAt > x.end)) {
                        // cut off by release, stop or the end of the run
                        bool quiet = truncated ? couldServe(m, std::max(pos ? h.r[x.cb[pos - 1]].t : 0, h.r[x.initRet == INF ? x.initInv : x.initRet].t), x.endT, SLACK) : true;
                        if (pos >= n && quiet && !e.raised) {
                            x.bad = true;
                            bad("MODEL", "machine " + num(m) + ": " + why);
                        } else if (pos >= n && quiet && e.raised && !x.anyClear) {
                            x.bad = true;
                            bad("MODEL", "machine " + num(m) + ": the event raised by a final state is not processed: " + why);
                        }
                        x.judgedUntil = x.end;
                        break;
                    }
                    bool dropped = false;
                    if (e.raised) {   // an event raised by a final state may be discarded by a clear that comes after it
                        int from = e.born >= 0 ? e.born : 0;
                        for (auto& o : ops)
                            if (o.m == m && (o.kind == OP_CLEAR || o.kind == OP_CLEARSYNC) && o.inv < cutAt(pos) && o.ret > from) dropped = true;
                        if (dropped) {
                            md = keep;
                            md.front.pop_front();
                            continue;
                        }
                    }
                    x.bad = true;
                    bad("MODEL", "machine " + num(m) + ", continuing event " + num(e.id) + ": " + why);
                    break;
                }
                el.raised = e.raised;
                el.ev = e.id;
                el.chain = (int)e.chain;
            } else {
                // which external event is it?
                size_t q = pos;
                while (q < n && h.r[x.cb[q]].kind != K_TRANS && h.r[x.cb[q]].kind != K_FAIL) q++;
                if (q >= n) {
                    if (truncated && x.cb[n - 1] > x.end) { x.judgedUntil = x.end; break; }
                    if (truncated && endOf[x.cb[n - 1]] > x.end) break;
                    x.bad = true;
                    bad("MODEL", "machine " + num(m) + ": callback " + recStr(h.r[x.cb[pos]]) + " (record #" + num(x.cb[pos]) + ") belongs to no event");
                    break;
                }
                const Rec& r = h.r[x.cb[q]];
                e.id = r.kind == K_TRANS ? evOfTrans(m, r.a) : r.a;
                if (r.seq >= 0) {
                    e.seq = r.seq;
                    auto it = bySeq.find(r.seq);
                    if (it == bySeq.end() || ops[it->second].m != m || ops[it->second].ev != e.id || ops[it->second].inv > x.cb[pos]) {
                        bool other = it != bySeq.end() && ops[it->second].m != m;
                        x.bad = true;
                        bad(other ? "C12" : "MODEL", "machine " + num(m) + ": " + recStr(r) + " for event " + num(e.id) + " carries arguments that were never sent with it to this machine");
                        break;
                    }
                    e.hasArgs = true;
                    e.flags = ops[it->second].flags;
                    el.src = it->second;
                } else {
                    for (auto& a : sp.acts)
                        if (a.type == A_TRANS && a.ev == e.id) e.extra = a.extra;
                }
                el.seq = e.seq;
                el.ev = e.id;
                el.external = true;
                el.chain = (int)els.size();
                e.chain = el.chain;
                el.st = md.process(e);
                c = match(m, md, pos, n, why);
                if (c < 0) {
 
                    if (truncated && failAt > x.end) { x.judgedUntil = x.end; break; }
                    x.bad = true;
                    bad("MODEL", "machine " + num(m) + ", event " + num(e.id) + (e.seq >= 0 ? " seq " + num(e.seq) : "") + ": " + why);
                    break;
                }
            }
            if (!md.lintMsg.empty()) {
                x.bad = true;
                bad("MODEL", "machine " + num(m) + ", event " + num(el.ev) + (el.seq >= 0 ? " seq " + num(el.seq) : "") + ": " + md.lintMsg);
                break;
            }
            addActs(m, md, start, (int)els.size());
            addLogs(m, md, start);
            account(md);
            pos += c;
            if (c > 0) {
                el.first = x.cb[start];
                el.last = std::min(endOf[x.cb[pos - 1]], (int)h.r.size() - 1);
            } else {
                int at = start > 0 ? std::min(endOf[x.cb[start - 1]], (int)h.r.size() - 1) : 0;
                el.first = el.last = at;
            }
            for (auto& q : md.front)
                if (q.born < 0) q.born = el.first;
            el.t0 = h.r[el.first].t;
            el.t1 = h.r[el.last].t;
            x.els.push_back((int)els.size());
            if (el.external) {
                x.byEv[el.ev].push_back((int)els.size());
                if (el.seq >= 0) seqEls[el.seq].push_back((int)els.size());
                pr.n[PB_EVENTS]++;
            }
            els.push_back(el);
        }
        if (!x.bad) pr.n[PB_REPLAYED]++;
        auto& q = md.probe;
        pr.n[PB_TRANS] += q.transitions;
        pr.n[PB_FAILED] += q.failed;
        pr.n[PB_VETO_EXIT] += q.vetoExit;
        pr.n[PB_VETO_ENTER] += q.vetoEnter;
        pr.n[PB_HIST_RESTORE] += q.histRestore;
        pr.n[PB_HIST_DEFAULT] += q.histDefault;
        pr.n[PB_FINAL] += q.finals;
        pr.n[PB_FINAL_BLOCKED] += q.finalBlocked;
        pr.n[PB_PARALLEL] += q.parallelReact;
        pr.n[PB_ENTRY] += q.entry;
        pr.n[PB_SELF_INT] += q.selfInt;
        pr.n[PB_SELF_EXT] += q.selfExt;
    }

    // -------------------------------------------------------------- accounting of events
    bool isSend(int k) const { return k == OP_SEND || k == OP_SYNC || k == OP_CLEAR || k == OP_CLEARSYNC; }
    bool isClear(const OpI& o) const { return o.kind == OP_CLEAR || o.kind == OP_CLEARSYNC; }
    bool isSync(const OpI& o) const { return o.kind == OP_SYNC || o.kind == OP_CLEARSYNC; }
    int64_t liveFrom(int m, int64_t t) { return M[m].initRet == INF ? TINF : std::max(t, h.r[M[m].initRet].t); }

    void late(const std::string& tag, const std::string& msg) {
        bad(tag, msg);
        bad("LIVE", msg);
    }
    void events() {
        for (auto& o : ops) {
            if (o.inst < 0 || !isSend(o.kind)) continue;
            Mach& x = M[o.m];
            if (isSync(o)) pr.n[o.res ? PB_SYNC_TRUE : PB_SYNC_FALSE]++;
            if (x.bad || x.initInv == INF) continue;
            auto it = seqEls.find(o.seq);
            int cnt = it == seqEls.end() ? 0 : (int)it->second.size();
            if (cnt > 1) bad("C01", opStr(o) + " was processed " + num(cnt) + " times");
            bool accepted = isSync(o) ? true : (o.ret != INF && o.res);
            if (cnt == 0) {
                if (!accepted || o.inv > x.end) continue;
                if (isSync(o) && o.ret != INF && o.inv < x.initRet) continue;   // may have been refused as uninitialised
                // explained by a clear?
                bool cleared = false, anyClearAfterStart = false;
                for (auto& c : ops)
                    if (c.inst >= 0 && c.inst != o.inst && isClear(c) && c.m == o.m && o.inv < c.ret) {
                        anyClearAfterStart = true;
                        if (!couldServe(o.m, liveFrom(o.m, o.tr), c.ti, SLACK)) cleared = true;
                    }
                if (cleared) {
                    pr.n[PB_DROPPED]++;
                    continue;
                }
                int64_t from = liveFrom(o.m, o.ret == INF ? o.ti : o.tr);
                if (isSync(o)) from = liveFrom(o.m, o.ti + MS);   // it is queued long before it returns
                if (from < x.endT && couldServe(o.m, from, x.endT, SLACK)) {
                    std::string msg = opStr(o) + " was never processed";
                    bad("C01", msg);
                    if (x.anyClear) bad("C05", msg + (anyClearAfterStart ? "" : ", and no queue-clearing call followed it"));
                    bad("LIVE", msg);
                } else if (x.end != INF) {
                    pr.n[PB_DISCARDED]++;
                }
            } else {
                El& e = els[it->second[0]];
                int64_t from = liveFrom(o.m, std::min(o.tr, isSync(o) ? o.ti + MS : o.tr));
                if (e.t0 > from && couldServe(o.m, from, e.t0, SLACK))
                    late("C01", opStr(o) + " waited in the queue although nothing else was running (until record #" + num(e.first) + ")");
                if (o.ret != INF && !isSync(o) && !o.res) bad("C01", opStr(o) + " was processed although the call failed");
            }
        }
    }
    // events without arguments: interrupts, timers, state actions; counted per (machine, event)
    struct Src { int inv, ret; int64_t ti, tr; bool sure; int64_t slack = SLACK; };
    void anonymous(int m, int ev, std::vector<Src> src, const char* tag, const char* what) {
        Mach& x = M[m];
        if (x.bad) return;
        std::vector<int> got;
        auto it = x.byEv.find(ev);
        if (it != x.byEv.end()) got = it->second;
        std::vector<Src> sure, all = src;
        for (auto& s : src)
            if (s.sure) sure.push_back(s);
        std::sort(all.begin(), all.end(), [](const Src& a, const Src& b) { return a.inv < b.inv; });
        std::sort(sure.begin(), sure.end(), [](const Src& a, const Src& b) { return a.tr < b.tr; });
        for (size_t k = 0; k < got.size(); k++) {
            El& e = els[got[k]];
            if (k >= all.size() || all[k].inv > e.first) {
                bad(tag, std::string("machine ") + num(m) + " processed event " + num(ev) + " (" + what + ", record #" + num(e.first) + ") more often than it was sent");
                break;
            }
        }
        if (x.anyClear) return;
        for (size_t k = 0; k < sure.size(); k++) {
            int64_t from = liveFrom(m, sure[k].tr), slack = sure[k].slack;
            if (sure[k].ret > x.end) continue;
            if (k >= got.size()) {
                if (from < x.endT && couldServe(m, from, x.endT, slack))
                    late(tag, std::string("event ") + num(ev) + " (" + what + ") sent to machine " + num(m) + " before record #" + num(sure[k].ret) + " was never processed");
            } else if (els[got[k]].t0 > from && couldServe(m, from, els[got[k]].t0, slack)) {
                late(tag, std::string("event ") + num(ev) + " (" + what + ") sent to machine " + num(m) + " before record #" + num(sure[k].ret) + " was left waiting although nothing else was running");
            }
        }
    }
    void anonymousAll() {
        for (size_t m = 0; m < M.size(); m++) {
            const Spec& sp = p.specs[m];
            for (int ev : sp.irqEvents) {
                std::vector<Src> s;
                for (auto& o : ops)
                    if (o.inst >= 0 && o.kind == OP_INT && o.m == (int)m && o.ev == ev && (o.res || o.ret == INF)) s.push_back({o.inv, o.ret, o.ti, o.tr, o.ret != INF && o.res != 0, o.dwait ? SLACK : IRQ_POLL});
                anonymous((int)m, ev, s, "C06", "interrupt");
            }
            if (M[m].bad) continue;
            for (size_t a = 0; a < sp.acts.size(); a++) {
                if (sp.acts[a].type != A_TRANS) continue;
                std::vector<Src> s;
                for (auto& r : M[m].acts)
                    if (r.act == (int)a) s.push_back({r.inv, r.ret, r.ti, r.tr, r.ret != INF || M[m].end == INF});
                for (auto& q : s)
                    if (q.ret == INF) q.tr = q.ti + MS;
                anonymous((int)m, sp.acts[a].ev, s, "C18", "state action");
            }
        }
    }
    void order() {   // C02
        for (size_t m = 0; m < M.size(); m++) {
            Mach& x = M[m];
            if (x.bad) continue;
            struct It { int inv, ret; std::string s; bool act; };
            std::map<int, std::vector<ActRun>> runs;   // event -> runs of its action
            std::map<int, size_t> used;
            if (!x.anyClear)
                for (auto& r : x.acts)
                    if (p.specs[m].acts[r.act].type == A_TRANS) runs[p.specs[m].acts[r.act].ev].push_back(r);
            int maxInv = -1;
            std::string maxS;
            bool maxAct = false;
            for (int ei : x.els) {
                El& e = els[ei];
                if (!e.external) continue;
                int inv, ret;
                std::string s;
                bool act = false;
                if (e.src >= 0) {
                    inv = ops[e.src].inv;
                    ret = ops[e.src].ret;
                    // a synchronous event is queued at some time before it is processed
                    if (isSync(ops[e.src])) ret = e.first;
                    s = opStr(ops[e.src]);
                } else {
                    auto it = runs.find(e.ev);
                    if (it == runs.end()) continue;
                    size_t k = used[e.ev]++;
                    if (k >= it->second.size()) continue;
                    inv = it->second[k].inv;
                    ret = it->second[k].ret;
                    s = "state action event " + num(e.ev) + " (sent after record #" + num(inv) + ")";
                    act = true;
                }
                if (ret < maxInv) {
                    std::string msg = "machine " + num(m) + ": " + maxS + " was processed before " + s + ", which had been sent first";
                    bad("C02", msg);
                    if (act || maxAct) bad("C18", msg);
                    break;
                }
                if (inv > maxInv) maxInv = inv, maxS = s, maxAct = act;
            }
        }
    }
    void clears() {   // C05
        for (size_t m = 0; m < M.size(); m++) {
            Mach& x = M[m];
            if (x.bad || !x.anyClear) continue;
            for (auto& c : ops) {
                if (c.inst < 0 || !isClear(c) || c.m != (int)m || c.ret == INF) continue;
                int effect = c.ret;   // the clear happened between c.inv and effect
                if (isSync(c)) {
                    auto it = seqEls.find(c.seq);
                    if (it == seqEls.end()) continue;
                    effect = std::min(effect, els[it->second[0]].first);
                }
                bool strict = c.ctx >= 0 && h.r[c.ctx].type == R_B && h.r[c.ctx].m == (int)m && c.inv > x.initRet;
                int survivors = 0;
                std::string who;
                for (int ei : x.els) {
                    El& e = els[ei];
                    if (!e.external || e.src < 0 || e.src == c.inst) continue;
                    const OpI& o = ops[e.src];
                    int oret = isSync(o) ? INF : o.ret;
                    if (oret < c.inv && e.first > effect) survivors++, who += opStr(o) + " ";
                }
                if (survivors > (strict ? 0 : 1))
                    bad("C05", who + "survived " + opStr(c));
            }
        }
    }
    void syncs() {   // C04
        for (auto& o : ops) {
            if (o.inst < 0 || !isSync(o) || o.ret == INF) continue;
            Mach& x = M[o.m];
            // the timeout runs from the moment the caller starts to wait
            if (o.ms > 0 && idle(o.ti, o.tr) > ticks((int64_t)o.ms * MS) + backend.early + SLACK) late("C04", opStr(o) + " with timeout " + num(o.ms) + " ms returned too late");
            if (x.bad) continue;
            auto it = seqEls.find(o.seq);
            int lastEl = -1;
            bool anyFail = false;
            int64_t done = TINF;
            if (it != seqEls.end()) {
                int ch = it->second[0];
                for (int ei : x.els) {
                    El& e = els[ei];
                    if (e.chain != ch || e.raised) continue;
                    lastEl = ei;
                    anyFail = anyFail || e.st == ST_FAILED || e.st == ST_CANCELED;
                }
                if (els[lastEl].st != ST_PENDING) done = els[lastEl].t1;
            }
            if (o.res) {
                if (lastEl < 0 && o.ret > x.end) {
                    // processed by the machine while it was being released: not judged
                } else if (lastEl < 0) {
                    bad("C04", opStr(o) + " returned true but its event was not processed");
                } else if (anyFail) {
                    bad("C04", opStr(o) + " returned true although its event was rejected");
                } else if (els[lastEl].last > o.ret) {
                    bad("C04", opStr(o) + " returned true (record #" + num(o.ret) + ") before its transition was finished (record #" + num(els[lastEl].last) + ")");
                }
            } else {
                bool timedOut = o.ms > 0 && o.tr - o.ti >= (int64_t)o.ms * MS - MS;
                if (timedOut) pr.n[PB_SYNC_TIMEOUT]++;
                bool notProcessed = lastEl < 0;
                bool released = o.ret > x.end;
                if (!timedOut && !notProcessed && !anyFail && !released && o.inv > x.initRet)
                    bad("C04", opStr(o) + " returned false although its event was accepted (timeout " + num(o.ms) + " ms)");
                if (notProcessed && !timedOut && !released && o.inv > x.initRet) {
                    bool cleared = false;
                    for (auto& c : ops)
                        if (c.inst >= 0 && c.inst != o.inst && isClear(c) && c.m == o.m && c.inv < o.ret && c.ret > o.inv) cleared = true;
                    if (!cleared) bad("C04", opStr(o) + " returned false without its event being processed or discarded");
                }
                if (notProcessed)
                    for (auto& c : ops)
                        if (c.inst >= 0 && c.inst != o.inst && isClear(c) && !isSync(c) && c.m == o.m && o.inv < c.inv && c.ret < o.ret && o.ret < x.end) {
                            // discarded by c (or by an earlier one), or sent to the queue only afterwards (stalled sender)
                            if (idle(o.ti, c.ti) <= SLACK && idle(c.tr, o.tr) > SLACK)
                                late("C04", opStr(o) + " was discarded by " + opStr(c) + " but its sender was not released at once");
                        }
            }
            if (done < o.tr && idle(done, o.tr) > SLACK) late("C04", opStr(o) + " did not return when its event was finished (record #" + num(els[lastEl].last) + ")");
            if (x.relRet != INF && x.relRet < o.ret && o.inv < x.relInv && idle(h.r[x.relRet].t, o.tr) > SLACK)
                late("C04", opStr(o) + " did not return when the machine was released");
        }
    }
    void interrupts() {   // C06: capacity
        for (size_t d = 0; d < p.cache.size(); d++) {
            std::vector<const OpI*> v;
            bool skip = false;
            for (auto& o : ops)
                if (o.inst >= 0 && o.kind == OP_INT && p.mach[o.m].disp == (int)d) v.push_back(&o), skip = skip || M[o.m].bad;
            if (v.empty()) continue;
            size_t cap = p.cache[d];
            // start of processing of the k-th accepted event of each (machine, event)
            std::map<std::pair<int, int>, std::vector<const OpI*>> acc;
            for (auto* o : v) {
                if (o->ret == INF) continue;
                if (o->res) {
                    pr.n[PB_INT_OK]++;
                    acc[{o->m, o->ev}].push_back(o);
                } else {
                    pr.n[PB_INT_FULL]++;
                }
            }
            for (auto* o : v) {
                if (o->ret == INF || o->res || skip) continue;
                if (o->inv < M[o->m].initRet || o->ret > M[o->m].end) continue;
                size_t pending = 0;
                bool cl = false;
                for (auto& a : acc) {
                    size_t sent = 0, proc = 0;
                    for (auto* y : a.second) sent += y->inv < o->ret;
                    for (auto* y : v) sent += y->ret == INF && y->m == a.first.first && y->ev == a.first.second;
                    auto it = M[a.first.first].byEv.find(a.first.second);
                    if (it != M[a.first.first].byEv.end())
                        for (int ei : it->second) proc += els[ei].first < o->inv;
                    pending += sent > proc ? sent - proc : 0;
                    cl = cl || M[a.first.first].anyClear;
                }
                // events of plain handlers
                for (auto& y : ops) {
                    if (y.inst < 0 || y.kind != OP_REGH || (y.flags != 3 && y.flags != 4) || y.m != (int)d || y.inv > o->ret) continue;
                    pending += y.timer;
                    auto c = handlerCalls.find(y.inst);
                    if (c != handlerCalls.end())
                        for (int i : c->second) pending -= i < o->inv;
                }
                // calls nested in or overlapping this one may be about to add their event
                for (auto* y : v) pending += y != o && y->inv < o->ret && y->ret > o->inv && !(y->ret != INF && y->res);
                if (!cl && pending < cap)
                    bad("C06", opStr(*o) + " was refused with " + num(pending) + " of " + num(cap) + " places taken");
            }
            // while the dispatcher's thread is inside one callback nothing leaves the queue
            for (int i = 0; i < (int)h.r.size(); i++) {
                const Rec& r = h.r[i];
                if (r.type != R_B || r.tid != dispTid[d] || endOf[i] == INF || p.mach[r.m].disp != (int)d) continue;
                size_t n = 0;
                for (auto* o : v) n += o->inv > i && o->ret < endOf[i] && o->res;
                if (n > cap) bad("C06", num(n) + " interrupt events were accepted during one callback (record #" + num(i) + "), the queue holds " + num(cap));
            }
        }
    }

    // -------------------------------------------------------------- actions (C11)
    void actions() {
        std::map<int, std::vector<int>> began;   // instance -> records
        std::vector<int> seqOfRuns;
        for (int i = 0; i < (int)h.r.size(); i++)
            if (h.r[i].type == R_ACTB) began[h.r[i].inst].push_back(i), seqOfRuns.push_back(i);
        std::vector<int> initRetD(p.cache.size(), INF);
        for (size_t m = 0; m < M.size(); m++) initRetD[p.mach[m].disp] = std::min(initRetD[p.mach[m].disp], M[m].initRet);
        std::map<int, std::pair<int, int>> mx;   // dispatcher -> (max inv, inst)
        for (int i : seqOfRuns) {
            const OpI& o = ops[h.r[i].inst];
            pr.n[PB_ACTIONS]++;
            auto& q = mx[o.m];
            if (q.first > o.ret) bad("C11", opStr(ops[q.second]) + " ran before " + opStr(o) + ", which had been enqueued first");
            if (o.inv > q.first) q = {o.inv, o.inst};
            if (h.r[i].ctx >= 0) bad("C11", opStr(o) + " was executed in the middle of a callback (record #" + num(i) + ")");
            if (dispTid[o.m] >= 0 && h.r[i].tid != dispTid[o.m]) bad("C11", opStr(o) + " was executed on thread " + num(h.r[i].tid));
        }
        for (auto& o : ops) {
            if (o.inst < 0 || o.kind != OP_ACTION || o.ret == INF) continue;
            auto it = began.find(o.inst);
            int64_t end = dispEnd[o.m] == INF ? endTime : h.r[dispEnd[o.m]].t;
            int64_t from = initRetD[o.m] == INF ? TINF : std::max(o.tr, h.r[initRetD[o.m]].t);
            if (it == began.end()) {
                if (o.ret < dispEnd[o.m] && from < end && couldServe(-1, o.m, from, end, SLACK)) late("C11", opStr(o) + " was never executed");
                continue;
            }
            if (it->second.size() > 1) bad("C11", opStr(o) + " was executed " + num(it->second.size()) + " times");
            int at = it->second[0];
            if (h.r[at].t > from && couldServe(-1, o.m, from, h.r[at].t, SLACK)) late("C11", opStr(o) + " was left waiting although nothing else was running");
            // overtaking
            if (o.dwait)
                for (auto& e : els)
                    if (p.mach[e.m].disp == o.m && e.first > o.ret && e.last < at && e.first != e.last && !M[e.m].bad)
                        bad("C11", opStr(o) + " was enqueued while the dispatcher was waiting for work, but an event (record #" + num(e.first) + ") was processed first");
            if (o.dwait) pr.n[PB_ACT_OVERTAKE]++;
        }
        // in the middle of an event of a machine: between two elements' records is fine, inside a callback is not (above)
    }

    // -------------------------------------------------------------- dispatcher stop (C10)
    void stops() {
        for (auto& o : ops) {
            if (o.inst < 0 || o.kind != OP_DSTOP || o.ret == INF) continue;
            bool inCb = o.ctx >= 0 && h.r[o.ctx].tid == dispTid[o.m] && h.r[o.ctx].type == R_B;
            // callbacks that start after stop() returned, grouped by event: a failed/transition record ends the search
            int groups = 0, raws = 0;
            for (size_t m = 0; m < M.size(); m++) {
                if (p.mach[m].disp != o.m) continue;
                int heads = 0;
                bool open = false;   // an event was in progress at the stop
                std::set<int> heading;
                for (int i : M[m].cb) {
                    if (i < M[m].initRet) continue;
                    const Rec& r = h.r[i];
                    if (r.kind == K_TRANS || r.kind == K_FAIL) {
                        if (i > o.ret) heads++;
                    }
                }
                (void)open;
                groups += heads > 0 ? 1 : 0;
                // several transitions of one event (parallel regions) count once: look at distinct argument sequence/events
                std::set<std::pair<int, int>> ids;
                for (int i : M[m].cb)
                    if (i > o.ret && i > M[m].initRet && (h.r[i].kind == K_TRANS || h.r[i].kind == K_FAIL))
                        ids.insert({h.r[i].seq, h.r[i].kind == K_TRANS ? evOfTrans((int)m, h.r[i].a) : h.r[i].a});
                if (ids.size() > 1) bad("C10", "machine " + num(m) + " still processed " + num(ids.size()) + " events after the dispatcher was stopped (record #" + num(o.ret) + ")");
            }
            if (groups > 1) bad("C10", num(groups) + " machines processed events after the dispatcher was stopped (record #" + num(o.ret) + ")");
            if (inCb)
                for (auto& e : els)
                    if (e.external && p.mach[e.m].disp == o.m && e.first > o.ret && e.last > e.first)
                        bad("C10", "an event (record #" + num(e.first) + ") is processed although a callback had stopped the dispatcher (record #" + num(o.ret) + ")");
            for (int i = o.ret; i < (int)h.r.size(); i++)
                if (h.r[i].type == R_RAWB && p.raws[h.r[i].m].disp == o.m) raws++;
            if (raws > 1) bad("C10", num(raws) + " timer expiries were handed out after the dispatcher was stopped (record #" + num(o.ret) + ")");
        }
    }

    // -------------------------------------------------------------- timers (C07, C08)
    struct TOp { int kind; int inv, ret; int64_t ti, tr; int ms; bool single; long res; std::string s; };   // kind: 0 start 1 restart 2 stop 3 query
    struct Expiry { int idx, end; int64_t t; };
    void timerRaw(int raw, int timer) {
        std::vector<TOp> v;
        std::vector<Expiry> ex;
        int unregInv = INF, unregRet = INF;
        for (auto& o : ops) {
            if (o.inst < 0 || o.m != raw) continue;
            int k = o.kind == OP_RSTART ? 0 : o.kind == OP_RRESTART ? 1 : o.kind == OP_RSTOP ? 2 : o.kind == OP_RQUERY ? 3 : -1;
            if (o.kind == OP_UNREGRAW) {
                if (o.inv < unregInv) unregInv = o.inv, unregRet = o.ret;
            }
            if (k < 0 || o.timer != timer) continue;
            v.push_back({k, o.inv, o.ret, o.ti, o.tr, o.ms, o.single, o.res, "raw timer " + num(timer) + ": " + opStr(o)});
        }
        int stopIdx = std::min(dispEnd[p.raws[raw].disp], unregInv);
        for (int i = 0; i < (int)h.r.size(); i++)
            if (h.r[i].type == R_RAWB && h.r[i].m == raw && h.r[i].timer == timer) {
                ex.push_back({i, endOf[i], h.r[i].t});
                pr.n[PB_RAW_EXPIRY]++;
                if (i > unregRet) bad("C09", "raw timer " + num(timer) + " fires (record #" + num(i) + ") after its handler was unregistered");
            }
        judgeTimer(v, ex, stopIdx, -1, p.raws[raw].disp, "raw timer " + num(timer), false);
    }
    // possible settings of a restart: interval range and whether it may be repeating; empty if the timer cannot be active
    std::vector<const TOp*> settings(const std::vector<TOp>& v, const TOp& q) {
        std::vector<const TOp*> r;
        if (q.kind == 0) {
            r.push_back(&q);
            return r;
        }
        for (auto& s : v) {
            if (s.kind != 0 || s.inv > q.ret) continue;
            bool dead = false;
            for (auto& o : v)
                if ((o.kind == 2 || o.kind == 0) && o.inv > s.ret && o.ret < q.inv) dead = true;
            if (!dead) r.push_back(&s);
        }
        return r;
    }
    void judgeTimer(const std::vector<TOp>& v, const std::vector<Expiry>& ex, int stopIdx, int mach, int disp, const std::string& name, bool relaxed) {
        int64_t stopT = stopIdx == INF ? endTime : h.r[stopIdx].t;
        auto candidates = [&](const Expiry& e) {
            std::vector<const TOp*> c;
            for (auto& q : v) {
                if (q.kind > 1 || q.inv > e.idx) continue;
                bool dead = false;
                for (auto& o : v)
                    if (o.kind <= 2 && o.inv > q.ret && o.ret < e.idx) {
                        // a restart only supersedes if the timer was certainly active: it is harmless otherwise, and a
                        // later expiry then still belongs to q
                        if (o.kind == 1) continue;
                        dead = true;
                    }
                if (!dead && !settings(v, q).empty()) c.push_back(&q);
            }
            return c;
        };
        std::map<const TOp*, int> sole;
        if (!relaxed)
            for (auto& e : ex) {
                auto c = candidates(e);
                if (c.empty()) {
                    bad(v.empty() ? "C07" : "C08", name + " fires (record #" + num(e.idx) + ") although it is not running");
                    continue;
                }
                // a completed restart of a certainly running timer moves the deadline: only the latest completed
                // start/restart and those concurrent with later ones can be the origin
                std::vector<const TOp*> d;
                for (auto* q : c) {
                    bool dead = false;
                    for (auto* o : c)
                        if (o->kind == 1 && o != q && o->inv > q->ret && o->ret < e.idx && activeForSure(v, ex, *o)) dead = true;
                    if (!dead) d.push_back(q);
                }
                bool ok = false;
                std::string s;
                for (auto* q : d) {
                    auto st = settings(v, *q);
                    int64_t D = TINF;
                    bool single = true;
                    for (auto* x : st) D = std::min(D, ticks((int64_t)x->ms * MS)), single = single && x->single;
                    int k = 1;
                    if (d.size() == 1 && e.idx > q->ret) k = ++sole[q];
                    bool fine = e.t >= q->ti + (backend.polled ? k * D - MS : k * (D - EARLY - D * backend.earlyPct / 100) - backend.early);   // a board counts in milliseconds
                    if (single && k > 1) fine = false;
                    s += "; " + q->s + " at " + num(q->ti / 1000) + " us, interval " + num(D / MS) + " ms, expiry number " + num(k);
                    ok = ok || fine;
                }
                if (!ok) {
                    bad("C07", name + " fires too early or too often at " + num(e.t / 1000) + " us (record #" + num(e.idx) + ")" + s);
                    if (v.size() > 1) bad("C08", name + " fires too early or too often at " + num(e.t / 1000) + " us (record #" + num(e.idx) + ")" + s);
                }
            }
        // a repeating timer counts from when it expired last: the dispatcher decided that after it had looked at the clock
        if (!relaxed && !backend.catchesUp)
            for (size_t i = 1; i < ex.size(); i++) {
                auto &a = ex[i - 1], &b = ex[i];
                int64_t D = TINF;
                bool other = false;
                for (auto& q : v) {
                    if (q.kind == 0) D = std::min(D, (int64_t)q.ms * MS);
                    if (q.kind <= 2 && q.inv < b.idx && q.ret > a.idx) other = true;
                }
                if (other || D == TINF) continue;
                int64_t from = backend.polled ? a.t - MS : h.r[a.idx].res - EARLY;
                if (b.t < from + D) bad("C07", name + " fires " + num((b.t - a.t) / 1000) + " us after its last expiration (records #" + num(a.idx) + " and #" + num(b.idx) + "), its interval is " + num(D / MS) + " ms");
            }
        // must fire
        for (auto& q : v) {
            if (q.kind > 1 || q.ret == INF || q.ret > stopIdx) continue;
            auto st = settings(v, q);
            if (st.size() != 1) continue;
            if (q.kind == 1 && (st[0]->single || !activeForSure(v, ex, q)) && !(st[0]->single && activeForSure(v, ex, q))) continue;
            int next = stopIdx;
            bool overlap = false;
            for (auto& o : v) {
                if (&o == &q || o.kind > 2) continue;
                if (o.inv < q.ret && o.ret > q.inv) overlap = true;
                if (o.inv > q.ret) next = std::min(next, o.inv);
            }
            if (overlap) continue;
            int64_t nextT = next == INF ? endTime : h.r[next].t;
            int64_t D = ticks((int64_t)st[0]->ms * MS);
            // a thread that is held up between looking at the clock and going to sleep sleeps that much longer: what counts
            // is the time since the timer was armed that no scheduling can be blamed for
            int64_t armed = q.tr, due = q.tr + D;
            bool within = false;
            for (auto& e : ex) within = within || (e.idx > q.inv && e.idx < q.ret);
            if (within) continue;
            for (auto& e : ex) {
                if (e.idx < q.ret) continue;
                if (e.idx > next) break;
                if (e.t > due && couldFire(mach, disp, armed, D, e.t))
                    timerLate(v, name + " fires too late: at " + num(e.t / 1000) + " us (record #" + num(e.idx) + ") instead of " + num(due / 1000) + " us; " + q.s);
                if (st[0]->single) {
                    due = TINF;
                    break;
                }
                armed = e.t;
                // a polled dispatcher counts the next interval from after the handler, the poll may be held up in between
                for (auto& pl : h.polls)
                    if (pl.t0 <= e.t && pl.t1 >= e.t) armed = std::max(armed, pl.t1);
                due = e.t + D;
            }
            if (due < nextT && couldFire(mach, disp, armed, D, nextT))
                timerLate(v, name + " did not fire by " + num(nextT / 1000) + " us, it was due at " + num(due / 1000) + " us; " + q.s);
        }
        (void)stopT;
        // queries
        for (auto& q : v) {
            if (q.kind != 3 || q.ret == INF || q.ret > stopIdx) continue;
            pr.n[q.res ? PB_QUERY_T : PB_QUERY_F]++;
            bool mustT = false, mustF = false;
            // true: started, not stopped, cannot have expired
            for (auto& s : v) {
                if (s.kind != 0 || s.ret > q.inv) continue;
                bool ok = true;
                for (auto& o : v) {
                    if (o.kind == 2 && o.inv < q.ret && o.ret > s.inv) ok = false;
                    if (o.kind == 0 && &o != &s && o.inv < q.ret && o.ret > s.inv && o.single && q.tr >= o.ti + atLeast(o.ms)) ok = false;
                    if (o.kind == 0 && &o != &s && o.inv < s.ret && o.ret > s.inv && o.single) ok = false;
                }
                if (s.single && q.tr >= s.ti + atLeast(s.ms)) ok = false;
                // an expiry of earlier settings that raced with this start may be reported as this one's
                mustT = mustT || ok;
            }
            // false: stopped or never started
            bool anyStart = false;
            for (auto& s : v) anyStart = anyStart || (s.kind == 0 && s.inv < q.ret);
            if (!anyStart) mustF = true;
            for (auto& o : v) {
                if (o.kind != 2 || o.ret > q.inv) continue;
                bool ok = true;
                for (auto& s : v)
                    if (s.kind <= 1 && s.ret > o.inv && s.inv < q.ret) ok = false;
                mustF = mustF || ok;
            }
            // false: the only start is a single shot that has expired
            for (auto& e : ex) {
                if (relaxed || e.end == INF || e.end > q.inv) continue;
                auto c = candidates(e);
                if (c.size() != 1 || c[0]->kind != 0 || !c[0]->single || c[0]->ret > e.idx) continue;
                bool ok = true;
                for (auto& s : v)
                    if (s.kind <= 1 && &s != c[0] && s.ret > e.idx && s.inv < q.ret) ok = false;
                mustF = mustF || ok;
            }
            if (mustT && mustF) continue;
            if (mustT && !q.res) bad("C08", q.s + " says not running, but the timer is");
            if (mustF && q.res) bad("C08", q.s + " says running, but the timer is not");
        }
    }
    void timerLate(const std::vector<TOp>& v, const std::string& msg) {
        bad("C07", msg);
        if (v.size() > 1) bad("C08", msg);
        bad("LIVE", msg);
    }
    // is the timer certainly active when q (a restart) is made: an unstopped start completed before it that cannot have expired
    bool activeForSure(const std::vector<TOp>& v, const std::vector<Expiry>& ex, const TOp& q) {
        (void)ex;
        for (auto& s : v) {
            if (s.kind != 0 || s.ret > q.inv) continue;
            bool ok = true;
            for (auto& o : v) {
                if (&o == &q) continue;
                if (o.kind == 2 && o.inv < q.ret && o.ret > s.inv) ok = false;
                if (o.kind == 0 && &o != &s && o.inv < q.ret && o.ret > s.inv && o.single && q.tr >= o.ti + atLeast(o.ms)) ok = false;
            }
            if (s.single && q.tr >= s.ti + atLeast(s.ms)) ok = false;
            if (ok) return true;
        }
        return false;
    }
    void timerMachine(int m, const STimer& t) {
        Mach& x = M[m];
        if (x.bad) return;
        std::vector<TOp> v;
        for (auto& o : ops) {
            if (o.inst < 0 || o.m != m || o.timer != t.id) continue;
            int k = o.kind == OP_TSTART ? 0 : o.kind == OP_TRESTART ? 1 : o.kind == OP_TSTOP ? 2 : o.kind == OP_TQUERY ? 3 : -1;
            if (k < 0) continue;
            v.push_back({k, o.inv, o.ret, o.ti, o.tr, o.ms, o.single, o.res, opStr(o) + " timer " + num(t.id)});
        }
        const Spec& sp = p.specs[m];
        bool fromActions = false;
        for (auto& r : x.acts) {
            const SAct& a = sp.acts[r.act];
            if (a.type == A_TRANS || a.timer != t.id) continue;
            v.push_back({a.type == A_START ? 0 : a.type == A_RESTART ? 1 : 2, r.inv, r.ret, r.ti, r.tr, a.interval, a.single, 0,
                         "state action of s" + num(a.state) + " (after record #" + num(r.inv) + ") timer " + num(t.id)});
            fromActions = true;
        }
        std::sort(v.begin(), v.end(), [](const TOp& a, const TOp& b) { return a.inv < b.inv; });
        std::vector<Expiry> ex;
        auto it = x.byEv.find(t.ev);
        if (it != x.byEv.end())
            for (int ei : it->second) {
                ex.push_back({els[ei].first, els[ei].last, els[ei].t0});
                pr.n[PB_TIMER_EVENT]++;
            }
        // never more often than the settings allow
        size_t k = 0;
        for (auto& e : ex) {
            k++;
            int64_t allowed = 0;
            for (auto& q : v) {
                if (q.kind > 1 || q.inv > e.idx) continue;
                auto st = settings(v, q);
                if (st.empty()) continue;
                int64_t D = TINF;
                bool single = true;
                for (auto* s : st) D = std::min(D, (int64_t)s->ms), single = single && s->single;
                int64_t until = e.t;
                for (auto& o : v)
                    if (o.kind <= 2 && o.inv > q.ret && o.tr < until && (o.kind != 1)) until = o.tr;
                int64_t n;
                if (backend.early) n = 1 + (until - q.ti) / ticks(D * MS);
                else if (D <= 1) n = single ? 1 : 1 + (until - q.ti) / (MS / 4);
                else n = (until - q.ti) / ((D - 1) * MS);
                if (single) n = std::min<int64_t>(n, 1);
                allowed += std::max<int64_t>(n, 0);
            }
            if ((int64_t)k > allowed) {
                std::string msg = "timer " + num(t.id) + " of machine " + num(m) + " delivered " + num(k) + " events by record #" + num(e.idx) + ", at most " + num(allowed) + " can be due";
                bad("C07", msg);
                bad("C08", msg);
                if (fromActions) bad("C18", msg);
                break;
            }
        }
        if (!x.anyClear) {
            size_t before = out.size();
            judgeTimer(v, ex, x.end, m, p.mach[m].disp, "timer " + num(t.id) + " of machine " + num(m), true);
            if (fromActions)
                for (size_t i = before, n = out.size(); i < n; i++)
                    if (out[i].tag == "C07") bad("C18", out[i].msg);
        }
    }

    // -------------------------------------------------------------- several machines (C12)
    void handlers() {
        std::map<std::pair<int, long>, int> seen;
        for (auto& o : ops) {
            if (o.inst < 0 || o.ret == INF) continue;
            if (o.kind == OP_REGH || o.kind == OP_REGT) {
                if (o.res <= 0) continue;
                auto k = std::make_pair(o.m, o.res);
                if (seen.count(k)) bad("C12", opStr(o) + " got handler identity " + num(o.res) + ", which belongs to another handler already");
                seen[k] = o.op;
                handler(o);
            }
            if (o.kind == OP_INIT && !o.res && o.ret < dispEnd[p.mach[o.m].disp]) bad("C17", opStr(o) + " failed");
        }
    }
    // handlers and timers of a user who has no state machine
    void handler(const OpI& o) {
        const bool timer = o.kind == OP_REGT;
        if (!o.flags) return;
        std::vector<int> calls[3];
        for (int i : handlerCalls[o.inst]) calls[h.r[i].timer].push_back(i);
        auto wrong = [&](const std::string& tag, const std::string& msg) {
            bad(tag, opStr(o) + " (variant " + num(o.flags) + "): " + msg);
        };
        bool started = false;
        for (auto& i : ops)
            if (i.inst >= 0 && i.kind == OP_INIT && i.res && i.ret < o.inv && p.mach[i.m].disp == o.m) started = true;
        int64_t end = dispEnd[o.m] == INF ? endTime : h.r[dispEnd[o.m]].t;
        const long n = (long)calls[1].size(), got = o.extra;
        int64_t D = (int64_t)o.ms * MS;
        auto early = [&](int rec, int64_t since) {
            if (h.r[rec].t - since < (backend.polled ? D - MS : D - EARLY - D * backend.earlyPct / 100 - backend.early)) wrong("C07", "the timer expired after " + num((h.r[rec].t - since) / 1000) + " us");
        };
        if (!timer) {
            std::string tag = o.flags >= 3 ? "C06" : "C12";
            if (o.flags == 2 || o.flags == 4) {
                if (n) wrong("C12", "the handler is called (record #" + num(calls[1][0]) + ") by an event that was sent after it had been unregistered");
                return;
            }
            if (n > got || !calls[2].empty()) wrong(tag, "the handler is called " + num(n + calls[2].size()) + " times for " + num(got) + " events");
            if (n < got && (started || o.flags == 3) && o.ret < dispEnd[o.m] && couldServe(-1, o.m, o.tr, end, SLACK)) {
                // events that were enqueued before the start wait for it
                if (started) late(tag, opStr(o) + " (variant " + num(o.flags) + "): the handler is called " + num(n) + " times for " + num(got) + " events");
            }
            return;
        }
        for (int c : calls[2]) early(c, o.ti);
        switch (o.flags) {
            case 1:
            case 4: {
                auto& v = calls[o.flags == 1 ? 1 : 2];
                if (v.size() > 1) wrong("C07", "the single-shot timer expired " + num(v.size()) + " times");
                if (o.flags == 4)
                    for (int c : calls[1])
                        if (c > o.ret) wrong("C08", "the timer was given to another handler, but the first one is still called (record #" + num(c) + ")");
                if (o.flags == 1)
                    for (int c : v) early(c, o.ti);
                if (v.empty() && started && o.ret < dispEnd[o.m] && couldFire(-1, o.m, o.tr, ticks(D), end)) late("C07", opStr(o) + " (variant " + num(o.flags) + "): the timer never expired");
                return;
            }
            case 2:
            case 5:
                if (n) wrong("C08", "the timer expired (record #" + num(calls[1][0]) + ") although it was never running");
                if (got) wrong("C08", "the timer is running");
                return;
            case 3:
                for (int c : calls[1]) {
                    early(c, o.ti);
                    if (c > o.ret) wrong("C08", "the timer expired (record #" + num(c) + ") although its handler had been unregistered");
                }
                if (o.single && n > 1) wrong("C07", "the single-shot timer expired " + num(n) + " times");
                if (got) wrong("C08", "the timer is still running");
                return;
        }
    }
    void fairness() {
        // an event of one machine is not overtaken by an unbounded number of events of another
        for (auto& o : ops) {
            if (o.inst < 0 || !isSend(o.kind) || isSync(o)) continue;
            auto it = seqEls.find(o.seq);
            if (it == seqEls.end()) continue;
            const El& e = els[it->second[0]];
            int d = p.mach[o.m].disp;
            int from = std::max(o.ret, M[o.m].initRet);   // nothing is processed before the start-up is over
            if (from >= e.first) continue;
            // The dispatcher works in batches. What it still does of the current one was sent before `from`; the next one
            // contains this event and whatever was sent before the current one was finished.
            auto waiting = [&](int upTo) {
                int64_t upToT = h.r[upTo].t;
                long n = 0;
                for (auto& s : ops)
                    if (s.inst >= 0 && (isSend(s.kind) || s.kind == OP_INT) && p.mach[s.m].disp == d && s.m != o.m && s.inv < upTo) {
                        auto j = seqEls.find(s.seq);
                        bool donebefore = j != seqEls.end() && els[j->second[0]].first < o.inv;
                        if (!donebefore) n++;
                    }
                auto runs = [&](int64_t since, int ms, bool single) { n += 1 + (single ? 0 : (upToT - since) / (std::max(1, ms) * MS)); };
                for (auto& s : ops)
                    if (s.inst >= 0 && (s.kind == OP_TSTART || s.kind == OP_TRESTART) && p.mach[s.m].disp == d && s.m != o.m && s.inv < upTo) runs(s.ti, s.ms, s.single);
                for (size_t m = 0; m < M.size(); m++)
                    for (auto& r : M[m].acts) {
                        const SAct& a = p.specs[m].acts[r.act];
                        if ((int)m != o.m && p.mach[m].disp == d && r.inv < upTo && (a.type == A_START || a.type == A_RESTART)) runs(r.ti, a.interval, a.single);
                    }
                return n;
            };
            long own = 0, queued = waiting(from), other = 0;
            for (auto& x : els)
                if (p.mach[x.m].disp == d && x.external && x.first > from && x.first < e.first) {
                    if (x.m == o.m) own++;
                    else other++;
                }
            if (other <= queued * (own + 2) + 8 * (own + 2) + 40) continue;
            std::vector<int> ends;
            for (auto& x : els)
                if (p.mach[x.m].disp == d && x.external && x.first > from && x.first < e.first) ends.push_back(x.last);
            std::sort(ends.begin(), ends.end());
            queued = waiting(ends[std::min<size_t>(ends.size() - 1, queued + own)]);
            fairWorst = std::max(fairWorst, other - queued);
            if (other > queued * (own + 2) + 8 * (own + 2) + 40)
                bad("C12", opStr(o) + " had to wait for " + num(other) + " events of other machines, although only " + num(queued) + " were waiting");
        }
    }
    long fairWorst = 0;
    void lifecycle() {
        for (auto& o : ops) {
            if (o.inst < 0) continue;
            if (o.kind == OP_RELEASE || o.kind == OP_DELETE) {
                if (o.kind == OP_DELETE) pr.n[PB_DELETED]++;
                long pend = 0;
                for (auto& s : ops)
                    if (s.inst >= 0 && s.m == o.m && isSend(s.kind) && s.inv < o.inv) {
                        auto it = seqEls.find(s.seq);
                        if (it == seqEls.end() || els[it->second[0]].first > o.inv) pend++;
                    }
                if (pend) pr.n[PB_RELEASED_BUSY]++;
            }
            if (o.kind == OP_DSTOP) pr.n[PB_DSTOP_BUSY]++;
        }
    }
    std::vector<LogWant> logWant;
    // a run that was cut off because its history does not end. Machines may legally loop for ever (the event of a final
    // state or of a state action leads back to it): everything done so far has to agree with the model, and the loop has
    // to be fed by such events.
    void endless() {
        index();
        int cut = (int)h.r.size() - 200;
        for (auto& x : M)
            if (x.end > cut) x.end = cut, x.endT = h.r[cut].t;
        callbacks();
        logWant.resize(M.size());
        for (size_t m = 0; m < M.size(); m++) replay((int)m);
        if (!out.empty()) return;
        // ... or by timers: a busy machine does not keep up with a repeating timer of 1 ms
        long tail = 0, fed = 0;
        std::map<std::pair<int, int>, long> due;
        for (auto& e : els) {
            if (e.first < cut / 2) continue;
            tail++;
            bool act = false, tim = false;
            for (auto& a : p.specs[e.m].acts) act = act || (a.type == A_TRANS && a.ev == e.ev);
            for (auto& t : p.specs[e.m].timers) tim = tim || t.ev == e.ev;
            if (tim) due[{e.m, e.ev}]++;
            else if (e.raised || act) fed++;
        }
        // (the events may have waited for long)
        long ms = (long)(h.r[cut].t / MS) + 1;
        for (auto& d : due) fed += std::min(d.second, 2 * ms);
        if (fed * 3 < tail || !tail) bad("LIVELOCK", "the run does not end: " + num(tail) + " events processed in its second half, only " + num(fed) + " of them raised by the machines themselves");
    }
    void run() {
        index();
        callbacks();
        logWant.resize(M.size());
        for (size_t m = 0; m < M.size(); m++) {
            replay((int)m);
            auto& w = logWant[m];
            w.valid = !M[m].bad && M[m].initInv != INF;
            w.complete = M[m].end == INF;
            w.end = M[m].end;
        }
        for (auto& v : judgeLogs(p, h, logWant, pr)) out.push_back(v);
        events();
        anonymousAll();
        order();
        clears();
        syncs();
        interrupts();
        actions();
        stops();
        for (size_t r = 0; r < p.raws.size(); r++)
            for (int k = 0; k < 3; k++) timerRaw((int)r, p.raws[r].firstTimer + k);
        for (size_t m = 0; m < M.size(); m++)
            for (auto& t : p.specs[m].timers) timerMachine((int)m, t);
        handlers();
        fairness();
        lifecycle();
    }
};

}  // namespace

std::vector<Verdict> judgeEndless(const Plan& p, const History& h, Probes& pr) {
    J j(p, h, pr);
    j.endless();
    return j.out;
}
std::vector<Verdict> judge(const Plan& p, const History& h, Probes& pr) {
    J j(p, h, pr);
    j.run();
    return j.out;
}

}  // namespace w
