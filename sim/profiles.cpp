// Workload generation: one profile per property, swarm style (every run draws its own mix, sizes and fault kinds).
#include <algorithm>
#include <functional>
#include "world.h"

namespace w {
namespace {

struct W {   // weights of client operations
    int send = 60, sync = 0, clear = 0, clearsync = 0, intr = 0, action = 0, tctl = 0, rctl = 0, sleep = 8, spin = 8, regh = 0, query = 0,
        logoff = 0;
};
struct Par {
    int machMin = 1, machMax = 1, disp = 1, clMin = 1, clMax = 3, opMin = 3, opMax = 12;
    W w;
    GenCfg g;
    int scriptsMin = 0, scriptsMax = 4;
    int irqs = 0;                 // interrupt sources
    int raws = 0;
    int cacheMin = 4, cacheMax = 16;
    bool infiniteSync = true;
    bool startupScripts = false;
    bool inject = true;
    bool handoff = false;
    int relPar = 0, delPar = 0, stopPar = 0;     // % of runs with release/delete/stop during the run
    int undrained = 0;                           // % of runs torn down without draining
    int initPar = 0;                             // % of machines initialised while clients run
    bool cbTimers = false, cbClear = false, cbAction = false, cbInt = false, cbSleep = true;
    int flood = 0;
    bool rounds = false;                         // C21: everything on the main thread, in rounds
    bool idleBursts = false;
    int log = 0, io = 0;
    int wall = 0, late = 0;
};

struct Gen {
    sim::Rng r;
    Plan p;
    Par q;
    int nextOp = 1;
    explicit Gen(uint64_t seed) : r(seed) {}

    Op op(OpKind k, int m = 0) {
        Op o;
        o.id = nextOp++;
        o.k = k;
        o.m = m;
        return o;
    }
    int pickEvent(int m) {
        const Spec& s = p.specs[m];
        int x = r.range(0, 99);
        if (x < 14 && !s.histEvents.empty()) return s.histEvents[r.below(s.histEvents.size())];
        if (x >= 97 && !s.finEvents.empty()) return s.finEvents[r.below(s.finEvents.size())];
        // prefer events that occur in transitions
        if (x < 75 && !s.trans.empty()) {
            int e = s.trans[r.below(s.trans.size())].ev;
            if (e < s.nEvents) return e;
        }
        return (int)r.below(s.nEvents);
    }
    int pickTimeout() {
        static const int t[] = {1, 2, 3, 5, 10, 30, 200, 2000};
        if (q.infiniteSync && r.chance(1, 2)) return 0;
        return t[r.below(8)];
    }
    int interval() {
        static const int t[] = {1, 2, 2, 3, 5, 5, 7, 10, 10, 20, 40, 90};
        return t[r.below(12)];
    }
    int anyMach() { return (int)r.below(p.specs.size()); }
    Op send(int m, OpKind k = OP_SEND) {
        Op o = op(k, m);
        o.ev = pickEvent(m);
        o.flags = r.range(0, 15);
        if (k == OP_SYNC || k == OP_CLEARSYNC) o.timeout = pickTimeout();
        return o;
    }
    Op intr(int m) {
        Op o = op(OP_INT, m);
        auto& v = p.specs[m].irqEvents;
        if (v.empty()) return send(m);
        o.ev = v[r.below(v.size())];
        return o;
    }
    Op tctl(int m) {
        auto& v = p.specs[m].timers;
        if (v.empty()) return send(m);
        int x = r.range(0, 99);
        Op o = op(x < 55 ? OP_TSTART : x < 70 ? OP_TRESTART : x < 85 ? OP_TSTOP : OP_TQUERY, m);
        o.timer = v[r.below(v.size())].id;
        o.ms = interval();
        o.single = r.chance(1, 2);
        return o;
    }
    Op rctl() {
        if (p.raws.empty()) return send(anyMach());
        int i = (int)r.below(p.raws.size());
        int x = r.range(0, 99);
        Op o = op(x < 50 ? OP_RSTART : x < 65 ? OP_RRESTART : x < 82 ? OP_RSTOP : OP_RQUERY, i);
        o.timer = p.raws[i].firstTimer + (int)r.below(3);
        o.ms = interval();
        o.single = r.chance(1, 2);
        return o;
    }
    Op sleep() {
        Op o = op(OP_SLEEP);
        static const int t[] = {1, 20, 100, 500, 1000, 2000, 5000, 10000, 15000};
        o.ms = t[r.below(9)] + (int)r.below(50);
        return o;
    }
    Op spin() {
        Op o = op(OP_SPIN);
        o.ms = r.range(1, 40);
        return o;
    }
    Op regh(int d) {
        Op o = op(r.chance(1, 2) ? OP_REGH : OP_REGT, d);
        o.flags = (int)r.below(o.k == OP_REGH ? 5 : 6);
        o.timer = o.k == OP_REGH ? r.range(1, 4) : (int)r.below(200);
        o.ms = r.range(1, 6);
        o.single = r.chance(1, 2);
        return o;
    }
    Op action(int depth = 0) {
        Op o = op(OP_ACTION, (int)r.below(p.cache.size()));
        int n = (int)r.below(4);
        for (int i = 0; i < n; i++) {
            int x = r.range(0, 99);
            if (x < 40) o.body.push_back(send(anyMach()));
            else if (x < 55 && depth < 2) o.body.push_back(action(depth + 1));
            else if (x < 70) o.body.push_back(spin());
            else if (x < 75) { Op s = sleep(); s.ms = std::min(s.ms, 2000); o.body.push_back(s); }
            else if (x < 85 && q.w.rctl) o.body.push_back(rctl());
            else if (x < 92 && q.w.tctl) o.body.push_back(tctl(anyMach()));
            else if (x < 96 && q.w.regh) o.body.push_back(regh(o.m));
            else o.body.push_back(spin());
        }
        return o;
    }
    Op clientOp(const W& w) {
        int tot = w.send + w.sync + w.clear + w.clearsync + w.intr + w.action + w.tctl + w.rctl + w.sleep + w.spin + w.regh + w.query + w.logoff;
        int x = (int)r.below(tot);
        auto in = [&](int k) {
            if (x < k) return true;
            x -= k;
            return false;
        };
        int m = anyMach();
        if (in(w.send)) return send(m);
        if (in(w.sync)) return send(m, OP_SYNC);
        if (in(w.clear)) return send(m, OP_CLEAR);
        if (in(w.clearsync)) return send(m, OP_CLEARSYNC);
        if (in(w.intr)) return intr(m);
        if (in(w.action)) return action();
        if (in(w.tctl)) return tctl(m);
        if (in(w.rctl)) return rctl();
        if (in(w.sleep)) return sleep();
        if (in(w.spin)) return spin();
        if (in(w.regh)) return regh((int)r.below(p.cache.size()));
        if (in(w.logoff)) return op(OP_LOGOFF, m);
        return tctl(m);
    }
    std::vector<Op> scriptOps() {
        std::vector<Op> v;
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            int x = r.range(0, 99);
            int m = anyMach();
            if (x < 45) v.push_back(send(m));
            else if (x < 55 && q.cbClear) v.push_back(send(m, OP_CLEAR));
            else if (x < 68 && q.cbAction) v.push_back(action());
            else if (x < 78 && q.cbTimers) v.push_back(q.raws && r.chance(1, 2) ? rctl() : tctl(m));
            else if (x < 85 && q.cbInt) v.push_back(intr(m));
            else if (x < 92 && q.cbSleep) { Op s = sleep(); s.ms = std::min(s.ms, 3000); v.push_back(s); }
            else v.push_back(spin());
        }
        return v;
    }
    void script(int m, bool startup) {
        const Spec& s = p.specs[m];
        Script c;
        c.m = m;
        c.nth = startup ? 0 : (int)r.below(4);
        if (startup) {
            c.kind = r.chance(1, 2) ? K_ENTER : K_CHANGED;
            c.obj = s.initial;
        } else {
            int x = r.range(0, 9);
            if (x < 4 && !s.trans.empty()) {
                c.kind = K_TRANS;
                c.obj = s.trans[r.below(s.trans.size())].id;
            } else if (x < 9) {
                c.kind = x < 6 ? K_ENTER : x < 8 ? K_CHANGED : K_EXIT;
                do c.obj = (int)r.below(s.states.size());
                while (s.states[c.obj].history);
                if (c.nth == 0 && c.obj == s.initial && c.kind != K_EXIT && !q.startupScripts) c.nth = 1;
            } else {
                c.kind = K_FAIL;
                c.obj = pickEvent(m);
            }
        }
        for (auto& o : p.scripts)
            if (o.m == c.m && o.kind == c.kind && o.obj == c.obj && o.nth == c.nth) return;
        c.ops = scriptOps();
        p.scripts.push_back(c);
    }
    int drop(int wgt) { return wgt && r.chance(1, 3) ? 0 : wgt; }

    void simCfg() {
        sim::Config& c = p.cfg;
        int x = r.range(0, 9);
        c.policy = x < 5 ? sim::P_RANDOM : x < 8 ? sim::P_PCT : sim::P_SYNC;
        static const uint32_t pe[] = {4, 10, 25, 60, 150, 400};
        c.preempt_every = pe[r.below(6)];
        c.sync_boost = 1 + (uint32_t)r.below(8);
        c.pct_depth = r.range(1, 5);
        c.pct_len = (uint32_t)r.range(500, 8000);
        c.tick_ns = r.chance(1, 3) ? 20 : r.chance(1, 2) ? 200 : 2000;
        c.w_switch = 100;
        c.w_time = r.chance(1, 3) ? r.range(1, 15) : 0;
        c.w_stall = r.chance(1, 2) ? r.range(1, 15) : 0;
        c.w_spurious = r.chance(1, 2) ? r.range(1, 20) : 0;
        if (q.io == 1) c.fault_pct = r.range(2, 30);
        if (q.io > 1) c.fault_pct = r.range(1, 4), p.ioHard = q.io - 1;
        c.w_wall = q.wall && r.chance(1, 2) ? r.range(1, 15) : 0;
        c.time_max_ns = r.chance(1, 2) ? 300000 : 5000000;
        c.stall_max_ns = r.chance(1, 2) ? 1000000 : 20000000;
        c.late_pct = r.chance(1, 3) ? r.range(1, 30) : 0;
        c.late_max_ns = r.chance(1, 2) ? 500000 : 4000000;
        if (!p.irqs.empty()) {
            c.w_signal = r.range(20, 120);
            c.w_bsignal = r.range(0, 30);
        }
        c.max_steps = 6000000;
    }

    void build(const std::string& profile);
    void setPar(const std::string& profile);
};

void Gen::setPar(const std::string& f) {
    W& w = q.w;
    GenCfg& g = q.g;
    g.maxStates = r.range(4, 11);
    g.maxDepth = r.range(1, 3);
    g.vetoPct = r.chance(1, 4) ? 15 : 0;
    if (f == "C01") {
        q.clMin = 2, q.clMax = 4, q.opMin = 2, q.opMax = 10;
        w.sync = drop(8), w.clear = drop(5), w.intr = drop(6), w.action = drop(4);
        q.irqs = r.chance(1, 4);
        g.irqs = 2;
        q.scriptsMax = 5;
        q.cbClear = r.chance(1, 4), q.cbAction = r.chance(1, 3), q.cbInt = true;
    } else if (f == "C02") {
        q.clMin = 2, q.clMax = 4, q.opMin = 4, q.opMax = 14;
        w.send = 90, w.sync = drop(4), w.action = drop(5);
        g.actPct = r.chance(1, 2) ? 25 : 0;
        q.scriptsMin = 1, q.scriptsMax = 6;
        q.cbAction = r.chance(1, 3);
    } else if (f == "C03") {
        q.machMax = 2;
        q.clMin = 2, q.clMax = 4;
        w.sync = drop(10), w.clear = drop(5), w.intr = drop(6), w.action = drop(8), w.tctl = drop(8);
        g.timers = w.tctl ? 2 : 0;
        g.irqs = 1;
        q.irqs = r.chance(1, 4);
        g.actPct = r.chance(1, 3) ? 20 : 0;
        q.initPar = r.chance(1, 3) ? 50 : 0;
        q.startupScripts = true;
        q.cbAction = true, q.cbClear = r.chance(1, 4), q.cbTimers = w.tctl;
    } else if (f == "C04") {
        q.clMin = 1, q.clMax = 4, q.opMin = 2, q.opMax = 8;
        w.send = drop(25), w.sync = 50, w.clear = drop(8), w.clearsync = drop(10);
        g.vetoPct = r.chance(1, 2) ? 15 : 0;
        q.relPar = r.chance(1, 4) ? 100 : 0;
        q.cbSleep = true;
        q.scriptsMax = 3;
    } else if (f == "C05") {
        q.clMin = 1, q.clMax = 4, q.opMin = 3, q.opMax = 12;
        w.send = 60, w.sync = drop(12), w.clear = 25, w.clearsync = drop(8), w.intr = drop(4);
        g.compositePct = 60, g.histPct = 60, g.irqs = 1;
        q.cbClear = true;
        q.scriptsMax = 5;
    } else if (f == "C06") {
        q.machMax = 2;
        q.clMin = 1, q.clMax = 3, q.opMin = 2, q.opMax = 10;
        w.send = 40, w.intr = 25, w.action = drop(8), w.sync = drop(6), w.tctl = drop(4);
        g.irqs = 2, g.timers = w.tctl ? 1 : 0;
        q.irqs = r.range(1, 3);
        q.cacheMin = 1, q.cacheMax = 6;
        q.cbInt = true;
        g.maxStates = r.range(3, 7);
    } else if (f == "C07" || f == "C08") {
        q.clMin = 1, q.clMax = f == "C07" ? 2 : 4, q.opMin = 2, q.opMax = f == "C07" ? 8 : 14;
        bool raw = r.chance(2, 3), mt = !raw || r.chance(1, 3);
        q.raws = raw ? r.range(1, 2) : 0;
        g.timers = mt ? r.range(1, 3) : 0;
        w.send = 10, w.rctl = raw ? 60 : 0, w.tctl = mt ? 40 : 0, w.sleep = 45, w.spin = f == "C08" ? 20 : 4, w.action = drop(4);
        g.actPct = mt && r.chance(1, 3) ? 25 : 0;
        q.cbTimers = true;
        g.maxStates = r.range(3, 6);
        q.wall = 1;
        q.scriptsMax = f == "C07" ? 2 : 5;
    } else if (f == "C09") {
        q.machMin = 2, q.machMax = 3;
        q.clMin = 2, q.clMax = 3, q.opMin = 3, q.opMax = 10;
        w.sync = drop(12), w.clear = drop(4), w.intr = drop(6), w.tctl = drop(12), w.action = drop(5);
        g.irqs = 1, g.timers = w.tctl ? 2 : 0;
        q.irqs = r.chance(1, 4);
        g.maxStates = r.range(3, 7);
        q.relPar = r.chance(1, 2) ? 100 : 0, q.delPar = q.relPar ? (r.chance(1, 3) ? 50 : 0) : 100;
        q.undrained = 50;
    } else if (f == "C10") {
        q.machMax = 2;
        q.clMin = 1, q.clMax = 3, q.opMin = 2, q.opMax = 8;
        w.sync = drop(6), w.clear = drop(3), w.intr = drop(6), w.tctl = drop(15), w.rctl = drop(15), w.action = drop(12);
        g.irqs = 1, g.timers = w.tctl ? 2 : 0, q.raws = w.rctl ? 1 : 0;
        q.irqs = r.chance(1, 4);
        g.maxStates = r.range(3, 6);
        q.infiniteSync = false;
        q.stopPar = r.chance(1, 2) ? 100 : 0;
        q.undrained = 85;
        q.cbAction = true;
        q.handoff = true;
        w.regh = drop(6);
    } else if (f == "C11") {
        q.machMax = 2;
        q.clMin = 1, q.clMax = 4, q.opMin = 3, q.opMax = 12;
        w.send = 25, w.action = 45, w.sync = drop(5), w.regh = drop(4);
        q.cbAction = true;
        q.scriptsMax = 5;
        g.maxStates = r.range(3, 6);
    } else if (f == "C12") {
        q.machMin = 2, q.machMax = 4;
        q.clMin = 2, q.clMax = 4, q.opMin = 3, q.opMax = 10;
        w.sync = drop(6), w.clear = drop(4), w.intr = drop(6), w.tctl = drop(10), w.action = drop(4), w.regh = drop(6);
        g.irqs = 1, g.timers = w.tctl ? 2 : 0;
        q.irqs = r.chance(1, 4);
        g.maxStates = r.range(3, 7);
        q.initPar = 60;
        q.startupScripts = true;
        q.flood = r.chance(1, 4) ? r.range(20, 80) : 0;
        q.delPar = r.chance(1, 4) ? 40 : 0;
    } else if (f == "C13") {
        q.clMax = 2, q.opMin = 6, q.opMax = 25;
        w.send = 80, w.sync = drop(20), w.sleep = 3, w.spin = 3;
        g.maxStates = r.range(6, 18), g.maxDepth = r.range(2, 4);
        g.compositePct = 55, g.parPct = r.chance(1, 2) ? 40 : 0, g.condPct = 35, g.multiPct = 20, g.selfPct = 25, g.entryEvPct = 25, g.vetoPct = r.chance(1, 3) ? 8 : 0;
        q.scriptsMax = 2;
    } else if (f == "C14") {
        q.clMax = 2, q.opMin = 6, q.opMax = 20;
        w.send = 60, w.sync = 30, w.sleep = 3, w.spin = 3, w.tctl = drop(4);
        g.maxStates = r.range(4, 12), g.vetoPct = 40, g.compositePct = 50, g.parPct = r.chance(1, 2) ? 35 : 0;
        g.actPct = r.chance(1, 3) ? 20 : 0, g.timers = 1;
        q.scriptsMax = 3;
    } else if (f == "C15") {
        q.clMax = 2, q.opMin = 8, q.opMax = 30;
        w.send = 80, w.sync = drop(15), w.clear = drop(4), w.sleep = 3, w.spin = 3;
        g.maxStates = r.range(6, 16), g.maxDepth = r.range(2, 4), g.compositePct = 65, g.histPct = 90, g.parPct = r.chance(1, 2) ? 45 : 0, g.vetoPct = r.chance(1, 2) ? 12 : 0;
        q.scriptsMax = 3;
    } else if (f == "C16") {
        q.clMax = 3, q.opMin = 8, q.opMax = 25;
        w.send = 80, w.sync = drop(10), w.clear = drop(4), w.sleep = 4, w.spin = 4;
        g.maxStates = r.range(6, 14), g.compositePct = 60, g.finalPct = 90, g.parPct = r.chance(1, 2) ? 60 : 10, g.vetoPct = r.chance(1, 3) ? 12 : 0;
        q.scriptsMax = 3;
    } else if (f == "C17") {
        q.machMax = 2;
        q.clMin = 2, q.clMax = 4, q.opMin = 1, q.opMax = 6;
        w.sync = drop(15), w.clear = drop(6), w.action = drop(4), w.intr = drop(4);
        g.irqs = 1;
        g.compositePct = 70, g.actPct = r.chance(1, 2) ? 30 : 0, g.parPct = 30;
        q.initPar = 100;
        q.startupScripts = true;
        q.scriptsMin = 1, q.scriptsMax = 4;
    } else if (f == "C18") {
        q.clMax = 2, q.opMin = 6, q.opMax = 20;
        w.send = 80, w.sync = drop(15), w.sleep = 10, w.spin = 4;
        g.actPct = 60, g.timers = 2, g.vetoPct = r.chance(1, 2) ? 25 : 0, g.maxStates = r.range(4, 9);
        q.scriptsMax = 3;
    } else if (f == "C19") {
        q.machMin = 1, q.machMax = 3;
        q.clMin = 2, q.clMax = 4, q.opMin = 4, q.opMax = 14;
        w.send = 30, w.sync = drop(12), w.clear = drop(6), w.clearsync = drop(4), w.intr = drop(8), w.action = drop(12), w.tctl = drop(25), w.rctl = drop(25), w.regh = drop(12);
        g.timers = 2, g.irqs = 1, q.raws = 1, g.actPct = 15;
        q.irqs = r.chance(1, 4);
        g.maxStates = r.range(3, 6);
        q.cbAction = q.cbClear = q.cbTimers = q.cbInt = true;
        q.initPar = 30;
        q.delPar = r.chance(1, 4) ? 30 : 0;
        q.stopPar = r.chance(1, 6) ? 100 : 0;
        if (q.stopPar) q.infiniteSync = false;
        q.undrained = 20;
        q.startupScripts = true;
    } else if (f == "C20") {
        q.machMin = 1, q.machMax = 3;
        q.clMin = 1, q.clMax = 3, q.opMin = 2, q.opMax = 10;
        w.sync = drop(10), w.clear = drop(5), w.logoff = drop(4);
        g.actPct = r.chance(1, 2) ? 20 : 0, g.vetoPct = r.chance(1, 2) ? 20 : 0, g.histPct = 40;
        q.relPar = r.chance(1, 4) ? 60 : 0, q.delPar = r.chance(1, 4) ? 60 : 0;
        q.log = r.range(1, 3);
        if (r.chance(1, 2)) g.timers = 1, w.tctl = 8;
        q.io = r.chance(1, 2) ? r.range(1, 3) : 0;   // 1: short and interrupted writes only
    } else if (f == "C21") {
        q.rounds = true;
        q.clMin = 0, q.clMax = 0;
        g.maxStates = r.range(5, 14), g.condPct = 40, g.compositePct = 55, g.entryEvPct = 30, g.parPct = r.chance(1, 2) ? 30 : 0, g.vetoPct = 0;
        q.scriptsMax = 0;
    }
}

void Gen::build(const std::string& profile) {
    p.profile = profile;
    setPar(profile);
    // whatever is promised for a machine must hold next to other machines and dispatchers too
    if (!q.rounds && q.machMax < 2 && r.chance(1, 5)) q.machMax = r.range(2, 3);
    if (!q.rounds && q.machMax > 1 && r.chance(1, 6)) q.disp = 2;
    int nm = r.range(q.machMin, q.machMax);
    for (int d = 0; d < q.disp; d++) p.cache.push_back(r.range(q.cacheMin, q.cacheMax));
    for (int i = 0; i < nm; i++) {
        GenCfg g = q.g;
        g.timerBase = 1 + 10 * i;
        if (i) g.maxStates = std::max(3, g.maxStates - 2 * i);
        p.specs.push_back(generate(r, g));
        MachPlan mp;
        mp.disp = (int)r.below(q.disp);
        mp.log = !q.log || r.chance(1, 8) ? 0 : q.log == 3 && r.chance(1, 3) ? 3 : q.log == 2 && r.chance(2, 3) ? 2 : 1;
        p.mach.push_back(mp);
    }
    for (int i = 0; i < q.raws; i++) p.raws.push_back({(int)r.below(q.disp), 1000 + 10 * i});
    // set-up
    std::vector<int> later;
    for (int i = 0; i < nm; i++) {
        if (i + 1 < nm || q.initPar == 100 || nm == 1) {
        }
        bool par = (int)r.below(100) < q.initPar && (nm > 1 || q.initPar == 100);
        if (par && !(i == 0 && q.raws)) later.push_back(i);
        else p.setup.push_back(op(OP_INIT, i));
    }
    for (int i = 0; i < q.raws; i++) p.setup.push_back(op(OP_REGRAW, i));
    // clients
    int nc = r.range(q.clMin, q.clMax);
    for (int c = 0; c < nc; c++) {
        std::vector<Op> v;
        bool wait = later.empty() ? false : true;
        int n = r.range(q.opMin, q.opMax);
        if (wait) {
            int m = later[r.below(later.size())];
            v.push_back(op(OP_WAITINIT, m));
        }
        W w = q.w;
        for (int i = 0; i < n; i++) v.push_back(clientOp(w));
        p.clients.push_back(v);
    }
    // machines initialised while the clients run: by the main thread, or by an action on the dispatcher
    for (int i : later) {
        if (r.chance(1, 2)) p.parallel.push_back(r.chance(1, 2) ? sleep() : spin());
        Op in = op(OP_INIT, i);
        // start() is not thread-safe: initialise on the dispatcher's thread only if it is certainly started
        bool started = false;
        for (auto& o : p.setup) started = started || (o.k == OP_INIT && p.mach[o.m].disp == p.mach[i].disp);
        if (started && r.chance(1, 3)) {
            Op a = op(OP_ACTION, p.mach[i].disp);
            a.body.push_back(in);
            p.parallel.push_back(a);
        } else {
            p.parallel.push_back(in);
        }
    }
    if (q.flood && nm >= 2) {
        std::vector<Op> v;
        int m = (int)r.below(nm);
        for (int i = 0; i < q.flood; i++) v.push_back(send(m));
        p.clients.push_back(v);
    }
    if (q.stopPar && (int)r.below(100) < q.stopPar) {
        p.parallel.push_back(r.chance(1, 2) ? sleep() : spin());
        Op s = op(OP_DSTOP, (int)r.below(q.disp));
        if (r.chance(1, 4)) {
            Op a = op(OP_ACTION, s.m);
            a.body.push_back(s);
            p.parallel.push_back(a);
        } else if (!p.raws.empty() && r.chance(1, 4)) {
            // from the handler of a timer
            int raw = (int)r.below(p.raws.size());
            Script c;
            c.m = raw;
            c.kind = SK_RAW;
            c.obj = p.raws[raw].firstTimer + (int)r.below(3);
            c.nth = (int)r.below(2);
            s.m = p.raws[raw].disp;
            c.ops.push_back(s);
            p.scripts.push_back(c);
        } else if (r.chance(1, 3)) {
            // from a callback
            int m = anyMach();
            Script c;
            c.m = m;
            c.kind = K_TRANS;
            c.nth = (int)r.below(2);
            if (!p.specs[m].trans.empty()) {
                c.obj = p.specs[m].trans[r.below(p.specs[m].trans.size())].id;
                s.m = p.mach[m].disp;
                c.ops.push_back(s);
                p.scripts.push_back(c);
            }
        } else {
            p.parallel.push_back(s);
        }
    }
    for (int i = 0; i < nm; i++) {
        bool rel = (int)r.below(100) < q.relPar, del = (int)r.below(100) < q.delPar;
        if (nm > 1 && i == 0 && r.chance(1, 2)) rel = del = false;
        if (rel || del) {
            p.parallel.push_back(r.chance(1, 2) ? sleep() : spin());
            Op x = op(del ? OP_DELETE : OP_RELEASE, i);
            if (!del && r.chance(1, 4)) {
                Op a = op(OP_ACTION, p.mach[i].disp);
                a.body.push_back(x);
                p.parallel.push_back(a);
            } else {
                p.parallel.push_back(x);
            }
        }
    }
    // callbacks that do something
    int ns = r.range(q.scriptsMin, q.scriptsMax);
    for (int i = 0; i < ns; i++) script(anyMach(), q.startupScripts && r.chance(1, 3));
    if (q.log)
        for (auto& c : p.scripts)
            if (c.kind != SK_RAW && p.mach[c.m].log && r.chance(1, 4)) {
                c.ops.insert(c.ops.begin() + (long)r.below(c.ops.size() + 1), op(OP_LOGOFF, c.m));
                if (r.chance(2, 3)) c.ops.push_back(op(OP_LOGON, c.m));
            }
    for (size_t i = 0; i < p.raws.size(); i++)
        for (int k = 0; k < 3; k++)
            if (r.chance(1, 3)) {
                Script c;
                c.m = (int)i;
                c.kind = SK_RAW;
                c.obj = p.raws[i].firstTimer + k;
                c.nth = (int)r.below(3);
                int x = r.range(0, 2);
                if (x == 0) c.ops.push_back(send(anyMach()));
                else if (x == 1) c.ops.push_back(spin());
                else if (q.cbAction) c.ops.push_back(action());
                else { Op s = sleep(); s.ms = std::min(s.ms, 2000); c.ops.push_back(s); }
                p.scripts.push_back(c);
            }
    // interrupts
    for (int i = 0; i < q.irqs; i++) {
        int m = anyMach();
        if (p.specs[m].irqEvents.empty()) continue;
        Irq x;
        x.opid = nextOp++;
        x.m = m;
        x.ev = p.specs[m].irqEvents[r.below(p.specs[m].irqEvents.size())];
        x.count = r.range(1, 10);
        x.notBefore = r.below(4000);
        x.burst = r.chance(2, 3) ? 1 : r.range(2, 4);
        p.irqs.push_back(x);
    }
    // the end
    auto& f = p.finale;
    bool drained = (int)r.below(100) >= q.undrained;
    if (q.rounds) {
        int rounds = r.range(3, 8);
        for (int k = 0; k < rounds; k++) {
            f.push_back(op(OP_IDLE));
            int nq = r.range(2, 6);
            for (int i = 0; i < nq; i++) {
                Op x = op(OP_POSSIBLE, 0);
                x.ev = pickEvent(0);
                x.flags = r.range(0, 15);
                x.single = r.chance(1, 6);
                f.push_back(x);
            }
            f.push_back(op(OP_CHECK, 0));
            // the same question, then the event itself
            Op x = op(OP_POSSIBLE, 0);
            x.ev = pickEvent(0);
            x.flags = r.range(0, 15);
            f.push_back(x);
            int ev = x.ev, fl = x.flags;
            Op s = send(0, r.chance(1, 2) ? OP_SYNC : OP_SEND);
            s.ev = ev;
            s.flags = fl;
            f.push_back(s);
            int extra = (int)r.below(3);
            for (int i = 0; i < extra; i++) f.push_back(send(0));
        }
    }
    if (drained) {
        if (q.raws || q.g.timers) {
            Op s = op(OP_SLEEP);
            s.ms = r.range(0, 60) * 1000;
            f.push_back(s);
        }
        if (r.chance(1, 2)) f.push_back(op(OP_QUIET));
        Op idle = op(OP_IDLE);
        idle.flags = 1;
        f.push_back(idle);
        for (int i = 0; i < nm; i++) f.push_back(op(OP_CHECK, i));
    } else if (r.chance(1, 2)) {
        f.push_back(r.chance(1, 2) ? sleep() : spin());
    }
    p.expectAll = drained;
    std::vector<int> ord;
    for (int i = 0; i < nm; i++) ord.push_back(i);
    for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    for (int i : ord) {
        if (r.chance(1, 2)) f.push_back(op(OP_RELEASE, i));
        f.push_back(op(OP_DELETE, i));
    }
    for (size_t i = 0; i < p.raws.size(); i++)
        if (r.chance(1, 2)) f.push_back(op(OP_UNREGRAW, (int)i));
    for (int d = 0; d < q.disp; d++) {
        if (r.chance(1, 4)) f.push_back(op(OP_DSTOP, d));
        Op x = op(q.handoff && r.chance(1, 3) ? OP_HANDOFF : OP_DDROP, d);
        if (x.k == OP_HANDOFF) x.flags = (int)r.below(4), x.ms = r.range(1, 5), x.single = r.chance(1, 2), x.timer = (int)r.below(2);
        f.push_back(x);
    }
    p.opCount = nextOp;
    simCfg();
}
}  // namespace

Plan genPlan(const std::string& profile, uint64_t seed) {
    Gen g(seed ^ 0x9e3779b97f4a7c15ull);
    g.p.wseed = seed;
    g.build(profile);
    if (backend.polled) {   // one thread: nobody can wait for the result of an event
        std::function<void(std::vector<Op>&)> fix = [&](std::vector<Op>& v) {
            for (auto& o : v) {
                if (o.k == OP_SYNC) o.k = OP_SEND;
                if (o.k == OP_CLEARSYNC) o.k = OP_CLEAR;
                fix(o.body);
            }
        };
        fix(g.p.setup), fix(g.p.parallel), fix(g.p.finale);
        for (auto& c : g.p.clients) fix(c);
        for (auto& s : g.p.scripts) fix(s.ops);
    }
    if (backend.noSignals && profile != "C06") g.p.irqs.clear();
    return g.p;
}
std::vector<std::string> profileNames() {
    std::vector<std::string> v;
    for (int i = 1; i <= 21; i++) {
        char b[8];
        snprintf(b, sizeof b, "C%02d", i);
        v.push_back(b);
    }
    return v;
}

}  // namespace w
