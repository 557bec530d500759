#include "spec.h"
#include <algorithm>
#include <set>
#include <cstdio>
#include <functional>

namespace w {

const char* kindName(int k) {
    static const char* n[] = {"enter", "exit", "state", "transition", "history-default", "failed", "action"};
    return n[k];
}

static bool hit(sim::Rng& r, int pct) { return pct > 0 && r.chance(pct, 100); }

Spec generate(sim::Rng& r, const GenCfg& g) {
    Spec s;
    s.nEvents = r.range(3, 7);
    auto addState = [&](int parent) {
        SState x;
        x.id = (int)s.states.size();
        x.parent = parent;
        x.hasEnter = !hit(r, g.missingCbPct);
        x.hasExit = !hit(r, g.missingCbPct);
        x.hasChanged = !hit(r, g.missingCbPct);
        s.states.push_back(x);
        return x.id;
    };
    // group = children of one parent (-1: top level)
    std::vector<std::pair<int, std::vector<int>>> groups;
    std::function<void(int, int)> makeGroup = [&](int parent, int depth) {
        int n = parent < 0 ? r.range(2, 4) : r.range(2, 3);
        std::vector<int> ids;
        for (int i = 0; i < n && (int)s.states.size() < g.maxStates + 2; i++) ids.push_back(addState(parent));
        if (ids.empty()) ids.push_back(addState(parent));
        groups.emplace_back(parent, ids);
        for (int id : ids)
            if (depth < g.maxDepth && (int)s.states.size() < g.maxStates && hit(r, g.compositePct)) {
                s.states[id].composite = true;
                makeGroup(id, depth + 1);
            }
    };
    makeGroup(-1, 1);
    s.initial = groups[0].second[r.below(groups[0].second.size())];
    auto newEvent = [&]() { return s.nextEvent++; };
    std::map<int, bool> groupPar;   // parent -> parallel
    // entry points
    for (auto& gr : groups) {
        int p = gr.first;
        auto& ids = gr.second;
        if (p < 0) continue;
        bool par = ids.size() >= 2 && hit(r, g.parPct);
        groupPar[p] = par;
        s.states[p].groupParallel = par;
        std::vector<int> order = ids;
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        size_t k = 0;
        if (par) {
            s.anyPar = true;
            size_t n = 2 + (order.size() > 2 && r.chance(1, 3));
            for (; k < n; k++) s.entries.push_back({p, order[k], NONE, -1, true});
        } else if (hit(r, g.condPct) && order.size() >= 2) {
            int bit = (int)r.below(4);
            s.entries.push_back({p, order[0], NONE, bit, true});
            s.entries.push_back({p, order[1], NONE, bit, false});
            k = 2;
        } else if (hit(r, g.entryEvPct) && order.size() >= 2) {
            // an entry point bound to an event, and a default one: both match on that event (parallel), so only use
            // events that exclude each other
            int e = (int)r.below(s.nEvents);
            s.entries.push_back({p, order[0], e, -1, true});
            if (r.chance(1, 2)) {
                int e2 = (e + 1) % s.nEvents;
                s.entries.push_back({p, order[1], e2, -1, true});
            }
            k = 2;
        } else {
            s.entries.push_back({p, order[0], NONE, -1, true});
            k = 1;
        }
    }
    int tid = 0;
    auto addTrans = [&](int from, int to, int ev, bool self, bool internal, int cond, bool expect) {
        s.trans.push_back({tid++, from, to, ev, self, internal, cond, expect});
    };
    // finals, transitions, histories
    for (auto& gr : groups) {
        int p = gr.first;
        auto& ids = gr.second;
        if (p >= 0 && hit(r, g.finalPct)) {
            int n = 1 + r.chance(1, 4);
            std::vector<int> plain = ids;
            for (int i = 0; i < n; i++) {
                int f = addState(p);
                s.states[f].final_ = true;
                bool own = r.chance(2, 3);
                if (own) {
                    s.states[f].finEvent = newEvent();
                    s.finEvents.push_back(s.states[f].finEvent);
                }
                for (int from : plain)
                    if (r.chance(2, 3)) addTrans(from, f, (int)r.below(s.nEvents), false, false, -1, true);
                // the parent reacts (to a plain sibling)
                if (own && r.chance(4, 5)) {
                    for (auto& g2 : groups)
                        if (std::find(g2.second.begin(), g2.second.end(), p) != g2.second.end() && g2.second.size() > 1) {
                            int to;
                            do to = g2.second[r.below(g2.second.size())];
                            while (to == p);
                            addTrans(p, to, s.states[f].finEvent, false, false, -1, true);
                        }
                }
            }
        }
        if (ids.size() >= 2) {
            int n = 1 + (int)(ids.size() * s.nEvents * g.transPct / 200);
            for (int i = 0; i < n; i++) {
                int from = ids[r.below(ids.size())], to;
                do to = ids[r.below(ids.size())];
                while (to == from);
                int ev = (int)r.below(s.nEvents);
                bool dup = false;
                for (auto& t : s.trans) dup = dup || (t.from == from && t.ev == ev);
                if (dup) {
                    if (hit(r, g.multiPct)) {  // several targets: they become active in parallel
                        bool same = false;
                        for (auto& t : s.trans)
                            same = same || (t.from == from && t.ev == ev && (t.to == to || t.cond >= 0 || t.self || s.states[t.to].final_));
                        if (!same) {
                            addTrans(from, to, ev, false, false, -1, true);
                            s.anyPar = true;
                            groupPar[p] = true;
                            if (p >= 0) s.states[p].groupParallel = true;
                        }
                    }
                    continue;
                }
                if (hit(r, g.condPct)) {
                    int bit = (int)r.below(4);
                    bool ex = r.chance(1, 2);
                    addTrans(from, to, ev, false, false, bit, ex);
                    if (ids.size() > 2 && r.chance(1, 2)) {
                        int to2;
                        do to2 = ids[r.below(ids.size())];
                        while (to2 == from || to2 == to);
                        addTrans(from, to2, ev, false, false, bit, !ex);
                    }
                } else {
                    addTrans(from, to, ev, false, false, -1, true);
                }
            }
        }
        for (int id : ids)
            if (hit(r, g.selfPct)) {
                int ev = (int)r.below(s.nEvents);
                bool dup = false;
                for (auto& t : s.trans) dup = dup || (t.from == id && t.ev == ev);
                if (!dup) addTrans(id, id, ev, true, r.chance(1, 2), hit(r, g.condPct) ? (int)r.below(4) : -1, true);
            }
    }
    // histories (only where the parent's own group is never parallel)
    for (auto& gr : groups) {
        for (int p : gr.second) {
            if (!s.states[p].composite || !hit(r, g.histPct) || groupPar[gr.first] || gr.second.size() < 2) continue;
            int n = 1 + r.chance(1, 4);
            for (int i = 0; i < n; i++) {
                int h = addState(-2);
                s.states[h].history = true;
                s.states[h].hasEnter = s.states[h].hasExit = s.states[h].hasChanged = false;
                int def = NONE;
                if (r.chance(1, 2)) {
                    std::vector<int> c;
                    for (auto& g2 : groups)
                        if (g2.first == p)
                            for (int x : g2.second)
                                if (!s.states[x].final_) c.push_back(x);
                    if (!c.empty()) def = c[r.below(c.size())];
                }
                s.hists.push_back({p, h, r.chance(1, 2), def, r.chance(2, 3)});
                int ev = newEvent();
                s.histEvents.push_back(ev);
                for (int from : gr.second)
                    if (from != p && r.chance(3, 4)) addTrans(from, h, ev, false, false, -1, true);
            }
        }
    }
    // leave events so that composites are left often
    for (auto& gr : groups)
        for (int p : gr.second)
            if (s.states[p].composite && gr.second.size() > 1 && r.chance(2, 3)) {
                int to, ev = s.nEvents;  // one shared "leave" event
                do to = gr.second[r.below(gr.second.size())];
                while (to == p);
                addTrans(p, to, ev, false, false, -1, true);
            }
    s.nEvents++;
    // vetoes
    for (auto& st : s.states) {
        if (st.history) continue;
        if (hit(r, g.vetoPct)) {
            st.hasExit = true;
            for (int i = 0; i < 6; i++)
                if (r.chance(1, 3)) st.exitVeto.push_back(i);
            s.anyVeto = true;
        }
        if (hit(r, g.vetoPct) && st.id != s.initial) {
            st.hasEnter = true;
            for (int i = 0; i < 6; i++)
                if (r.chance(1, 3)) st.enterVeto.push_back(i);
            s.anyVeto = true;
        }
    }
    for (auto& h : s.hists) {
        auto& st = s.states[h.parent];
        if (!g.vetoPct || !st.enterVeto.empty() || st.id == s.initial || !r.chance(1, 3)) continue;
        st.hasEnter = true;
        for (int i = 1; i < 8; i++)
            if (r.chance(1, 3)) st.enterVeto.push_back(i);
        s.anyVeto = true;
    }
    // timers, interrupt events: each has its own event, handled somewhere or reported as failed
    auto handle = [&](int ev) {
        int n = (int)r.below(3);
        for (int i = 0; i < n; i++) {
            auto& gr = groups[r.below(groups.size())];
            if (gr.second.size() < 2) continue;
            int from = gr.second[r.below(gr.second.size())], to;
            do to = gr.second[r.below(gr.second.size())];
            while (to == from);
            bool dup = false;
            for (auto& t : s.trans) dup = dup || (t.from == from && t.ev == ev);
            if (!dup) addTrans(from, to, ev, false, false, -1, true);
        }
        if (r.chance(1, 3)) {
            int id = groups[0].second[r.below(groups[0].second.size())];
            bool dup = false;
            for (auto& t : s.trans) dup = dup || (t.from == id && t.ev == ev);
            if (!dup) addTrans(id, id, ev, true, true, -1, true);
        }
    };
    for (int i = 0; i < g.timers; i++) {
        STimer t{g.timerBase + i, newEvent()};
        s.timers.push_back(t);
        handle(t.ev);
    }
    for (int i = 0; i < g.irqs; i++) {
        int e = newEvent();
        s.irqEvents.push_back(e);
        handle(e);
    }
    // state actions
    for (auto& st : s.states) {
        if (st.history || !hit(r, g.actPct)) continue;
        int n = 1 + (int)r.below(2);
        for (int i = 0; i < n; i++) {
            SAct a{};
            a.state = st.id;
            a.onEntry = r.chance(2, 3);
            a.type = (g.timers && r.chance(1, 2)) ? (int)r.below(3) : A_TRANS;
            if (a.type == A_TRANS) {
                a.ev = newEvent();
                s.actEvents.push_back(a.ev);
                int k = (int)r.below(3);
                for (int j = 0; j < k; j++) a.extra.push_back(r.range(0, 15));
                if (r.chance(1, 2)) handle(a.ev);
            } else {
                a.timer = s.timers[r.below(s.timers.size())].id;
                a.interval = r.range(1, 30);
                a.single = r.chance(1, 2);
            }
            s.acts.push_back(a);
        }
    }
    // an event raised by a state action never leads into states that raise events: no endless chains
    std::vector<int> raising;
    for (auto& a : s.acts)
        if (a.type == A_TRANS) raising.push_back(a.state);
    auto related = [&](int x) {
        for (int q : raising) {
            for (int k = x; k >= 0; k = s.states[k].parent)
                if (k == q) return true;
            for (int k = q; k >= 0; k = s.states[k].parent)
                if (k == x) return true;
        }
        return false;
    };
    for (size_t i = 0; i < s.trans.size();) {
        auto& t = s.trans[i];
        bool isAct = std::find(s.actEvents.begin(), s.actEvents.end(), t.ev) != s.actEvents.end();
        if (isAct && (related(t.from) || related(t.to))) s.trans.erase(s.trans.begin() + (long)i);
        else i++;
    }
    // final states can be parallel targets as well
    for (auto& t : s.trans)
        for (auto& u : s.trans) {
            bool excl = t.cond >= 0 && t.cond == u.cond && t.expect != u.expect;
            if (t.from == u.from && t.ev == u.ev && t.to != u.to && !excl)
                for (int to : {t.to, u.to})
                    if (s.states[to].parent >= 0) s.states[s.states[to].parent].groupParallel = true;
        }
    return s;
}

std::string Spec::describe() const {
    std::string o;
    char b[256];
    snprintf(b, sizeof b, "initial s%d\n", initial);
    o += b;
    for (auto& s : states) {
        if (s.history) continue;
        snprintf(b, sizeof b, "state s%d parent %s%s%s%s%s", s.id, s.parent < 0 ? "-" : ("s" + std::to_string(s.parent)).c_str(),
                 s.final_ ? " final" : "", s.hasEnter ? "" : " no-enter-cb", s.hasExit ? "" : " no-exit-cb", s.hasChanged ? "" : " no-state-cb");
        o += b;
        if (s.final_) o += " event " + std::to_string(s.finEvent);
        for (int v : s.enterVeto) o += " refuse-enter#" + std::to_string(v);
        for (int v : s.exitVeto) o += " refuse-exit#" + std::to_string(v);
        o += "\n";
    }
    for (auto& e : entries) {
        snprintf(b, sizeof b, "entry s%d -> s%d event %d cond %d=%d\n", e.parent, e.state, e.onEvent, e.cond, e.expect);
        o += b;
    }
    for (auto& h : hists) {
        snprintf(b, sizeof b, "history s%d of s%d %s default %d\n", h.id, h.parent, h.deep ? "deep" : "shallow", h.def);
        o += b;
    }
    for (auto& t : trans) {
        snprintf(b, sizeof b, "transition #%d s%d -> s%d on %d%s cond %d=%d\n", t.id, t.from, t.to, t.ev,
                 t.self ? (t.internal ? " internal" : " external-self") : "", t.cond, t.expect);
        o += b;
    }
    for (auto& t : timers) {
        snprintf(b, sizeof b, "timer %d event %d\n", t.id, t.ev);
        o += b;
    }
    for (auto& a : acts) {
        snprintf(b, sizeof b, "action s%d on-%s type %d timer %d %dms single %d event %d\n", a.state, a.onEntry ? "entry" : "exit", a.type,
                 a.timer, a.interval, a.single, a.ev);
        o += b;
    }
    return o;
}

uint64_t argHashInts(const std::vector<int>& v) {
    uint64_t h = v.size();
    for (int x : v) h = (h ^ (uint64_t)(uint32_t)x) * 1099511628211ull + 7;
    return h;
}
uint64_t argHashOwn(int seq, int flags) { return argHashInts({seq, flags, seq * 31 + flags, -77}); }
uint64_t argHash(const Ev* e) {
    if (!e) return 0;
    if (e->hasArgs) return argHashOwn(e->seq, e->flags);
    return argHashInts(e->extra);
}

// ------------------------------------------------------------------ model
void Model::build() {
    children.resize(sp->states.size());
    ep.resize(sp->states.size());
    for (auto& s : sp->states)
        if (s.parent >= 0) children[s.parent].push_back(s.id);
    for (auto& e : sp->entries) ep[e.parent].push_back(&e);
}
bool Model::isActive(int s) const { return std::find(active.begin(), active.end(), s) != active.end(); }
bool Model::isSubOf(int parent, int child) const {
    if (parent < 0 || child < 0) return false;
    for (int c = sp->states[child].parent; c >= 0; c = sp->states[c].parent)
        if (c == parent) return true;
    return false;
}
std::vector<int> Model::activeSorted() const {
    std::vector<int> v = active;
    std::sort(v.begin(), v.end());
    return v;
}
bool Model::cond(int bit, bool expect, int flags, bool hasArgs) const {
    if (bit < 0) return true;
    bool v = hasArgs && ((flags >> bit) & 1);
    return v == expect;
}
std::vector<int> Model::entryPoints(int state, int ev, int flags, bool hasArgs) const {
    std::vector<int> o;
    if (state < 0) return o;
    for (auto* e : ep[state])
        if ((e->onEvent == NONE || e->onEvent == ev) && cond(e->cond, e->expect, flags, hasArgs)) o.push_back(e->state);
    return o;
}
const SHist* Model::histOf(int id) const {
    for (auto& h : sp->hists)
        if (h.id == id) return &h;
    return nullptr;
}
void Model::emit(int kind, int a, const Ev* e, bool veto) {
    Exp x;
    x.kind = kind;
    x.a = a;
    x.b = 0;
    x.seq = (e && e->hasArgs) ? e->seq : -1;
    x.argh = argHash(e);
    x.veto = veto;
    x.active = activeSorted();
    out.push_back(x);
}
const char* logKindName(int k) {
    static const char* n[] = {"idle", "transition", "transition_entrypoint", "callback_exit", "callback_enter", "callback_state", "onenter_actions", "onexit_actions"};
    return n[k];
}
void Model::log(int kind, int from, int to, int ev, const Ev* e, bool failed) {
    LogExp x{};
    x.kind = kind;
    x.from = from;
    x.to = to;
    x.ev = ev;
    x.failed = failed;
    if (e) {
        x.hasArgs = e->hasArgs;
        x.seq = e->seq;
        x.flags = e->flags;
        x.extra = e->extra;
    }
    x.active = activeSorted();
    for (auto& o : out) x.cb += o.kind != K_ACT;
    x.after = -1;
    logs.push_back(x);
}
void Model::remove(int s) { active.erase(std::remove(active.begin(), active.end(), s), active.end()); }
bool Model::add(int s) {
    if (isActive(s)) return false;
    active.push_back(s);
    return true;
}
void Model::actions(int s, bool onEntry) {
    for (auto& a : sp->acts)
        if (a.state == s && a.onEntry == onEntry) {
            log(onEntry ? L_ONENTER : L_ONEXIT, NONE, s);
            break;
        }
    for (size_t i = 0; i < sp->acts.size(); i++)
        if (sp->acts[i].state == s && sp->acts[i].onEntry == onEntry) {
            Exp x;
            x.kind = K_ACT;
            x.a = s;
            x.b = (int)i;
            x.seq = -1;
            out.push_back(x);
        }
}
bool Model::enter(int s, const Ev* e) {
    if (isActive(s)) return true;  // entered once only
    const SState& st = sp->states[s];
    bool ok = true;
    if (st.hasEnter) {
        int n = enterCalls[s]++;
        ok = std::find(st.enterVeto.begin(), st.enterVeto.end(), n) == st.enterVeto.end();
        emit(K_ENTER, s, e, !ok);
        log(L_ENTER, NONE, s, NONE, e, !ok);
    }
    if (ok) actions(s, true);
    return ok;
}
bool Model::exit(int s) {
    const SState& st = sp->states[s];
    bool ok = true;
    if (st.hasExit) {
        int n = exitCalls[s]++;
        ok = std::find(st.exitVeto.begin(), st.exitVeto.end(), n) == st.exitVeto.end();
        emit(K_EXIT, s, nullptr, !ok);
        log(L_EXIT, s, NONE, NONE, nullptr, !ok);
    }
    if (ok) actions(s, false);
    return ok;
}
void Model::changed(int s, const Ev* e) {
    if (!sp->states[s].hasChanged) return;
    emit(K_CHANGED, s, e);
    log(L_STATE, NONE, s, NONE, e);
}
void Model::startup() {
    out.clear();
    logs.clear();
    log(L_IDLE, NONE, NONE);
    enter(sp->initial, nullptr);
    active.push_back(sp->initial);
    changed(sp->initial, nullptr);
    if (!entryPoints(sp->initial, NONE, 0, false).empty()) {
        Ev e;
        e.type = Ev::ENTRY;
        front.push_front(e);
    }
}
bool Model::targetEnterable(int dest, int ev, int flags, bool hasArgs) const {
    // breadth first through the matching entry points until one leaf is found
    std::deque<int> q{dest};
    while (!q.empty()) {
        int c = q.front();
        q.pop_front();
        if (!hasSubstates(c)) return true;
        auto e = entryPoints(c, ev, flags, hasArgs);
        if (e.empty()) return false;
        q.insert(q.end(), e.begin(), e.end());
    }
    return false;
}
bool Model::findTargets(int from, const Ev& e, std::vector<MT>& o) const {
    for (auto& t : sp->trans)
        if (t.from == from && t.ev == e.id && cond(t.cond, t.expect, e.flags, e.hasArgs) &&
            targetEnterable(t.to, e.id, e.flags, e.hasArgs))
            o.push_back({t.from, t.to, t.self && t.internal, t.id, -1});
    return !o.empty();
}
bool Model::possible(int ev, int flags, bool hasArgs) const {
    for (int a : active) {
        // the closest ancestor-or-self which has transitions for this event decides
        for (int s = a; s >= 0; s = sp->states[s].parent) {
            bool any = false, ok = false;
            for (auto& t : sp->trans)
                if (t.from == s && t.ev == ev) {
                    any = true;
                    ok = ok || (cond(t.cond, t.expect, flags, hasArgs) && targetEnterable(t.to, ev, flags, hasArgs));
                }
            if (ok) return true;
            if (any) break;
        }
    }
    return false;
}
bool Model::determine(int from, const Ev& e, std::vector<MT>& o) const {
    if (e.type == Ev::REG) return findTargets(from, e, o);
    if (e.type == Ev::ENTRY) {
        for (int a : active)
            if (a != from && sp->states[a].parent == from) return false;
        for (int s : entryPoints(from, e.id, e.flags, e.hasArgs)) o.push_back({from, s, false, -1, -1});
        return !o.empty();
    }
    o = e.forced;
    return true;
}
void Model::remember(int top, const std::vector<int>& exited) {
    std::vector<int> cleared;
    for (int s : exited) {
        int cur = s;
        while (sp->states[cur].parent >= 0) {
            int par = sp->states[cur].parent;
            for (auto& h : sp->hists)
                if (h.parent == par) {
                    auto& v = hist[h.id];
                    if (std::find(cleared.begin(), cleared.end(), h.id) == cleared.end()) {
                        v.clear();
                        cleared.push_back(h.id);
                    }
                    int keep = h.deep ? s : cur;
                    if (std::find(v.begin(), v.end(), keep) == v.end()) v.push_back(keep);
                }
            if (top == par) break;
            cur = par;
        }
    }
}
bool Model::hasActiveNonFinal(int parent) const {
    for (int a : active)
        if (!sp->states[a].final_ && isSubOf(parent, a)) return true;
    return false;
}
Status Model::external(const Ev& e, int from, const MT& t, const std::vector<int>& exited) {
    log(e.type == Ev::ENTRY ? L_ENTRYTRANS : L_TRANS, t.from, t.to, e.id, &e);
    if (t.trans >= 0) emit(K_TRANS, t.trans, &e), probe.transitions++;
    if (t.histcb >= 0) emit(K_HISTDEF, t.histcb, &e);
    if (!enter(t.to, &e)) {
        probe.vetoEnter++;
        // nothing inside of it will be restored
        for (auto it = front.begin(); it != front.end();) {
            if (it->type == Ev::FORCED) {
                auto& f = it->forced;
                f.erase(std::remove_if(f.begin(), f.end(), [&](const MT& x) { return isSubOf(t.to, x.to); }), f.end());
                if (f.empty()) {
                    it = front.erase(it);
                    continue;
                }
            }
            ++it;
        }
        return ST_FAILED;
    }
    if (!isSubOf(from, t.to)) remove(from);
    if (add(t.to)) changed(t.to, &e);
    else merged = true;
    const SState& st = sp->states[t.to];
    if (st.final_) return ST_OK;   // see finals()
    if (const SHist* h = histOf(t.to)) {
        auto& prev = hist[h->id];
        if (!prev.empty()) {
            probe.histRestore++;
            // innermost first on the list; every state that contains a remembered one is entered without its entry points
            Ev b = e;
            b.type = Ev::FORCED;
            b.forced.clear();
            std::vector<Ev> batches;
            for (size_t i = 0; i < prev.size(); i++) {
                bool holds = false, parentOfBatch = false;
                for (size_t j = 0; j < i; j++) holds = holds || isSubOf(prev[i], prev[j]);
                for (auto& m : b.forced) parentOfBatch = parentOfBatch || isSubOf(prev[i], m.to);
                if (!b.forced.empty() && (parentOfBatch || holds != b.ignoreEP)) {
                    batches.push_back(b);
                    b.forced.clear();
                }
                b.ignoreEP = holds;
                b.forced.push_back({t.to, prev[i], false, -1, -1});
            }
            batches.push_back(b);
            for (auto& x : batches) front.push_front(x);
            Ev p = e;
            p.type = Ev::FORCED;
            p.ignoreEP = true;
            p.forced = {{t.to, h->parent, false, -1, -1}};
            p.left = exited;
            front.push_front(p);
        } else {
            probe.histDefault++;
            Ev d = e;
            d.type = Ev::FORCED;
            d.ignoreEP = false;
            if (h->def == NONE) {
                d.forced = {{t.to, h->parent, false, -1, h->cb ? h->id : -1}};
                d.left = exited;
                front.push_front(d);
            } else {
                d.forced = {{t.to, h->def, false, -1, h->cb ? h->id : -1}};
                front.push_front(d);
                d.ignoreEP = true;
                d.forced = {{t.to, h->parent, false, -1, -1}};
                d.left = exited;
                front.push_front(d);
            }
        }
        return ST_PENDING;
    }
    if (e.ignoreEP) return ST_PENDING;
    if (!entryPoints(t.to, e.id, e.flags, e.hasArgs).empty()) {
        Ev x = e;
        x.type = Ev::ENTRY;
        front.push_front(x);
        probe.entry++;
        return ST_PENDING;
    }
    return ST_OK;
}
// a final state has been entered: is its region done?
void Model::finals(const Ev& e, int to) {
    const SState& st = sp->states[to];
    if (st.parent < 0) return;
    bool open = hasActiveNonFinal(st.parent);
    for (auto& q : front)   // about to be restored
        if (q.type == Ev::FORCED)
            for (auto& x : q.forced) open = open || (!sp->states[x.to].final_ && isSubOf(st.parent, x.to));
    if (open) {
        probe.finalBlocked++;
        return;
    }
    Ev f;
    f.id = st.finEvent != NONE ? st.finEvent : e.id;
    f.seq = e.seq;
    f.flags = e.flags;
    f.hasArgs = e.hasArgs;
    f.extra = e.extra;
    f.raised = true;
    f.chain = e.chain;
    auto at = front.begin();   // behind the rest of this transition
    while (at != front.end() && at->type != Ev::REG) ++at;
    front.insert(at, f);
    probe.finals++;
}
Status Model::single(int from, const Ev& e, bool& attempted) {
    std::vector<MT> m;
    if (!determine(from, e, m)) return ST_FAILED;
    attempted = true;
    Status res = ST_FAILED;
    for (auto& t : m)
        if (t.internal) {
            log(L_TRANS, t.from, t.to, e.id, &e);
            emit(K_TRANS, t.trans, &e);
            probe.selfInt++;
            res = ST_OK;
        }
    bool exitOk = true;
    std::vector<int> exited;
    if (e.type == Ev::REG) {
        for (auto& t : m) {
            if (t.internal) continue;
            if (t.from == t.to) probe.selfExt++;
            std::vector<int> snapshot(active.rbegin(), active.rend());
            for (int a : snapshot)
                if (a == t.from || isSubOf(t.from, a)) {
                    exitOk = exit(a);
                    if (!exitOk) break;
                    exited.push_back(a);
                }
            if (exitOk) {
                remember(t.from, exited);
                for (int x : exited) remove(x);
            } else {
                probe.vetoExit++;
                for (auto it = exited.rbegin(); it != exited.rend(); ++it) {
                    remove(*it);
                    enter(*it, nullptr);
                    active.push_back(*it);
                    changed(*it, nullptr);
                }
                break;  // refused, whatever the other targets are
            }
        }
    }
    if (!exitOk) return ST_CANCELED;
    bool refused = false;
    std::vector<int> fin;
    for (auto& t : m) {
        if (t.internal) continue;
        if (e.type == Ev::REG) chainTargets++;
        Status s = external(e, from, t, exited);
        refused = refused || s == ST_FAILED;
        if (s != ST_FAILED && sp->states[t.to].final_) fin.push_back(t.to);
        // the event is pending while any branch is; it succeeded if any branch did
        if (s == ST_PENDING || res == ST_PENDING) res = ST_PENDING;
        else if (s == ST_OK || res == ST_OK) res = ST_OK;
        else res = s;
    }
    bool histParent = e.type == Ev::FORCED && histOf(from) && histOf(from)->parent == e.forced.front().to;
    if (histParent && !refused) hist[histOf(from)->id].clear();
    if (refused) {  // back to where it was, next to what has been entered
        if (histParent) remove(from);
        const std::vector<int>& back = histParent ? e.left : exited;
        for (auto it = back.rbegin(); it != back.rend(); ++it) {  // parents first
            if (isActive(*it)) continue;
            enter(*it, nullptr);
            add(*it);
            changed(*it, nullptr);
        }
    }
    for (int f : fin) finals(e, f);
    return res;
}
// What must hold whatever the rules are: the model itself is judged by it, so that it can't copy a mistake of the code.
void Model::lint(const Ev& e, Status res, const std::vector<int>& before) {
    std::vector<int> after = activeSorted();
    auto names = [](const std::vector<int>& v) { std::string r; for (int x : v) r += " " + std::to_string(x); return r; };
    if (e.type == Ev::REG) chainBefore = before;
    bool histParent = e.type == Ev::FORCED && histOf(e.forced.front().from) && histOf(e.forced.front().from)->parent == e.forced.front().to;
    if ((res == ST_FAILED || res == ST_CANCELED) && (e.type == Ev::REG || (histParent && chainTargets == 1)) && after != chainBefore)
        lintMsg = "a refused transition changed the active states from" + names(chainBefore) + " to" + names(after);
    for (auto& o : out) vetoed = vetoed || o.veto;
    bool rest = false;   // something of this transition is still to come
    for (auto& q : front) rest = rest || q.type != Ev::REG;
    for (int p : after) {
        int n = 0;
        for (int x : after) n += sp->states[x].parent == p;
        if (!rest && n > 1 && !sp->states[p].groupParallel) lintMsg = "several substates of state " + std::to_string(p) + " are active:" + names(after);
        bool def = false;
        for (auto* i : ep[p]) def = def || (i->onEvent == NONE && i->cond < 0);
        if (!rest && n == 0 && def && !vetoed) lintMsg = "state " + std::to_string(p) + " has no active substate:" + names(after);
    }
    for (int x : after)
        if (sp->states[x].parent >= 0 && !isActive(sp->states[x].parent)) lintMsg = "state " + std::to_string(x) + " is active, but its parent is not:" + names(after);
    std::set<int> in(before.begin(), before.end());
    for (auto& o : out) {
        if (o.kind == K_EXIT && !o.veto) in.erase(o.a);
        if (o.kind == K_ENTER && !o.veto && !in.insert(o.a).second && sp->states[o.a].hasExit) lintMsg = "state " + std::to_string(o.a) + " was entered again without having been left";
    }
}
Status Model::process(const Ev& e) {
    std::vector<int> before = activeSorted();
    std::vector<int> enabled;
    if (e.type == Ev::REG) {
        chainTargets = 0;
        std::vector<MT> m;
        for (int x : before) {
            m.clear();
            if (determine(x, e, m)) enabled.push_back(x);
        }
    }
    asked.clear();
    reacted.clear();
    Status res = step(e);
    auto under = [&](const std::vector<int>& v, int x) {
        for (int y : v)
            if (y != x && isSubOf(x, y)) return true;
        return false;
    };
    lintMsg.clear();
    for (int x : enabled)
        if (!under(reacted, x) && std::find(asked.begin(), asked.end(), x) == asked.end()) lintMsg = "state " + std::to_string(x) + " can react, but it wasn't asked";
    if (e.type == Ev::REG)
        for (int x : reacted)
            if (under(reacted, x)) lintMsg = "state " + std::to_string(x) + " has reacted although one of its substates did";
    lint(e, res, before);
    return res;
}
Status Model::step(const Ev& e) {
    out.clear();
    logs.clear();
    merged = false;
    Status res = ST_FAILED;
    std::vector<int> snap(active);
    bool attempted = false;
    int accepted = 0;
    if (e.type == Ev::FORCED) {
        res = single(e.forced.front().from, e, attempted);
        if (res == ST_OK) log(L_IDLE, NONE, NONE);
    } else {
        std::vector<int> acc;
        for (auto it = snap.rbegin(); it != snap.rend(); ++it) {
            if (!isActive(*it)) continue;
            bool child = false;
            for (int a : acc) child = child || isSubOf(*it, a);
            if (child) continue;
            Status s = single(*it, e, attempted);
            asked.push_back(*it);
            if (s == ST_PENDING || s == ST_OK) reacted.push_back(*it);
            if (s == ST_PENDING) {
                res = s;
                acc.push_back(*it);
                accepted++;
            } else if (s == ST_OK) {
                log(L_IDLE, NONE, NONE);
                if (res != ST_PENDING) res = s;
                acc.push_back(*it);
                accepted++;
            }
        }
        if (accepted > 1) probe.parallelReact++;
        // everything an entry event could enter is active already: nothing failed
        if (e.type == Ev::ENTRY && !attempted) res = ST_OK;
    }
    if (res == ST_FAILED || res == ST_CANCELED) {
        probe.failed++;
        Exp x;
        x.kind = K_FAIL;
        x.a = e.id;
        x.b = 0;
        x.seq = e.hasArgs ? e.seq : -1;
        x.argh = argHash(&e);
        x.active = snap;
        std::sort(x.active.begin(), x.active.end());
        out.push_back(x);
    }
    return res;
}

}  // namespace w
