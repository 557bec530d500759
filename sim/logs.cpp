// Oracle for the debug log (C20): the bytes on the simulated disk against what the reference model did.
#include <climits>
#include <cstring>
#include <sstream>
#include <algorithm>
#include "world.h"

namespace w {
namespace {

struct LogRec {
    std::string time, action, from, to, event, status;
    std::vector<std::string> active, args;
    size_t offset = 0;
};

// strict reader of the format hsmdebugger reads: returns "" or what is wrong
std::string parse(const std::string& t, bool torn, std::vector<LogRec>& out) {
    if (t.empty()) return "";
    size_t p = 0;
    auto line = [&](std::string& l) {
        if (p >= t.size()) return false;
        size_t e = t.find('\n', p);
        if (e == std::string::npos) e = t.size();
        l = t.substr(p, e - p);
        p = e + 1;
        return true;
    };
    std::string l;
    if (!line(l) || l != "---") return torn ? "" : "the file does not start with a document marker but with '" + l + "'";
    auto quoted = [](const std::string& s, const char* key, std::string& v) {
        size_t k = strlen(key);
        if (s.compare(0, k, key) != 0 || s.size() < k + 2 || s[k] != '"' || s.back() != '"') return false;
        v = s.substr(k + 1, s.size() - k - 2);
        return v.find('"') == std::string::npos;
    };
    auto where = [&](const std::string& s) { return "record " + std::to_string(out.size()) + " is malformed at '" + s + "'"; };
    while (p < t.size()) {
        LogRec r;
        r.offset = p;
        if (!line(l)) break;
        // (records are separated by the line end that the previous one lacks)
        if (out.empty()) {
            if (!l.empty()) return torn ? "" : where(l);
            if (!line(l)) return torn ? "" : where("end of file");
        }
        if (l != "-") return torn ? "" : where(l);
        if (!line(l) || !quoted(l, "  timestamp: ", r.time)) return torn ? "" : where(l);
        int y, mo, d, h, mi, s, ms, n = 0;
        if (sscanf(r.time.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%3d%n", &y, &mo, &d, &h, &mi, &s, &ms, &n) != 7 || n != 23 || r.time.size() != 23) return torn ? "" : where(l);
        if (!line(l) || l != "  active_states:") return torn ? "" : where(l);
        bool ok;
        std::string v;
        while ((ok = line(l)) && quoted(l, "    - ", v)) r.active.push_back(v);
        if (!ok || l.compare(0, 10, "  action: ") != 0) return torn ? "" : where(l);
        r.action = l.substr(10);
        if (!line(l) || !quoted(l, "  from_state: ", r.from)) return torn ? "" : where(l);
        if (!line(l) || !quoted(l, "  target_state: ", r.to)) return torn ? "" : where(l);
        if (!line(l) || !quoted(l, "  event: ", r.event)) return torn ? "" : where(l);
        if (!line(l) || l.compare(0, 10, "  status: ") != 0) return torn ? "" : where(l);
        r.status = l.substr(10);
        if (!r.status.empty() && r.status != "failed") return torn ? "" : where(l);
        if (!line(l) || l != "  args:") return torn ? "" : where(l);
        for (;;) {
            size_t keep = p;
            if (!line(l)) break;
            if (l.compare(0, 6, "    - ") != 0) {
                p = keep;
                break;
            }
            r.args.push_back(l.substr(6));
        }
        out.push_back(r);
    }
    return "";
}

std::string stName(int m, int s) { return s == NONE ? "" : "m" + std::to_string(m) + "s" + std::to_string(s); }
std::string evName(int m, int e) { return e == NONE ? "" : "m" + std::to_string(m) + "e" + std::to_string(e); }
std::vector<std::string> argsOf(const LogExp& e) {
    std::vector<std::string> a;
    if (e.kind == L_IDLE || e.kind == L_EXIT || e.kind == L_ONENTER || e.kind == L_ONEXIT) return a;
    if (e.hasArgs) return {std::to_string(e.seq), std::to_string(e.flags), std::to_string(e.seq * 31 + e.flags), "k" + std::to_string(e.seq)};
    for (int x : e.extra) a.push_back(std::to_string(x));
    return a;
}
std::string join(const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) s += (s.empty() ? "" : " ") + x;
    return s;
}
std::string show(const LogRec& r) {
    return r.action + " from '" + r.from + "' to '" + r.to + "' event '" + r.event + "' status '" + r.status + "' args [" + join(r.args) + "] active {" + join(r.active) + "}";
}
LogRec recOf(int m, const LogExp& e) {
    LogRec r;
    r.action = logKindName(e.kind);
    r.from = stName(m, e.from);
    r.to = stName(m, e.to);
    r.event = evName(m, e.ev);
    r.status = e.failed ? "failed" : "";
    r.args = argsOf(e);
    for (int a : e.active) r.active.push_back(stName(m, a));
    std::sort(r.active.begin(), r.active.end());
    return r;
}
// while a machine is being deleted, the names its class gives to states and events are gone already
LogRec unnamed(LogRec r) {
    auto strip = [](std::string& s) { if (!s.empty()) s = s.substr(s.find_first_of("se") + 1); };
    strip(r.from);
    strip(r.to);
    strip(r.event);
    for (auto& a : r.active) strip(a);
    std::sort(r.active.begin(), r.active.end());
    return r;
}
bool same(const LogRec& a, const LogRec& b) {
    return a.action == b.action && a.from == b.from && a.to == b.to && a.event == b.event && a.status == b.status && a.args == b.args && a.active == b.active;
}

}  // namespace

std::vector<Verdict> judgeLogs(const Plan& p, const History& h, std::vector<LogWant>& want, Probes& pr) {
    std::vector<Verdict> out;
    if (h.logs.empty()) return out;
    auto bad = [&](const std::string& s) {
        if (out.size() < 10) out.push_back({"C20", s});
    };
    std::vector<int> dels(p.mach.size(), INT_MAX);
    for (int i = 0; i < (int)h.r.size(); i++)
        if (h.r[i].type == R_INV && h.r[i].kind == OP_DELETE && dels[h.r[i].m] == INT_MAX) dels[h.r[i].m] = i;
    struct Sw { bool on; int inv, ret; bool res; };
    std::vector<std::vector<Sw>> sw(p.mach.size());
    {
        std::map<int, std::pair<int, int>> open;
        for (int i = 0; i < (int)h.r.size(); i++) {
            const Rec& r = h.r[i];
            // release and delete close the log as well
            if (r.inst < 0 || (r.kind != OP_LOGON && r.kind != OP_LOGOFF && r.kind != OP_RELEASE && r.kind != OP_DELETE)) continue;
            if (r.type == R_INV) {
                open[r.inst] = {r.m, (int)sw[r.m].size()};
                sw[r.m].push_back({r.kind == OP_LOGON, i, INT_MAX, false});
            } else if (r.type == R_RET) {
                auto& s = sw[open[r.inst].first][open[r.inst].second];
                s.ret = i;
                s.res = r.res;
            }
        }
    }
    if (h.ioHard >= 0 || p.ioHard || p.cfg.fault_pct) pr.n[PB_IOFAULT]++;
    std::vector<std::vector<LogRec>> recs(h.logs.size());
    bool torn = h.ioHard >= 0;
    for (size_t i = 0; i < h.logs.size(); i++) {
        std::string why = parse(h.logs[i], torn, recs[i]);
        if (!why.empty()) {
            bad((i < p.mach.size() ? "log of machine " + std::to_string(i) : std::string("shared log")) + ": " + why);
            return out;
        }
        if (p.cfg.w_wall == 0 && !torn)   // (what a failed write left in a buffer may come out later)
            for (size_t k = 1; k < recs[i].size(); k++)
                if (recs[i][k].time < recs[i][k - 1].time) bad("time stamps go back: " + recs[i][k - 1].time + " then " + recs[i][k].time);
        for (auto& r : recs[i]) std::sort(r.active.begin(), r.active.end());
    }
    for (size_t m = 0; m < p.mach.size(); m++) {
        if (p.mach[m].log == 3) {
            for (auto& s : sw[m])
                if (s.on && s.ret != INT_MAX && s.res) bad("enabling the log of machine " + std::to_string(m) + " succeeded although its file cannot be opened");
            continue;
        }
        if (!p.mach[m].log || !want[m].valid) continue;
        bool shared = p.mach[m].log == 2;
        if (shared && torn) continue;
        std::vector<LogRec> act;
        std::string pre = "m" + std::to_string(m) + "s";
        for (auto& r : recs[shared ? p.mach.size() : m]) {
            if (shared && r.active.empty() && r.action == "idle") continue;   // nobody knows whose it is
            auto mine = [&](const std::string& s) { return s.compare(0, pre.size(), pre) == 0; };
            bool any = mine(r.from) || mine(r.to);
            for (auto& a : r.active) any = any || mine(a);
            if (!any && shared) continue;
            act.push_back(r);
        }
        std::vector<LogRec> ex;
        std::vector<const LogExp*> le;
        for (auto& e : want[m].v) {
            if (shared && e.active.empty() && e.kind == L_IDLE) continue;
            ex.push_back(recOf((int)m, e));
            le.push_back(&e);
        }
        pr.n[PB_LOGREC] += act.size();
        size_t n = ex.size(), k = act.size();
        int delInv = dels[m];
        auto required = [&](const LogExp& e) {
            if (torn && e.before >= h.ioHard) return false;
            if (e.before == INT_MAX && !want[m].complete) return false;
            for (auto& on : sw[m]) {
                if (!on.on || !on.res || on.ret > e.after) continue;
                bool off = false;
                for (auto& s : sw[m]) off = off || (!s.on && s.ret > on.inv && s.inv < e.before);
                if (!off) return true;
            }
            return false;
        };
        auto forbidden = [&](const LogExp& e) {
            for (auto& on : sw[m]) {
                if (!on.on || on.inv > e.before || (on.ret != INT_MAX && !on.res)) continue;
                bool off = false;
                for (auto& s : sw[m]) off = off || (!s.on && s.inv > on.ret && s.ret <= e.after);
                if (!off) return false;
            }
            return true;
        };
        // reachable positions (i expected records passed, j written ones explained)
        std::vector<std::vector<char>> ok(n + 1, std::vector<char>(k + 1, 0));
        ok[0][0] = 1;
        size_t bi = 0, bj = 0;
        bool fine = false;
        for (size_t i = 0; i <= n && !fine; i++)
            for (size_t j = 0; j <= k; j++) {
                if (!ok[i][j]) continue;
                if (i + j > bi + bj) bi = i, bj = j;
                bool rest = i == n && !want[m].complete;
                if (torn && (i == n || le[i]->before >= h.ioHard)) rest = true;
                if ((i == n && j == k) || rest) {
                    fine = true;
                    break;
                }
                if (i == n) continue;
                if (j < k && !forbidden(*le[i]) && (same(ex[i], act[j]) || (le[i]->before > delInv && same(unnamed(ex[i]), act[j])))) ok[i + 1][j + 1] = 1;
                if (!required(*le[i])) ok[i + 1][j] = 1;
            }
        if (!fine) {
            std::string s = "log of machine " + std::to_string(m) + (shared ? " (shared file)" : "") + ": ";
            if (bi < n && bj < k)
                s += "record " + std::to_string(bj) + " is <" + show(act[bj]) + ">, expected <" + show(ex[bi]) + ">" + (forbidden(*le[bi]) ? " (logging was off)" : "");
            else if (bi < n) s += "the record <" + show(ex[bi]) + "> (after history record #" + std::to_string(le[bi]->after) + ") is missing";
            else s += "unexpected record <" + show(act[bj]) + ">";
            bad(s);
        }
    }
    return out;
}
}
