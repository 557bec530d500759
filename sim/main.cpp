// Runner: seeded search over workloads, schedules and faults; minimiser; exact replay.
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <regex>
#include <fstream>
#include <sstream>
#include "rt.h"
#include "world.h"

using namespace w;

namespace {

struct SharedVerdict { char tag[16]; char msg[1500]; };
struct Shared {
    int done;               // 1: the run came to its end, 2: violation() ended it
    int nv;
    SharedVerdict v[8];
    Probes probes;
    sim::Stats stats;
    uint64_t hash, histHash, steps;
    int64_t simNs;
    sim::TapeLog tape;
};
Shared* sh;

double wall() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

struct Job {
    std::string profile;
    uint64_t wseed = 0, sseed = 0;
    std::set<int> mask;
    bool replay = false;
    std::vector<sim::Decision> tape;
};
struct Outcome {
    std::vector<Verdict> v;
    uint64_t hash = 0, histHash = 0;
    std::vector<sim::Decision> tape;
    bool wallAlarm = false;
    const Verdict* find(const std::set<std::string>& tags) const {
        for (auto& x : v)
            if (tags.count(x.tag)) return &x;
        return nullptr;
    }
};

void addVerdict(const char* tag, const std::string& msg) {
    if (sh->nv >= 8) return;
    auto& q = sh->v[sh->nv++];
    snprintf(q.tag, sizeof q.tag, "%s", tag);
    snprintf(q.msg, sizeof q.msg, "%s", msg.c_str());
}
void saveStats() {
    sh->stats = sim::stats;
    sh->hash = sim::sched_hash();
    sh->steps = sim::steps();
    sh->simNs = sim::now();
}
uint64_t historyHash(const History& h) {
    uint64_t x = 1469598103934665603ull;
    auto mix = [&](uint64_t v) { x = (x ^ v) * 1099511628211ull; };
    for (auto& r : h.r) {
        mix((uint64_t)r.type | (uint64_t)(r.m + 1) << 8 | (uint64_t)r.kind << 16 | (uint64_t)(uint32_t)r.a << 32);
        mix((uint64_t)(uint32_t)r.seq ^ (uint64_t)r.res << 32 ^ (uint64_t)r.argh << 7);
        mix((uint64_t)r.t ^ (uint64_t)r.tid << 56);
    }
    return x;
}
const Job* runJob = nullptr;
void onViolation(const char* tag, const std::string& msg) {
    if (!strcmp(tag, "ENDLESS")) {
        Plan p = genPlan(runJob->profile, runJob->wseed);
        for (auto& v : judgeEndless(p, hist, sh->probes)) addVerdict(v.tag.c_str(), v.msg);
        sh->probes.n[PB_ENDLESS]++;
    } else {
        addVerdict(tag, msg);
    }
    saveStats();
    sh->histHash = historyHash(hist);
    sh->done = 2;
}

// The kernel frees what ended processes used with some delay: do not run ahead of it.
void waitForMemory() {
    for (int i = 0; i < 500; i++) {
        long total = 0, avail = 0;
        FILE* f = fopen("/proc/meminfo", "r");
        if (!f) return;
        char line[128];
        while (fgets(line, sizeof line, f)) {
            sscanf(line, "MemTotal: %ld", &total);
            sscanf(line, "MemAvailable: %ld", &avail);
        }
        fclose(f);
        if (!avail || avail > total / 2) return;
        usleep(20000);
    }
}

std::string runScratch;

Outcome runOnce(const Job& j, bool trace = false, const char* traceFile = nullptr) {
    memset(sh, 0, offsetof(Shared, tape));
    sh->tape.n = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (traceFile) {
            int fd = open(traceFile, O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            close(fd);
        } else if (!trace) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            close(fd);
        }
        alarm(30);
        sim::tape_log = &sh->tape;
        sim::tracing = trace;
        sim::on_violation = onViolation;
        sim::replaying = j.replay;
        sim::tape = j.tape;
        scratchDir = runScratch;
        runJob = &j;
        Plan p = genPlan(j.profile, j.wseed);
        auto v = runPlan(p, j.mask, j.sseed, sh->probes);
        for (auto& x : v) addVerdict(x.tag.c_str(), x.msg);
        saveStats();
        sh->histHash = historyHash(hist);
        sh->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    Outcome o;
    for (int i = 0; i < sh->nv; i++) o.v.push_back({sh->v[i].tag, sh->v[i].msg});
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGALRM) {
            o.wallAlarm = true;
            o.v.push_back({"LIVELOCK", "the run makes no progress at all (30 s of real time)"});
        } else if (WTERMSIG(st) == SIGKILL) {
            o.wallAlarm = true;
        } else {
            o.v.push_back({"CRASH", std::string("the process died from ") + strsignal(WTERMSIG(st))});
        }
    } else if (!sh->done) {
        o.v.push_back({"CRASH", "the process exited unexpectedly, status " + std::to_string(WEXITSTATUS(st))});
    }
    o.hash = sh->hash;
    o.histHash = sh->histHash;
    o.tape.assign(sh->tape.d, sh->tape.d + sh->tape.n);
    return o;
}

// ------------------------------------------------------------------ replay files
void writeReplay(const std::string& file, const std::string& prop, const Job& j, const Verdict& v, uint64_t hash, uint64_t histHash, const std::string& trace) {
    FILE* f = fopen(file.c_str(), "w");
    if (!f) {
        perror(file.c_str());
        exit(3);
    }
    fprintf(f, "property %s\nprofile %s\nbackend %s\nwseed %llu\nsseed %llu\nhash %016llx %016llx\n", prop.c_str(), j.profile.c_str(), backend.name,
            (unsigned long long)j.wseed, (unsigned long long)j.sseed, (unsigned long long)hash, (unsigned long long)histHash);
    fprintf(f, "tag %s\nmessage %s\n", v.tag.c_str(), v.msg.c_str());
    fprintf(f, "mask");
    for (int m : j.mask) fprintf(f, " %d", m);
    fprintf(f, "\ndecisions %zu\n", j.tape.size());
    for (auto& d : j.tape) fprintf(f, "%d %llu %c %lld\n", d.tid, (unsigned long long)d.pt, d.kind, (long long)d.arg);
    Plan p = genPlan(j.profile, j.wseed);
    fprintf(f, "--- workload\n%s", p.describe(j.mask).c_str());
    fprintf(f, "--- trace\n%s", trace.c_str());
    fclose(f);
}
bool readReplay(const std::string& file, Job& j, std::string& prop, std::string& tag, std::string& be, uint64_t& hash, uint64_t& hh) {
    std::ifstream f(file);
    if (!f) return false;
    std::string line;
    j.replay = true;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "property") is >> prop;
        else if (k == "profile") is >> j.profile;
        else if (k == "backend") is >> be;
        else if (k == "wseed") is >> j.wseed;
        else if (k == "sseed") is >> j.sseed;
        else if (k == "tag") is >> tag;
        else if (k == "hash") is >> std::hex >> hash >> hh >> std::dec;
        else if (k == "mask") {
            int x;
            while (is >> x) j.mask.insert(x);
        } else if (k == "decisions") {
            size_t n;
            is >> n;
            for (size_t i = 0; i < n && std::getline(f, line); i++) {
                sim::Decision d;
                unsigned long long pt;
                long long arg;
                char kind;
                if (sscanf(line.c_str(), "%d %llu %c %lld", &d.tid, &pt, &kind, &arg) != 4) return false;
                d.pt = pt;
                d.kind = kind;
                d.arg = arg;
                j.tape.push_back(d);
            }
            return true;
        }
    }
    return false;
}

// ------------------------------------------------------------------ minimiser
void opIds(const std::vector<Op>& v, std::vector<int>& out) {
    for (auto& o : v) {
        opIds(o.body, out);
        switch (o.k) {
            case OP_INIT: case OP_RELEASE: case OP_DELETE: case OP_DSTOP: case OP_DDROP: case OP_HANDOFF: case OP_REGRAW: case OP_UNREGRAW:
            case OP_QUIET: case OP_IDLE: case OP_CHECK: break;
            default: out.push_back(o.id);
        }
    }
}
struct Mini {
    std::string tag;
    double deadline;
    Job best;
    int runs = 0;
    bool reproduces(Job j) {
        runs++;
        Outcome o = runOnce(j);
        for (auto& v : o.v)
            if (v.tag == tag) {
                j.replay = true;
                j.tape = o.tape;
                Outcome q = runOnce(j);   // what is kept must be an exact replay
                if (q.hash != o.hash || q.histHash != o.histHash) return false;
                best = j;
                return true;
            }
        return false;
    }
    // ddmin over the decisions
    void shrinkTape() {
        size_t chunk = std::max<size_t>(1, best.tape.size() / 2);
        while (wall() < deadline) {
            bool any = false;
            for (size_t i = 0; i < best.tape.size() && wall() < deadline;) {
                Job j = best;
                size_t e = std::min(i + chunk, j.tape.size());
                j.tape.erase(j.tape.begin() + (long)i, j.tape.begin() + (long)e);
                size_t before = best.tape.size();
                if (reproduces(j) && best.tape.size() < before) any = true;
                else i += chunk;
            }
            if (chunk == 1) {
                if (!any) break;
            } else {
                chunk = std::max<size_t>(1, chunk / 2);
            }
        }
    }
    bool tryMask(const std::set<int>& m, int seeds) {
        Job j = best;
        j.mask = m;
        if (reproduces(j)) return true;
        for (int i = 0; i < seeds && wall() < deadline; i++) {
            j.replay = false;
            j.tape.clear();
            j.sseed = best.sseed * 31 + 77 + (uint64_t)i;
            if (reproduces(j)) return true;
        }
        return false;
    }
    void shrinkOps(const Plan& p, int seeds) {
        std::vector<int> ids;
        opIds(p.setup, ids);
        for (auto& c : p.clients) opIds(c, ids);
        opIds(p.parallel, ids);
        opIds(p.finale, ids);
        for (auto& s : p.scripts) opIds(s.ops, ids);
        for (auto& q : p.irqs) ids.push_back(q.opid);
        std::vector<int> cur;
        for (int i : ids)
            if (!best.mask.count(i)) cur.push_back(i);
        size_t chunk = std::max<size_t>(1, cur.size() / 2);
        while (wall() < deadline && !cur.empty()) {
            bool any = false;
            for (size_t i = 0; i < cur.size() && wall() < deadline;) {
                std::set<int> m = best.mask;
                size_t e = std::min(i + chunk, cur.size());
                m.insert(cur.begin() + (long)i, cur.begin() + (long)e);
                if (tryMask(m, seeds)) {
                    cur.erase(cur.begin() + (long)i, cur.begin() + (long)e);
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if (chunk == 1) {
                if (!any) break;
            } else {
                chunk = std::max<size_t>(1, chunk / 2);
            }
        }
    }
};

std::string slurp(const std::string& f, size_t maxLines) {
    std::ifstream in(f);
    std::string line, out;
    std::vector<std::string> v;
    while (std::getline(in, line)) v.push_back(line);
    size_t b = v.size() > maxLines ? v.size() - maxLines : 0;
    if (b) out += "(... " + std::to_string(b) + " earlier lines left out)\n";
    for (size_t i = b; i < v.size(); i++) out += v[i] + "\n";
    return out;
}

std::set<std::string> split(const std::string& s) {
    std::set<std::string> o;
    std::istringstream is(s);
    std::string t;
    while (std::getline(is, t, ',')) o.insert(t);
    return o;
}

std::string selfExe() {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n] = 0;
    return b;
}

// minimise, write the replay file, check that a fresh process reproduces it exactly
bool report(const std::string& prop, Job j, const Verdict& v, const std::string& file, double budget) {
    Mini m;
    m.tag = v.tag;
    m.deadline = wall() + budget;
    j.replay = true;
    m.best = j;
    if (!m.reproduces(j)) {
        fprintf(stderr, "replaying the decisions did not reproduce %s (%s)\n", v.tag.c_str(), v.msg.c_str());
        return false;
    }
    Plan p = genPlan(j.profile, j.wseed);
    double dl = m.deadline;
    m.deadline = wall() + budget * 0.3;
    m.shrinkTape();
    m.deadline = wall() + budget * 0.5;
    m.shrinkOps(p, 6);
    m.deadline = dl;
    m.shrinkTape();
    std::string tf = runScratch + "/trace";
    Outcome o = runOnce(m.best, true, tf.c_str());
    const Verdict* w = o.find({v.tag});
    if (!w) {
        fprintf(stderr, "the minimised run does not reproduce with tracing on\n");
        return false;
    }
    m.best.tape = o.tape;
    writeReplay(file, prop, m.best, *w, o.hash, o.histHash, slurp(tf, 3000));
    for (int i = 0; i < 2; i++) {
        std::string cmd = selfExe() + " replay " + file + " --scratch " + runScratch + "/fresh >/dev/null 2>&1";
        int rc = system(cmd.c_str());
        if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 1) {
            fprintf(stderr, "a fresh process does not reproduce %s exactly (status %d)\n", file.c_str(), rc);
            return false;
        }
    }
    fprintf(stderr, "minimised in %d runs: %zu decisions, %zu operations removed\n", m.runs, m.best.tape.size(), m.best.mask.size());
    return true;
}

const char* statNames[] = {"decisions", "switches", "preemptions", "blocks", "spurious_wakeups", "thread_stalls", "clock_advances",
                           "late_wakeups", "interrupts_in_running_thread", "interrupts_in_blocked_thread", "wall_clock_jumps", "injected_failures",
                           "fault_sites", "idle_jumps", "mutex_contentions", "threads", "allocations", "frees", "condition_waits", "notifies",
                           "notifies_without_waiter", "timeouts", "full_pipes"};

}  // namespace

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        personality((unsigned long)pers | ADDR_NO_RANDOMIZE);
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    std::string profile = "C01", accept, out = ".", prop, file, scratch, known;
    uint64_t seed = 1, start = 0, stride = 1, runs = 0;
    double time = 0, mini = 30;
    bool verbose = false, keepGoing = false;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--profile") profile = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--start") start = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--stride") stride = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--runs") runs = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--time") time = atof(val().c_str());
        else if (a == "--mini") mini = atof(val().c_str());
        else if (a == "--accept") accept = val();
        else if (a == "--out") out = val();
        else if (a == "--prop") prop = val();
        else if (a == "--scratch") scratch = val();
        else if (a == "--known") known = val();
        else if (a == "-v") verbose = true;
        else if (a == "-k") keepGoing = true;
        else file = a;
    }
    if (prop.empty()) prop = profile.substr(0, 3);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // the path has the same length everywhere: it must not influence the run (log file names are stored by the machine)
    runScratch = scratch.empty() ? out + "/scratch" + std::to_string(start) : scratch;
    mkdir(runScratch.c_str(), 0755);
    auto jobOf = [&](uint64_t i) {
        Job j;
        j.profile = profile;
        sim::Rng r(seed * 1000003 + i * 7919 + 12345);
        j.wseed = r.next() >> 20;
        j.sseed = r.next() >> 20;
        return j;
    };
    if (mode == "search") {
        auto acc = split(accept);
        std::vector<std::pair<std::string, std::regex>> kn;
        if (!known.empty()) {
            std::ifstream f(known);
            std::string line;
            while (std::getline(f, line)) {
                size_t t = line.find('\t');
                if (t != std::string::npos) kn.push_back({line.substr(0, t), std::regex(line.substr(t + 1))});
            }
        }
        std::vector<uint64_t> knHits(kn.size());
        double t0 = wall();
        uint64_t n = 0, nontrivial = 0, alarms = 0, simNs = 0;
        uint64_t st[32] = {}, pb[40] = {};
        std::map<std::string, uint64_t> other;
        std::map<std::string, std::string> otherSample;
        std::vector<uint64_t> hashes, histHashes;
        std::vector<std::string> samples;
        int rc = 0;
        std::string found;
        for (uint64_t i = start; (runs == 0 || n < runs) && (time == 0 || wall() - t0 < time); i += stride) {
            if (n % 32 == 0) waitForMemory();
            Job j = jobOf(i);
            Outcome o = runOnce(j);
            n++;
            const uint64_t* s = (const uint64_t*)&sh->stats;
            for (size_t k = 0; k < sizeof(sim::Stats) / 8; k++) st[k] += s[k];
            for (int k = 0; k < 40; k++) pb[k] += sh->probes.n[k];
            simNs += (uint64_t)sh->simNs;
            const sim::Stats& q = sh->stats;
            bool nt = q.preempts + q.spurious + q.stalls + q.signals + q.bsignals + q.late + q.time_adv + q.wall + q.faults > 0 && q.switches > 3;
            if (nt && sh->done == 1) {
                nontrivial++;
                hashes.push_back(o.hash);
                histHashes.push_back(o.histHash);
            }
            if (samples.size() < 2) {
                char b[400];
                snprintf(b, sizeof b, "run %llu: wseed %llu sseed %llu: %llu steps, %llu switches (%llu forced), %zu decisions, %.3f ms simulated, verdict %s",
                         (unsigned long long)i, (unsigned long long)j.wseed, (unsigned long long)j.sseed, (unsigned long long)sh->steps,
                         (unsigned long long)q.switches, (unsigned long long)q.preempts, o.tape.size(), (double)sh->simNs / 1e6, o.v.empty() ? "ok" : o.v[0].tag.c_str());
                samples.push_back(b);
            }
            if (o.wallAlarm) alarms++;
            if (o.v.empty()) continue;
            for (auto& v : o.v) {
                bool isKnown = false;
                for (size_t k = 0; k < kn.size(); k++)
                    if (kn[k].first == v.tag && std::regex_search(v.msg, kn[k].second)) {
                        knHits[k]++;
                        isKnown = true;
                    }
                if (isKnown) continue;
                if (!acc.count(v.tag)) {
                    other[v.tag]++;
                    if (otherSample[v.tag].empty()) otherSample[v.tag] = "run " + std::to_string(i) + ": " + v.msg;
                    continue;
                }
                if (verbose || keepGoing) printf("run %llu [%s] %s\n", (unsigned long long)i, v.tag.c_str(), v.msg.c_str());
                if (keepGoing) {
                    rc = 1;
                    continue;
                }
                if (rc) break;
                if (o.wallAlarm) {   // believe it only if it happens again
                    Outcome o2 = runOnce(j);
                    if (!o2.wallAlarm) continue;
                }
                Job jj = j;
                jj.tape = o.tape;
                std::string f = out + "/" + prop + "-" + backend.name + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay";
                if (report(prop, jj, v, f, mini)) {
                    rc = 1;
                    found = f;
                    printf("FOUND %s %s %s\n", v.tag.c_str(), f.c_str(), v.msg.c_str());
                } else {
                    rc = 4;
                    printf("IRREPRODUCIBLE %s run %llu %s\n", v.tag.c_str(), (unsigned long long)i, v.msg.c_str());
                }
                break;
            }
            if (rc && !keepGoing) break;
        }
        double el = wall() - t0;
        if (!keepGoing || verbose || true) {
            std::string jf = out + "/worker-" + backend.name + "-" + std::to_string(start) + ".json";
            FILE* f = fopen(jf.c_str(), "w");
            fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"wall_alarms\": %llu, \"sim_ms\": %.3f, \"wall_s\": %.3f, \"rc\": %d,\n \"stats\": {", (unsigned long long)n,
                    (unsigned long long)nontrivial, (unsigned long long)alarms, (double)simNs / 1e6, el, rc);
            for (size_t k = 0; k < sizeof(sim::Stats) / 8; k++) fprintf(f, "%s\"%s\": %llu", k ? ", " : "", statNames[k], (unsigned long long)st[k]);
            fprintf(f, "},\n \"probes\": {");
            bool first = true;
            for (int k = 0; k < 40; k++)
                if (probeNames[k]) {
                    fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", probeNames[k], (unsigned long long)pb[k]);
                    first = false;
                }
            fprintf(f, "},\n \"other\": {");
            first = true;
            for (auto& x : other) {
                std::string m;
                for (char c : otherSample[x.first]) {
                    if (c == '"' || c == '\\') m += '\\';
                    m += (unsigned char)c < 32 ? ' ' : c;
                }
                fprintf(f, "%s\"%s\": [%llu, \"%s\"]", first ? "" : ", ", x.first.c_str(), (unsigned long long)x.second, m.c_str());
                first = false;
            }
            fprintf(f, "},\n \"known\": [");
            for (size_t k = 0; k < kn.size(); k++) fprintf(f, "%s%llu", k ? ", " : "", (unsigned long long)knHits[k]);
            fprintf(f, "],\n \"samples\": [");
            for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s\"%s\"", k ? ", " : "", samples[k].c_str());
            fprintf(f, "]}\n");
            fclose(f);
            for (int k = 0; k < 2; k++) {
                auto& v = k ? histHashes : hashes;
                std::string hf = out + "/" + (k ? "hist" : "sched") + "-" + backend.name + "-" + std::to_string(start) + ".bin";
                f = fopen(hf.c_str(), "w");
                fwrite(v.data(), 8, v.size(), f);
                fclose(f);
            }
        }
        if (verbose || keepGoing) {
            printf("%llu runs in %.1f s\n", (unsigned long long)n, el);
            for (auto& x : other) printf("other %s: %llu (%s)\n", x.first.c_str(), (unsigned long long)x.second, otherSample[x.first].c_str());
            if (verbose) {
                for (int k = 0; k < 40; k++)
                    if (probeNames[k]) printf("  %-50s %llu\n", probeNames[k], (unsigned long long)pb[k]);
                for (size_t k = 0; k < sizeof(sim::Stats) / 8; k++) printf("  %-50s %llu\n", statNames[k], (unsigned long long)st[k]);
            }
        }
        return rc;
    }
    if (mode == "replay") {
        Job j;
        std::string tag, be, p2;
        uint64_t h = 0, hh = 0;
        if (!readReplay(file, j, p2, tag, be, h, hh)) {
            fprintf(stderr, "cannot read %s\n", file.c_str());
            return 3;
        }
        if (be != backend.name) {
            fprintf(stderr, "%s was recorded on %s\n", file.c_str(), be.c_str());
            return 3;
        }
        Outcome o = runOnce(j, verbose);
        bool same = o.hash == h && o.histHash == hh;
        for (auto& v : o.v) printf("%s: %s\n", v.tag.c_str(), v.msg.c_str());
        const Verdict* v = o.find({tag});
        if (v) {
            printf("%s\nVIOLATION property=%s replay=%s\n", same ? "the same execution" : "a different execution", p2.c_str(), file.c_str());
            return same || tag == "CRASH" ? 1 : 4;
        }
        printf("not reproduced\n");
        return 0;
    }
    if (mode == "run") {   // one run, verbose
        Job j = jobOf(start);
        Outcome o = runOnce(j, verbose);
        for (auto& v : o.v) printf("%s: %s\n", v.tag.c_str(), v.msg.c_str());
        printf("steps %llu hash %016llx %016llx tape %zu\n", (unsigned long long)sh->steps, (unsigned long long)o.hash, (unsigned long long)o.histHash, o.tape.size());
        if (!file.empty() && !o.v.empty()) {
            j.tape = o.tape;
            report(prop, j, o.v[0], file, mini);
        }
        return o.v.empty() ? 0 : 1;
    }
    if (mode == "plan") {
        Job j = jobOf(start);
        printf("%s", genPlan(j.profile, j.wseed).describe({}).c_str());
        return 0;
    }
    if (mode == "det") {   // every seed twice, and once from its tape: identical executions
        int bad = 0;
        uint64_t n = 0;
        for (uint64_t i = start; n < (runs ? runs : 50); i += stride, n++) {
            Job j = jobOf(i);
            Outcome a = runOnce(j), b = runOnce(j);
            j.replay = true;
            j.tape = a.tape;
            Outcome c = runOnce(j);
            if (a.hash != b.hash || a.histHash != b.histHash || a.v.size() != b.v.size()) {
                printf("run %llu differs when repeated\n", (unsigned long long)i);
                bad++;
            }
            if (a.hash != c.hash || a.histHash != c.histHash) {
                printf("run %llu differs when replayed from its tape\n", (unsigned long long)i);
                bad++;
            }
        }
        printf("determinism: %llu seeds, %d differences\n", (unsigned long long)n, bad);
        return bad ? 4 : 0;
    }
    fprintf(stderr, "usage: search|replay|run|plan|det ...\n");
    return 2;
}
