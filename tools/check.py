#!/usr/bin/env python3
"""check.py <property>: seeded search of the property's workloads against /repo's current tree.
exit 0 held on everything explored, 1 with a VIOLATION line, anything else: the check itself failed."""
import array, json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from profiles import CHECKS, COMMON

VERIF = build.VERIF
NAMES = {  # simulator counters that are injected faults or scheduling decisions
    "faults": ["preemptions", "spurious_wakeups", "thread_stalls", "clock_advances", "late_wakeups", "interrupts_in_running_thread",
               "interrupts_in_blocked_thread", "wall_clock_jumps", "injected_failures", "full_pipes"],
    "activity": ["decisions", "switches", "blocks", "idle_jumps", "mutex_contentions", "threads", "allocations", "frees",
                 "condition_waits", "notifies", "notifies_without_waiter", "timeouts", "fault_sites"],
}


def known(pid):
    """known-findings.txt: 'known: property=<id> tag=<TAG> match=<regex> -- <what fails>' and 'fixed: ...' (suppresses nothing)"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) tag=(\S+) match=(.*?) -- (.*)$", line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    budget = float(os.environ.get("VERIF_TIME") or (c.get("quick", 45) if tier == "quick" else c.get("thorough", 600)))
    accept = ",".join([pid] + c.get("accept", []) + COMMON)
    exes = {}
    for v, _, _ in c["runs"]:
        exes[v] = build.build(v)
    built = time.time() - t0
    work = tempfile.mkdtemp(prefix="sim", dir="/tmp")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    kn = known(pid)
    knf = os.path.join(work, "known")
    with open(knf, "w") as f:
        for t, r, _ in kn:
            f.write("%s\t%s\n" % (t, r))
    cpus = sorted(os.sched_getaffinity(0))
    width = max(2, min(8, len(cpus)))
    total = sum(w for _, _, w in c["runs"])
    found, irr, errors = [], [], []
    agg = []
    try:
        for variant, profile, weight in c["runs"]:
            out = os.path.join(work, variant + "-" + profile)
            os.makedirs(out)
            procs = []
            for k in range(width):
                cmd = [exes[variant], "search", "--profile", profile, "--seed", str(seed), "--start", str(k), "--stride", str(width),
                       "--time", str(budget * weight / total), "--out", out, "--prop", pid, "--accept", accept, "--mini", "25", "--known", knf]
                procs.append(subprocess.Popen(["taskset", "-c", str(cpus[k % len(cpus)])] + cmd if shutil.which("taskset") else cmd,
                                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=work))
            deadline = time.time() + budget * weight / total + 240
            outs = [None] * width
            live = set(range(width))
            grace = None
            while live:
                for k in list(live):
                    if procs[k].poll() is not None:
                        outs[k] = procs[k].communicate()
                        live.discard(k)
                        if procs[k].returncode == 1 and grace is None:
                            grace = time.time() + 1   # one confirmed, minimised violation is enough
                now = time.time()
                if (grace and now > grace) or now > deadline:
                    for k in list(live):
                        procs[k].kill()
                        outs[k] = procs[k].communicate()
                        live.discard(k)
                time.sleep(0.05)
            for k in range(width):
                rc, (so, se) = procs[k].returncode, outs[k]
                for line in so.splitlines():
                    m = re.match(r"FOUND (\S+) (\S+) (.*)", line)
                    if m:
                        dst = os.path.join(replays, os.path.basename(m.group(2)))
                        shutil.copy(m.group(2), dst)
                        found.append((m.group(1), dst, m.group(3), variant))
                    elif line.startswith("IRREPRODUCIBLE"):
                        irr.append(line)
                if rc not in (0, 1, 4) and not (rc == -9 and grace):
                    errors.append("worker %d of %s/%s ended with %s: %s" % (k, variant, profile, rc, se[-600:]))
                jf = os.path.join(out, "worker-%s-%d.json" % (build.VARIANTS[variant]["name"], k))
                if os.path.exists(jf):
                    agg.append((variant, profile, out, k, json.load(open(jf))))
            if found:
                break
    finally:
        evidence(pid, c, tier, seed, accept, agg, found, kn, built, t0, width)
        shutil.rmtree(work, ignore_errors=True)
    for i, (t, r, what) in enumerate(kn):
        n = sum(a[4]["known"][i] for a in agg)
        print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (pid, what, n))
    runs = sum(a[4]["runs"] for a in agg)
    print("%s: %d simulated runs in %.0f s" % (pid, runs, time.time() - t0))
    for a in agg:
        for t, (n, s) in sorted(a[4]["other"].items()):
            print("note: %d runs show %s, which this property does not cover (%s)" % (n, t, s[:200]))
    if found:
        found.sort(key=lambda f: (f[0] != pid, os.path.getsize(f[1])))
        for t, f, msg, v in found:
            print("[%s] %s" % (t, msg))
        t, f, msg, v = found[0]
        print("replay with: python3 tools/replay.py %s" % f)
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    for line in irr + errors:
        print("ERROR " + line)
    if irr or errors or not runs:
        return 3
    return 0


def evidence(pid, c, tier, seed, accept, agg, found, kn, built, t0, width):
    sched, hist = set(), set()
    st, pb, other = {}, {}, {}
    runs = nontriv = 0
    sim_ms = wall_s = 0.0
    samples, per = [], {}
    for variant, profile, out, k, d in agg:
        runs += d["runs"]
        nontriv += d["nontrivial"]
        sim_ms += d["sim_ms"]
        wall_s += d["wall_s"]
        q = per.setdefault(variant + "/" + profile, 0)
        per[variant + "/" + profile] = q + d["runs"]
        for n, x in d["stats"].items():
            st[n] = st.get(n, 0) + x
        for n, x in d["probes"].items():
            pb[n] = pb.get(n, 0) + x
        for n, x in d["other"].items():
            other[n] = other.get(n, 0) + x[0]
        if k < 2:
            samples += [variant + "/" + profile + " " + s for s in d["samples"]]
        for kind, s in (("sched", sched), ("hist", hist)):
            f = os.path.join(out, "%s-%s-%d.bin" % (kind, build.VARIANTS[variant]["name"], k))
            if os.path.exists(f):
                a = array.array("Q")
                a.frombytes(open(f, "rb").read())
                s.update(a)
    e = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sched),
            "rule": "One evaluation is one simulated run: a workload generated from the seed (machines, operations of the clients, callbacks, "
                    "interrupts) executed under one schedule and fault sequence. It is non-trivial when it ran to its end, switched threads (activities of loop(), where the dispatcher is polled) more "
                    "than 3 times and had at least one forced preemption, spurious or late wakeup, stall, interrupt, clock advance, wall clock "
                    "jump or injected failure; distinct by the hash over every scheduling decision, synchronisation operation and time value.",
            "samples": samples[:8],
            "nontrivial_runs": nontriv,
            "distinct_histories": len(hist),
            "distinct_histories_rule": "hash over the complete recorded history (calls, returns, callbacks, arguments, virtual times)",
            "runs_per_hour": round(runs / max(wall_s / max(width, 1), 1e-9) * 3600),
            "seeds_per_hour": round(runs / max(wall_s / max(width, 1), 1e-9) * 3600),
            "simulated_seconds": round(sim_ms / 1000, 3),
            "fault_kinds_injected": {n: st.get(n, 0) for n in NAMES["faults"]},
            "activity": {n: st.get(n, 0) for n in NAMES["activity"]},
            "situations_reached": pb,
            "runs_per_workload": per,
            "violation_kinds_decided": accept.split(","),
            "contradictions_of_other_properties_seen": other,
            "known_findings": [w for _, _, w in kn],
            "real_components": c.get("real", "all of /repo's src (HierarchicalStateMachine, dispatcher base and STD dispatcher, stl/posix OS layer), libstdc++, glibc pthread API calls"),
            "stubbed_components": c.get("stub", "scheduler, mutexes/condition variables/joins/sleeps (interposed), clocks, heap (tracked), interrupts (signal handlers called at chosen instructions), writes of the debug log"),
            "build_s": round(built, 1),
        },
        "assumptions": [
            "threads switch at shared-memory accesses and library calls; memory is sequentially consistent",
            "workloads stay within the documented use of the API (DESIGN.md lists what is left out)",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.rename(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
