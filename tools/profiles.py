"""Which workloads decide which property. runs: (variant, profile, weight). accept: kinds of contradiction that count besides
the property's own and the common ones."""

# a run that deadlocks, crashes, touches freed memory or never comes to an end breaks whichever guarantee its workload relies on
COMMON = ["HANG", "MEM", "CRASH", "LIVELOCK", "INTALLOC"]

CHECKS = {
    "C01": dict(accept=["MODEL", "LIVE", "C12", "C17"]),
    "C02": dict(accept=["MODEL"]),
    "C03": dict(accept=["MODEL"]),
    "C04": dict(accept=["LIVE"]),
    "C05": dict(accept=["MODEL", "C01", "C02", "C04", "LIVE"]),
    "C06": dict(accept=["LIVE"]),
    "C07": dict(accept=["LIVE"]),
    "C08": dict(accept=["C07", "LIVE"]),
    "C09": dict(accept=["C01", "C02", "C03", "C04", "C06", "C07", "C12", "MODEL", "LIVE"]),
    "C10": dict(accept=["C09"]),
    "C11": dict(accept=["LIVE"]),
    "C12": dict(accept=["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "MODEL", "LIVE"]),
    "C13": dict(accept=["MODEL", "C01", "C02", "C03"]),
    "C14": dict(accept=["MODEL", "C01", "C02", "C03", "C04"]),
    "C15": dict(accept=["MODEL", "C01", "C02", "C03"]),
    "C16": dict(accept=["MODEL", "C01", "C02", "C03"]),
    "C17": dict(accept=["C01", "C02", "C03", "MODEL", "LIVE"]),
    "C18": dict(accept=["MODEL", "C01", "C02", "C03", "C07"]),
    "C19": dict(accept=["LIVE"]),
    "C20": dict(accept=["MODEL", "C01", "C02", "C03", "C04", "LIVE"]),
    "C21": dict(accept=["MODEL"]),
    "C23": dict(runs=[("arduino", q, w) for q, w in [("C01", 2), ("C05", 1), ("C06", 3), ("C07", 3), ("C08", 2), ("C09", 1), ("C10", 1),
                                                    ("C11", 1), ("C12", 1), ("C13", 1), ("C14", 1), ("C16", 1), ("C18", 1)]],
                accept=["C%02d" % i for i in range(1, 22)] + ["MODEL", "LIVE"],
                real="all of /repo's src (HierarchicalStateMachine, dispatcher base and Arduino dispatcher, arduino OS layer), libstdc++",
                stub="the board: Arduino.h with millis() (overflowing in a third of the runs), interrupts()/noInterrupts() and interrupt handlers "
                     "called at chosen instructions; loop(), which polls the dispatchers at chosen intervals; heap (tracked)"),
}
LOOP = [("C01", 2), ("C03", 1), ("C04", 1), ("C05", 1), ("C06", 2), ("C07", 3), ("C08", 3), ("C09", 3), ("C10", 3), ("C11", 1), ("C12", 1), ("C17", 1), ("C19", 1)]
for pid, var, name, libs in (("C22", "glib", "GLib", "GLib's main loop"), ("C25", "glibmm", "GLibmm", "GLib's main loop, GLibmm, libsigc++"),
                             ("C26", "qt", "Qt", "Qt's event loop (its own dispatcher, not GLib's), QTimer")):
    CHECKS[pid] = dict(runs=[(var, q, w) for q, w in LOOP], accept=["C%02d" % i for i in range(1, 22)] + ["MODEL", "LIVE"],
                       real="all of /repo's src (HierarchicalStateMachine, dispatcher base and %s dispatcher, stl and posix OS layer), %s, libstdc++; the libraries "
                            "of the loop are the installed binaries: threads are switched at their synchronisation and descriptor calls only" % (name, libs),
                       stub="scheduler, clocks, poll, capacity of pipes (scaled down in a third of the runs), interrupts, heap (tracked)")
CHECKS["C24"] = dict(runs=[("freertos", q, w) for q, w in LOOP], accept=["C%02d" % i for i in range(1, 22)] + ["MODEL", "LIVE"],
                     real="all of /repo's src (HierarchicalStateMachine, dispatcher base and FreeRTOS dispatcher) with the FreeRTOS OS layer, libstdc++",
                     stub="the FreeRTOS kernel (tasks, critical sections, semaphores, task notifications, software timers with their task and command "
                          "queue, single core), clocks, interrupts, heap (tracked)")
for k, v in CHECKS.items():
    v.setdefault("runs", [("std", k, 1)])
