#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one readable place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IMPL = "src/HsmImpl.cpp"; TYPES = "src/HsmImplTypes.cpp"; BASE = "src/HsmEventDispatcherBase.cpp"; STD = "src/HsmEventDispatcherSTD.cpp"
OS = ["src/os/stl/ConditionVariable.cpp", "src/os/stl/AtomicFlag.cpp", "src/os/common/UniqueLock.cpp", "src/os/common/CriticalSection.cpp", "src/os/posix/InterruptsFreeSection.cpp"]

prop("C01", "Every event sent to a running machine is processed exactly once",
 "Every event sent with the asynchronous or synchronous transition calls, from any thread or from inside a callback, to an initialised machine whose dispatcher is running is processed exactly once, with the arguments it was sent with: it either drives the transitions it matches or is reported through the failed-transition callback. No event is lost, duplicated or left waiting in the queue once senders go quiet, unless a later queue-clearing call, a release or a dispatcher stop discards it.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of sender threads, callbacks that send, timers and the dispatcher thread, with stalls, spurious wakeups and late wakeups",
 "the multithreaded tests send from one or two threads under whatever schedule the OS gives; a wakeup lost in a window of a few instructions never shows",
 [IMPL, BASE, STD] + OS,
 [("queue guarded by a mutex", IMPL + ": transitionExWithArgsArray / dispatchEvents"), ("one event per dispatch, re-emitted while the queue is not empty", IMPL + ": dispatchEvents"), ("pending-handlers list and condition variable", BASE + ": emitEvent; " + STD + ": doDispatching")],
 ["condition/exit/transition/enter/state callbacks carrying a unique argument per event", "failed-transition callback"],
 [("mPendingEvents", "events waiting for this machine", "src/HsmImpl.hpp"), ("mPendingEvents (dispatcher)", "handlers to call", "include/hsmcpp/HsmEventDispatcherBase.hpp")])

prop("C02", "Events are processed in the order they were sent",
 "Events sent to one machine are processed in the order in which the sending calls completed: if one transition call returned before another one was made, by the same or by any other thread, its event is processed first. Events sent from inside callbacks are queued behind everything already waiting and never overtake it.",
 ["schedules", "histories"],
 "every interleaving of senders and the dispatcher, every mix of asynchronous, synchronous and argument-carrying calls",
 "tests check the order of a handful of events sent by one thread",
 [IMPL, BASE, STD],
 [("FIFO list, new events appended, only internal continuation events put in front", IMPL + ": transitionExWithArgsArray, processExternalTransition")],
 ["order of the callbacks that carry each event's unique argument, compared with invocation/return times of the sending calls"])

prop("C03", "Run to completion: one event at a time, callbacks never overlap",
 "Callbacks of one machine never run concurrently or nested within each other, and after start-up they all run on the dispatcher's thread. All callbacks caused by one event, including automatic entry into substates, history restoration and the event raised by a final state, are finished before any callback of another external event starts.",
 ["schedules", "histories", "configurations"],
 "every interleaving of senders, timers, interrupts and several machines on one dispatcher, over generated machine structures with nested, parallel, history and final states",
 "overlap needs a schedule in which a second event arrives during a callback or between a parent's entry and its child's entry; tests fix one order",
 [IMPL, BASE, STD, "src/os/stl/AtomicFlag.cpp"],
 [("dispatching flag taken with test-and-set", IMPL + ": dispatchEvents"), ("entry-point, history and final continuation events are pushed to the front of the queue", IMPL + ": processExternalTransition, transitionToPreviousActiveStates, processFinalStateTransition")],
 ["enter/leave records of every callback with thread id", "grouping of callbacks by event argument"])

prop("C04", "Synchronous transitions report the truth and always return",
 "A synchronous transition returns true only if its own event was accepted and the resulting transition, including automatic entry into substates, finished; it returns false only if the event matched nothing, was vetoed (or a later part of its transition was), was discarded, or its timeout elapsed first. It returns as soon as its event is finished or discarded, never later than its timeout (plus scheduling delay), and with an infinite timeout it still returns whenever the event is processed, cleared, or discarded because the machine is released.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of waiting threads with processing, vetoes, queue clears, release, spurious and late wakeups, and every timeout against processing time",
 "a result stored just before the waiter goes to sleep, or a timeout racing with completion, depends on a window of a few instructions",
 [IMPL, TYPES] + OS,
 [("shared status, mutex and condition variable per event", TYPES + ": PendingEventInfo::wait / unlock / releaseLock"), ("continuation events carry the waiter along", IMPL + ": processExternalTransition")],
 ["return value and virtual return time of transitionSync / transitionEx(sync) against the recorded processing of that event"])

prop("C05", "Clearing the queue drops exactly the waiting events",
 "Sending an event with queue clearing discards exactly the external events that were waiting and not yet started at that moment, and then queues its own event; nothing sent afterwards is discarded and the event being processed is not disturbed. A transition already in progress still completes its automatic entry into substates or history, and each thread waiting synchronously on a discarded event is released with false.",
 ["schedules", "histories", "configurations"],
 "every point at which a clearing call can land relative to processing, entry chains, history restoration and other senders",
 "tests clear a queue while the dispatcher is blocked in one known callback; landing between a parent's entry and its child's entry needs another schedule",
 [IMPL, TYPES],
 [("clear under the queue mutex", IMPL + ": clearPendingEvents"), ("entry-point transitions treated as atomic", IMPL + ": clearPendingEvents comment")],
 ["which event arguments are ever seen by callbacks after a clearing call", "active states after quiescence", "results of waiting synchronous calls"])

prop("C06", "Interrupt-safe transitions work from a signal at any instruction",
 "The interrupt-safe transition call may be made from a signal handler or interrupt that hits any thread at any instruction, including inside the library itself and inside another such call's critical section; it never blocks forever and allocates no heap memory. If it returns true the event is processed exactly once, without needing any other stimulus (one that arrives while the dispatcher is just about to wait, at its next 100 ms re-check at the latest), provided the machine is not released or stopped first; it returns false only when the dispatcher's fixed-size queue is full or the machine is not initialised, and accepted events never exceed that size.",
 ["schedules", "fault_sequences", "histories"],
 "every instruction of every thread at which a signal can be delivered, every burst length, combined with every schedule",
 "no test delivers a signal; the existing test calls the function from an ordinary thread",
 [IMPL, BASE, STD, "src/os/common/CriticalSection.cpp", "src/os/posix/InterruptsFreeSection.cpp"],
 [("preallocated queue guarded by a mutex taken with all signals blocked", BASE + ": enqueueEvent, dispatchEnqueuedEvents"), ("wakeup of the dispatcher", STD + ": notifyDispatcherAboutEvent, doDispatching")],
 ["return value of the call in the simulated handler", "heap allocation inside the handler", "processing of the event's id by callbacks"])

prop("C07", "Timers fire on time, the right number of times",
 "A running single-shot timer delivers its event exactly once and a repeating timer once per interval, to the machine that started it; never before the interval has elapsed since it was started or last fired (1 ms resolution), and never later than the interval plus the delay the scheduler imposes. Several timers, including equal deadlines and timers started while others are pending, do not disturb each other, and changes of the wall clock have no effect.",
 ["schedules", "histories", "fault_sequences"],
 "every set of intervals and start times, every schedule of the timer thread, dispatcher and callers, late and spurious wakeups, wall-clock jumps",
 "tests use a few intervals with generous real-time tolerances and one or two timers",
 [BASE, STD, "src/os/stl/ConditionVariable.cpp"],
 [("earliest-deadline wait in the timers thread", STD + ": handleTimers, startTimerImpl"), ("active timers registry", BASE + ": startTimer, handleTimerEvent")],
 ["virtual times at which timer events reach callbacks, against start/stop/restart calls"],
 [("mActiveTimers / mRunningTimers", "registered timers and their deadlines", BASE + ", " + STD)])

prop("C08", "Starting, restarting and stopping timers takes effect immediately",
 "After a stop call returns the timer triggers no further expiry until it is started again (an expiry already handed over as an event may still be processed); after a start or restart call returns the timer's next expiry is a full interval later with the new settings, whatever the timer was doing, even if it was expiring at that moment. The running query is true from a completed start until a stop or until a single-shot timer expires, and false otherwise; these calls are safe from any thread and from callbacks. Unregistering a timer handler stops its timers, a timer started again for another handler does not reach the first one any more, and a timer without interval or handler never runs.",
 ["schedules", "histories"],
 "every interleaving of timer control calls from several threads and from callbacks with the expiry itself",
 "the interesting window is the one between a timeout and its handling, a few instructions of another thread",
 [BASE, STD],
 [("registry guarded by the handlers mutex", BASE + ": startTimer, restartTimer, stopTimer, isTimerRunning, handleTimerEvent"), ("deadline map guarded by its own mutex", STD + ": startTimerImpl, stopTimerImpl, handleTimers")],
 ["timer events reaching callbacks", "isTimerRunning results", "virtual time of each control call"])

prop("C09", "A machine can be released or deleted at any moment",
 "Releasing or deleting a machine from another thread at any moment, with events, timers and interrupt events still pending and a callback possibly running, returns once the running event has finished; no callback of that machine starts after the call has returned. It does not disturb other machines on the dispatcher, touches no freed memory and leaves no thread waiting for ever; everything the machine had been given (callbacks and what they hold) is destroyed with it.",
 ["schedules", "crash_points", "histories"],
 "every point of event, timer and interrupt processing at which the release can land, with any backlog",
 "the stress tests create and destroy machines in a loop and hope to hit a window; they cannot see a use after free that does not crash",
 [IMPL, BASE, STD, "src/os/stl/AtomicFlag.cpp"],
 [("stop flag, unregistering of handlers, wait for the dispatching flag", IMPL + ": release, dispatchEvents"), ("weak reference in every handler", IMPL + ": createEventHandler and siblings")],
 ["callback records after release() returned", "accesses to freed heap blocks", "blocked threads at quiescence"])

prop("C10", "Stopping or deleting the dispatcher always terminates",
 "Stopping the dispatcher, from any thread or from a callback, lets the event being handled finish, discards the rest and starts no further callback for it; deleting the dispatcher afterwards (with machines released) always returns, ends every thread it created and touches no freed memory, whatever timers, events, actions and interrupts are pending and at whatever instruction they are. This includes a dispatcher whose last reference is dropped right after its machines were released, also when that is done by an action or handler the dispatcher itself is executing. Actions and handlers it had been given are destroyed with it.",
 ["schedules", "crash_points", "histories"],
 "every instant of the dispatcher and timers threads at which stop or deletion can land, including before they have started running",
 "tests stop an idle or known-blocked dispatcher; a wakeup lost between the check of the stop flag and the wait needs a particular schedule",
 [BASE, STD, IMPL],
 [("stop flag plus notification", STD + ": stop, doDispatching, handleTimers"), ("join in destructor", STD + ": ~HsmEventDispatcherSTD"), ("deleter", BASE + ": handleDelete")],
 ["return of stop/delete within a bounded number of steps", "threads alive afterwards", "accesses to freed heap blocks"])

prop("C11", "Enqueued actions run once, in order, on the dispatcher thread",
 "Every action given to a running dispatcher is executed exactly once, on the dispatcher's thread, in the order the calls completed, and without needing any other event to arrive. Actions overtake events that are still waiting: an action enqueued before a dispatching round begins runs before any event of that round, never in the middle of another callback, and an action may itself enqueue actions, send events, or create and release machines.",
 ["schedules", "histories"],
 "every interleaving of action producers, event senders and the dispatcher, including an idle dispatcher and actions enqueued by actions",
 "the only test enqueues an action together with an event",
 [BASE, STD],
 [("actions list guarded by the emit mutex", BASE + ": enqueueAction, dispatchPendingActions"), ("wait predicate", STD + ": doDispatching")],
 ["execution records of actions: count, order, thread, overlap with callbacks"])

prop("C12", "Machines sharing a dispatcher do not affect each other",
 "Any number of machines may be created, initialised, used and released concurrently on one started dispatcher: each event, timer and interrupt event reaches only the machine it was meant for, handler identities are never shared, and each machine behaves exactly as if it were alone. A handler registered directly with the dispatcher is called once for each event sent to it, and never by an event sent after it was unregistered. A machine flooded with events does not prevent the others from being served.",
 ["schedules", "histories", "configurations"],
 "every interleaving of registration, traffic and release of several machines and several threads",
 "tests run several machines in sequence or with no traffic during registration",
 [BASE, STD, IMPL],
 [("handler ids", BASE + ": getNextHandlerID, register*Handler"), ("handlers maps guarded by a mutex, copied before calling", BASE + ": dispatchPendingEventsImpl")],
 ["per-machine history of callbacks compared with a per-machine reference model", "handler ids returned by the dispatcher"])

prop("C13", "Event processing follows the documented statechart rules",
 "For every machine structure and every sequence of events, the callbacks executed (conditions, exits, transition, entries, state changes, their order and arguments), the set of active states and the outcome of each event are those of the documented statechart semantics: innermost active states take precedence over their parents, exits run child first, entry continues into matching entry points, conditions select transitions, parallel regions each react once, and self-transitions respect their internal or external kind. The set of active states is always a legal configuration: every active state's parent is active, and a state with a matching entry point has an active child once its event is finished.",
 ["inputs", "histories", "configurations", "schedules"],
 "generated structures (nesting, parallel regions, conditional entry points and transitions, internal/external self transitions) under generated concurrent event histories",
 "tests fix some forty small structures and a few events each; the result depends on the whole history of the machine",
 [IMPL],
 [("transition selection", IMPL + ": findTransitionTarget, doTransition"), ("exit/entry execution", IMPL + ": executeExitTransition, processExternalTransition")],
 ["full callback trace and active states compared, event by event, with an independent executable reference model"])

prop("C14", "A vetoed transition leaves the machine where it was",
 "If an exit or entry callback refuses a transition, the machine ends with the same active states as before, every state that had already been left is entered again (its entry and state callbacks run, parents before children), children still take precedence over their parents for later events, the failed-transition callback is called once with the event and its arguments, and a synchronous caller gets false. If one event has several parallel targets, the accepted ones are entered and a refusing one brings back the states that were left, once each. A substate which refuses to be entered by an entry point or a history state is not entered, nor is anything inside of it; the parent stays active. No state is ever active without its parent. Later events are processed normally.",
 ["histories", "configurations", "inputs", "schedules"],
 "every position of the refusing callback in generated structures and histories, combined with concurrent traffic",
 "tests veto a single transition in flat or two-level machines and stop there",
 [IMPL],
 [("rollback", IMPL + ": executeExitTransition, processExternalTransition"), ("failed-transition callback", IMPL + ": doTransition")],
 ["callback trace, active states and result compared with the reference model"])

prop("C15", "History states restore what was active",
 "A transition to a history state re-enters the states that were active when its parent was last left: the direct child for shallow history, the innermost states (with their ancestors) for deep history; if the parent has not been left yet, its default target or else its entry point is entered and the default-transition callback runs. If the parent refuses to be entered, the machine is back where it was. This holds for any number of exits and re-entries, for parallel children, and with other events arriving at any time.",
 ["histories", "configurations", "schedules"],
 "generated structures with shallow and deep history and generated histories of exits, vetoes and re-entries under concurrent traffic",
 "tests re-enter once or twice; what is stored depends on the whole past of the machine and on clears and events arriving in between",
 [IMPL],
 [("recording", IMPL + ": updateHistory"), ("restoring", IMPL + ": processHistoryTransition, transitionToPreviousActiveStates, transitionToDefaultHistoryState")],
 ["callback trace and active states compared with the reference model"])

prop("C16", "Final states raise their event exactly when the region is done",
 "When a final substate is entered and no other non-final substate of the same parent remains active, exactly one event is raised to the machine (the configured one, or the one that led into the final state) with the arguments of the causing event, and it is processed after the transition which entered the final state and before any event already waiting; while siblings are still active, or are about to be entered by the same transition, none is raised. A top-level final state raises nothing.",
 ["histories", "configurations", "schedules"],
 "generated structures with final states in single and parallel regions, any order of completion, with a backlog of other events",
 "tests use a few fixed machines and an otherwise empty queue",
 [IMPL],
 [("final state handling", IMPL + ": processFinalStateTransition, hasActiveChildren")],
 ["callback trace compared with the reference model"])

prop("C17", "Start-up is complete before any event is processed",
 "Initialising a machine enters its initial state and then, before any other event, its matching entry points, running the entry and state callbacks of each exactly once. Events sent from the initial callbacks, by entry actions, or by other threads that see the machine initialised are all processed after the initial state has become active; none is lost or judged against an empty configuration.",
 ["schedules", "histories", "configurations"],
 "every interleaving of the initialising thread with a dispatcher that is already running, other senders, and events raised by the initial callbacks",
 "tests initialise on an idle dispatcher and send events only after initialise returned",
 [IMPL],
 [("start-up on the caller's thread", IMPL + ": initialize, handleStartup"), ("dispatching flag", IMPL + ": dispatchEvents")],
 ["callback trace from initialise on, compared with the reference model"])

prop("C18", "State actions run exactly when their state is entered or left",
 "The actions registered for a state run once each time that state is entered (after its entry callback accepted) or left (after its exit callback accepted), in registration order, and not when the callback refused: timers are started, restarted or stopped with the registered settings, and transition actions queue their event, with its extra arguments, behind the events already waiting.",
 ["histories", "configurations", "schedules"],
 "generated structures with entry and exit actions under generated histories including vetoes and concurrent events",
 "tests attach single actions to simple machines",
 [IMPL, BASE],
 [("executeStateAction", IMPL + ": onStateEntering, onStateExiting, executeStateAction")],
 ["timer state and events seen by callbacks compared with the reference model"])

prop("C19", "Thread-safe calls never deadlock",
 "Any combination of the calls documented as thread-safe, made concurrently from client threads, callbacks, timer and action handlers, eventually returns: sending events, timer control and queries, handler registration and removal, enqueuing actions and events, and stopping. Timer handlers may send events and enqueue actions. No lock order, lost wakeup or notification window can leave a thread blocked once the system is otherwise idle.",
 ["schedules", "fault_sequences"],
 "every interleaving of every mix of thread-safe calls, with stalls and spurious wakeups",
 "lock-order inversions and lost wakeups need two threads inside narrow windows at once",
 [BASE, STD, IMPL] + OS,
 [("emit, handlers, enqueued-events and running-timers mutexes", "include/hsmcpp/HsmEventDispatcherBase.hpp"), ("condition-variable wrapper", "src/os/stl/ConditionVariable.cpp")],
 ["threads still blocked when nothing is runnable and no timeout is pending"])

prop("C20", "The debug log records what happened and never changes it",
 "With logging enabled and a healthy disk, every machine's log contains, complete and in order, one well-formed record per logged step (transitions, callbacks with their outcome, actions, idle) naming the states and event involved, even when several machines log concurrently and logging is disabled or the machine released at any moment (which closes the log at that call). If opening or writing the log fails (full disk, I/O error, short or interrupted writes) the machine behaves exactly as without logging.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of logging machines, disable calls and releases; every injected write, short-write and open failure",
 "tests never inspect a log written under concurrency or on a failing disk",
 [IMPL, "src/os/common/CriticalSection.cpp"],
 [("log mutex", IMPL + ": logHsmAction"), ("open/close", IMPL + ": enableHsmDebugging, disableHsmDebugging")],
 ["bytes handed to the simulated disk, parsed and compared with the callback history", "callback history compared with the reference model under I/O faults"])

prop("C21", "Asking whether a transition is possible predicts the outcome",
 "When the machine is idle, asking whether a transition is possible answers true exactly if sending that event with those arguments would find an enabled transition (whose target can be entered) from an active state or one of its ancestors, and asking changes nothing: no state, queue, timer or callback other than condition callbacks.",
 ["histories", "configurations", "inputs"],
 "generated structures in every configuration reached by generated histories, every event and argument",
 "tests ask a few questions on fixed machines in one or two states",
 [IMPL],
 [("isTransitionPossible, checkTransitionPossibility", IMPL)],
 ["answer compared with the reference model and with the outcome of the same event sent right afterwards"])

prop("C22", "The GLib dispatcher gives the same guarantees",
 "With the GLib dispatcher, created, started, stopped and deleted on the thread of its event loop: events sent from any thread are processed exactly once, in order, on the loop's thread; synchronous callers get the true result; enqueued actions and interrupt-safe events are executed, however many are pending and also if they were enqueued before the dispatcher was started; timers started, restarted and stopped by any thread fire the right number of times, never early and never after they were stopped; after stop() nothing more is delivered; and stopping, releasing machines and dropping the dispatcher (also if a call of another thread holds its last reference) always terminates, without touching freed memory or closed descriptors.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of sender threads with the loop thread, at every wake-up, with stalls, late wake-ups and full pipes, interrupts at any instruction",
 "the same few tests run once per dispatcher under the schedule the OS gives, and none runs in the default build",
 ["src/HsmEventDispatcherGLib.cpp", "include/hsmcpp/HsmEventDispatcherGLib.hpp", BASE],
 [("wake-up pipe", "src/HsmEventDispatcherGLib.cpp: notifyDispatcherAboutEvent, onPipeDataAvailable"), ("timeout sources", "src/HsmEventDispatcherGLib.cpp: startTimerImpl, stopTimerImpl, handleTimerExpiration"), ("life cycle", "src/HsmEventDispatcherGLib.cpp: start, stop, deleteSafe")],
 ["same records as C01-C12 with this dispatcher on a simulated loop thread"])

prop("C25", "The GLibmm dispatcher gives the same guarantees",
 "With the GLibmm dispatcher, created, started, stopped and deleted on the thread of its event loop: events sent from any thread are processed exactly once, in order, on the loop's thread; synchronous callers get the true result; enqueued actions and interrupt-safe events are executed, however many are pending and also if they were enqueued before the dispatcher was started; timers started, restarted and stopped by any thread fire the right number of times, never early and never after they were stopped; after stop() nothing more is delivered; and stopping, releasing machines and dropping the dispatcher (also if a call of another thread holds its last reference) always terminates, without touching freed memory or closed descriptors.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of sender threads with the loop thread, at every wake-up, with stalls, late wake-ups and full pipes, interrupts at any instruction",
 "the same few tests run once per dispatcher under the schedule the OS gives, and none runs in the default build",
 ["src/HsmEventDispatcherGLibmm.cpp", "include/hsmcpp/HsmEventDispatcherGLibmm.hpp", BASE],
 [("notification", "src/HsmEventDispatcherGLibmm.cpp: notifyDispatcherAboutEvent, onNotification"), ("timeout sources", "src/HsmEventDispatcherGLibmm.cpp: startTimerImpl, stopTimerImpl, handleTimerExpiration"), ("life cycle", "src/HsmEventDispatcherGLibmm.cpp: start, stop, deleteSafe")],
 ["same records as C01-C12 with this dispatcher on a simulated loop thread"])

prop("C26", "The Qt dispatcher gives the same guarantees",
 "With the Qt dispatcher, created, started, stopped and deleted on the thread of its event loop: events sent from any thread are processed exactly once, in order, on the loop's thread; synchronous callers get the true result; enqueued actions are executed, however many are pending and also if they were enqueued before the dispatcher was started; timers started, restarted and stopped by any thread fire the right number of times, never early and never after they were stopped; after stop() nothing more is delivered; and stopping, releasing machines and dropping the dispatcher (also if a call of another thread holds its last reference) always terminates, without touching freed memory or closed descriptors.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of sender threads with the loop thread, at every wake-up, with stalls, late wake-ups",
 "the same few tests run once per dispatcher under the schedule the OS gives, and none runs in the default build",
 ["src/HsmEventDispatcherQt.cpp", "include/hsmcpp/HsmEventDispatcherQt.hpp", BASE],
 [("posted events", "src/HsmEventDispatcherQt.cpp: notifyDispatcherAboutEvent, customEvent"), ("QTimer", "src/HsmEventDispatcherQt.cpp: startTimerImpl, createNativeTimer, stopTimerImpl, handleTimerExpiration"), ("life cycle", "src/HsmEventDispatcherQt.cpp: start, stop, deleteSafe")],
 ["same records as C01-C12 with this dispatcher on a simulated loop thread"])

prop("C23", "The polled (Arduino) dispatcher gives the same guarantees",
 "With the polled dispatcher, every call to its dispatch function serves pending actions, interrupt events, events and due timers; over repeated polls every event is processed exactly once and in order, interrupt-safe events sent between or during polls at any instruction are processed exactly once, and single-shot and repeating timers of any interval fire the right number of times, never early and in the first poll after they are due (the next interval of a repeating timer counts from the poll that fired it), also across an overflow of the millisecond counter.",
 ["schedules", "histories", "fault_sequences"],
 "every spacing of polls against timers, every instruction at which an interrupt can arrive, every interval, the counter overflowing at any time",
 "no test of the repository runs this dispatcher",
 ["src/HsmEventDispatcherArduino.cpp", BASE],
 [("polling", "src/HsmEventDispatcherArduino.cpp: dispatchEvents, handleTimers")],
 ["same records as C01, C06 and C07 on a simulated board clock"])

prop("C24", "The FreeRTOS dispatcher gives the same guarantees",
 "With the FreeRTOS dispatcher on a single-core kernel: events sent from any task are processed exactly once, in order, on the dispatcher's task; synchronous callers get the true result; enqueued actions are executed; interrupt-safe events may be sent by an interrupt at any instruction, never block, allocate or use calls of the kernel that are not allowed in an interrupt, and are processed exactly once; timers started, restarted, stopped and reconfigured by any task fire the right number of times, never early (resolution: one tick) and never after they were stopped; after stop() nothing more is delivered; and stopping, releasing machines and dropping the dispatcher (also if a call of another task, its own task or the timer task holds its last reference) always terminates, without touching freed memory, blocking inside a critical section or leaving its task behind.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of tasks, the timer task and interrupts, at every lock, notification, kernel call and preemption point, with stalls and late wake-ups",
 "these tests need the FreeRTOS kernel and are not part of the build",
 ["src/HsmEventDispatcherFreeRTOS.cpp", "src/os/freertos/ConditionVariable.cpp", "src/os/freertos/Mutex.cpp", "src/os/freertos/AtomicFlag.cpp", "src/os/freertos/InterruptsFreeSection.cpp", BASE],
 [("task notification", "src/HsmEventDispatcherFreeRTOS.cpp: notifyDispatcherAboutEvent, doDispatching"), ("software timers", "src/HsmEventDispatcherFreeRTOS.cpp: startTimerImpl, stopTimerImpl, handleTimerExpiration, onTimerEvent"), ("life cycle", "src/HsmEventDispatcherFreeRTOS.cpp: start, stop, join, deleteSafe")],
 ["same records as C01-C12 with this dispatcher on a simulated kernel"])

prop("V01", "Variant values convert and compare consistently",
 "A value stored in the argument container is returned unchanged by the matching accessor, copies compare equal to the original, conversions between numeric types, strings, lists and maps preserve the value where the target can represent it, and ordering is a strict weak order.",
 ["inputs"],
 "every value of every supported type",
 "tests sample some values of each type",
 ["src/variant.cpp", "include/hsmcpp/variant.hpp"],
 [("type-tagged shared storage", "include/hsmcpp/variant.hpp")],
 ["return values of the accessors and operators"])

prop("V02", "Generated code implements the SCXML model it was generated from",
 "For every supported SCXML document the generated C++ class registers exactly the states, substates, entry points, history and final states, transitions with their conditions and callbacks, actions and timers of the document, including included documents.",
 ["programs"],
 "every SCXML document accepted by the generator",
 "tests generate from a dozen documents",
 ["tools/scxml2gen/scxml2gen.py"],
 [("parser and template substitution", "tools/scxml2gen/scxml2gen.py")],
 ["generated sources"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
