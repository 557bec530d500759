From d09d87a7c792d4d2d624f43f0f00771c2f0dba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 01/50] fix: do not allocate memory in CriticalSection

CriticalSection is used by enqueueEvent() which is called from interrupt
handlers by transitionInterruptSafe(). It kept InterruptsFreeSection on the
heap, so a signal delivered while the interrupted thread was inside the
allocator could corrupt the heap or deadlock.
---
 include/hsmcpp/os/common/CriticalSection.hpp | 5 ++---
 src/os/common/CriticalSection.cpp            | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/hsmcpp/os/common/CriticalSection.hpp b/include/hsmcpp/os/common/CriticalSection.hpp
index 2f57053..e450f4f 100644
--- a/include/hsmcpp/os/common/CriticalSection.hpp
+++ b/include/hsmcpp/os/common/CriticalSection.hpp
@@ -3,12 +3,11 @@
 #ifndef HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 #define HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 
-#include <memory>
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 
 namespace hsmcpp {
 
 class Mutex;
-class InterruptsFreeSection;
 
 class CriticalSection {
 public:
@@ -23,7 +22,7 @@ private:
 
 private:
     Mutex& mSync;
-    std::unique_ptr<InterruptsFreeSection> mInterruptsBlock;
+    InterruptsFreeSection mInterruptsBlock;
 };
 
 }  // namespace hsmcpp
diff --git a/src/os/common/CriticalSection.cpp b/src/os/common/CriticalSection.cpp
index f35a29a..b45559d 100644
--- a/src/os/common/CriticalSection.cpp
+++ b/src/os/common/CriticalSection.cpp
@@ -8,8 +8,7 @@
 namespace hsmcpp {
 
 CriticalSection::CriticalSection(Mutex& sync)
-    : mSync(sync)
-    , mInterruptsBlock(new InterruptsFreeSection()) {
+    : mSync(sync) {
     mSync.lock();
 }
 
-- 
2.43.0


From 9633a161b2bee3234cbb9469b51cfbebc82b395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 02/50] fix: check capacity of the interrupt events queue under
 its lock

enqueueEvent() compared size and capacity before taking the lock, so two
concurrent callers could both see the last free slot. The second one made the
vector reallocate: heap allocation in interrupt context and more events than
the configured cache size.
---
 src/HsmEventDispatcherBase.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index b1c8812..407195a 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -75,13 +75,16 @@ void HsmEventDispatcherBase::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherBase::enqueueEvent(const HandlerID_t handlerID, const EventID_t event) {
     bool wasAdded = false;
 
-    if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
-        {
-            CriticalSection cs(mEnqueuedEventsSync);
+    {
+        CriticalSection cs(mEnqueuedEventsSync);
+
+        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
             mEnqueuedEvents.emplace_back(handlerID, event);
+            wasAdded = true;
         }
+    }
 
-        wasAdded = true;
+    if (true == wasAdded) {
         notifyDispatcherAboutEvent();
     }
 
-- 
2.43.0


From 35b3f39012a73b6211cc902fa8ad69d3fa382678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 03/50] fix: change status of a synchronous event under its
 lock

PendingEventInfo::unlock() set the status and notified without holding the
mutex used by wait(). If that happened after the waiting thread checked its
predicate but before it was blocked, the notification was lost and the sync
transition() never returned (or only returned after its timeout).
---
 src/HsmImplTypes.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3406f41..3fbbd42 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -4,6 +4,7 @@
 #include "HsmImplTypes.hpp"
 
 #include "hsmcpp/logging.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -170,6 +171,10 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
 
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
+        // NOTE: status must be changed under the lock. otherwise notification could be lost if it's sent after the waiting
+        //       thread checked transition status but before it started to wait
+        LockGuard lck(*cvLock);
+
         *transitionStatus = status;
 
         if (status != HsmEventStatus::PENDING) {
-- 
2.43.0


From 8faad87667c0865a72ff820f60c65dd158461473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 04/50] fix: keep continuation of the ongoing transition when
 events queue is cleared

clearPendingEvents() is documented to treat entry point transitions as atomic,
but the final clear() dropped them (and history transitions) together with
regular events. The state machine was left in a composite state without any
active substate and a synchronous caller of the interrupted transition was
answered with failure.
---
 src/HsmImpl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b00c921..8b6f7a2 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1543,14 +1543,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 void HierarchicalStateMachine::Impl::clearPendingEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("clearPendingEvents: mPendingEvents.size()=%ld", mPendingEvents.size());
 
-    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()); ++it) {
-        // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
+    for (auto it = mPendingEvents.begin(); it != mPendingEvents.end();) {
+        // since ongoing transitions can't be canceled we need to treat entry point and history transitions as atomic
         if (TransitionBehavior::REGULAR == it->transitionType) {
             it->releaseLock();
+            it = mPendingEvents.erase(it);
+        } else {
+            ++it;
         }
     }
-
-    mPendingEvents.clear();
 }
 
 bool HierarchicalStateMachine::Impl::hasSubstates(const StateID_t parent) const {
-- 
2.43.0


From 7b5c8582f7a3565cd4938b458329c3dd3f761930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 05/50] fix: do not report entry points of already entered
 states as failed transition

---
 src/HsmImpl.cpp      | 15 +++++++++++++++
 src/HsmImplTypes.hpp |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 8b6f7a2..eb91493 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1050,6 +1050,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
     auto activeStatesSnapshot = mActiveStates;
     std::list<StateID_t> acceptedStates;  // list of states that accepted transitions
+    bool hasFailedTransitions = false;
 
     for (auto it = activeStatesSnapshot.rbegin(); it != activeStatesSnapshot.rend(); ++it) {
         // in case of parallel transitions some states might become inactive after handleSingleTransition()
@@ -1087,6 +1088,9 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
                         break;
                     case HsmEventStatus::CANCELED:
                     case HsmEventStatus::DONE_FAILED:
+                        hasFailedTransitions = true;
+                        break;
+                    case HsmEventStatus::IGNORED:
                     default:
                         // do nothing
                         break;
@@ -1101,6 +1105,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
         }
     }
 
+    // it's not an error if there is nothing left to enter (same state could be a target of multiple parallel transitions)
+    if ((TransitionBehavior::ENTRYPOINT == event.transitionType) && (HsmEventStatus::DONE_FAILED == res) &&
+        (false == hasFailedTransitions) && (false == mDispatcher.expired())) {
+        res = HsmEventStatus::DONE_OK;
+    }
+
     if (mFailedTransitionCallback && ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {
         mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs());
     }
@@ -1527,6 +1537,11 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
         } else {
             res = HsmEventStatus::CANCELED;
         }
+    } else if (TransitionBehavior::ENTRYPOINT == event.transitionType) {
+        // substates of this state don't have to be entered
+        res = HsmEventStatus::IGNORED;
+    } else {
+        // NOTE: do nothing
     }
 
     if (HsmEventStatus::DONE_FAILED == res) {
diff --git a/src/HsmImplTypes.hpp b/src/HsmImplTypes.hpp
index 18b3f70..79372f7 100644
--- a/src/HsmImplTypes.hpp
+++ b/src/HsmImplTypes.hpp
@@ -26,7 +26,7 @@ enum class HsmLogAction {
     ON_EXIT_ACTIONS,
 };
 
-enum class HsmEventStatus { PENDING, DONE_OK, DONE_FAILED, CANCELED };
+enum class HsmEventStatus { PENDING, DONE_OK, DONE_FAILED, CANCELED, IGNORED };
 
 enum class TransitionBehavior { REGULAR, ENTRYPOINT, FORCED };
 
-- 
2.43.0


From 2ac96eaa5a2a4a8553c6edccc1e78744a24a33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 06/50] fix: lock events queue when adding transition to
 default history target

---
 src/HsmImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index eb91493..e7751c1 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1459,7 +1459,10 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
                                                                       cbTransition,
                                                                       nullptr);
 
-        mPendingEvents.push_front(defHistoryTransitionEvent);
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            mPendingEvents.push_front(defHistoryTransitionEvent);
+        }
     }
 }
 
-- 
2.43.0


From 6b3f76d4526ed3b917770175ea909113310371dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 07/50] fix: do not wait for an event while there are pending
 actions

---
 src/HsmEventDispatcherSTD.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 2f216a7..faabd62 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -137,17 +137,16 @@ void HsmEventDispatcherSTD::doDispatching() {
         if (false == mStopDispatcher) {
             UniqueLock lck(mEmitSync);
 
-            if (true == mPendingEvents.empty()) {
-                HSM_TRACE_DEBUG("wait for emit...");
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                mEmitEvent.wait(lck, [=]() {
-                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
-                });
-                HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
-            }
+            HSM_TRACE_DEBUG("wait for emit...");
+            // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
+            //       "return" statement belogs to a lamda function, not doDispatching.
+            // cppcheck-suppress misra-c2012-15.5
+            mEmitEvent.wait(lck, [=]() {
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) ||
+                       (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
+            });
+            HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
         }
     }
 
-- 
2.43.0


From 0668634d045427cb3e30235f9db47d5ae4bfb29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 08/50] fix: do not leave enqueued event unprocessed if its
 notification was lost

---
 src/HsmEventDispatcherSTD.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index faabd62..0c318b9 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -11,6 +11,9 @@ namespace hsmcpp {
 #undef HSM_TRACE_CLASS
 #define HSM_TRACE_CLASS "HsmEventDispatcherSTD"
 
+// defines how long enqueued event could be waiting if notification about it was lost (see doDispatching())
+constexpr int ENQUEUED_EVENTS_CHECK_INTERVAL_MS = 100;
+
 HsmEventDispatcherSTD::HsmEventDispatcherSTD(const size_t eventsCacheSize)
     // cppcheck-suppress misra-c2012-10.4 ; false-positive. thinks that ':' is arithmetic operation
     : HsmEventDispatcherBase(eventsCacheSize) {
@@ -138,10 +141,13 @@ void HsmEventDispatcherSTD::doDispatching() {
             UniqueLock lck(mEmitSync);
 
             HSM_TRACE_DEBUG("wait for emit...");
+            // NOTE: enqueueEvent() can be called from an interrupt (signal handler) so it's not allowed to lock mEmitSync.
+            //       Its notification will be lost if it's sent after the condition was checked, but before the thread started
+            //       to wait. That's why waiting time must be limited.
             // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
             //       "return" statement belogs to a lamda function, not doDispatching.
             // cppcheck-suppress misra-c2012-15.5
-            mEmitEvent.wait(lck, [=]() {
+            mEmitEvent.wait_for(lck, ENQUEUED_EVENTS_CHECK_INTERVAL_MS, [=]() {
                 // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
                 return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) ||
                        (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
-- 
2.43.0


From 5917eaded070cef2dd14dfd19f7e9ea71fa12ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 09/50] fix: handle unregistered handlers of enqueued events

---
 src/HsmEventDispatcherBase.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 407195a..20866bb 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -302,11 +302,16 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
         // need to traverse events in reverse order
         for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
             if (prevHandlerID != it->handlerID) {
+                LockGuard lck(mHandlersSync);
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
             }
 
-            callback(it->eventID);
+            // NOTE: handler could have been unregistered after event was enqueued
+            // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has a bool() operator
+            if (callback) {
+                callback(it->eventID);
+            }
         }
     }
 }
-- 
2.43.0


From 133f3e233a2ec22b9b9d37fb0cc64f266dc22326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 10/50] fix: generate handler IDs under handlers lock

---
 src/HsmEventDispatcherBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 20866bb..1b278d9 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -38,8 +38,8 @@ void HsmEventDispatcherBase::stop() {
 
 HandlerID_t HsmEventDispatcherBase::registerEventHandler(const EventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEventHandlers[id] = handler;
 
@@ -104,8 +104,8 @@ void HsmEventDispatcherBase::enqueueAction(ActionHandlerFunc_t actionCallback) {
 
 HandlerID_t HsmEventDispatcherBase::registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEnqueuedEventHandlers[id] = handler;
 
@@ -120,8 +120,8 @@ void HsmEventDispatcherBase::unregisterEnqueuedEventHandler(const HandlerID_t ha
 }
 
 HandlerID_t HsmEventDispatcherBase::registerTimerHandler(const TimerHandlerFunc_t& handler) {
-    const HandlerID_t newID = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t newID = getNextHandlerID();
 
     mTimerHandlers[newID] = handler;
 
-- 
2.43.0


From ada4cd107b0cbe47128e296c838606ce7e79444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 11/50] fix: protect active timers when checking if timer is
 running

---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  3 ++-
 src/HsmEventDispatcherBase.cpp            | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 07d95f9..2cd64a4 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -264,7 +264,7 @@ protected:
 
 protected:
     HandlerID_t mNextHandlerId = 1;
-    std::map<TimerID_t, TimerInfo> mActiveTimers;                              // protected by mHandlersSync
+    std::map<TimerID_t, TimerInfo> mActiveTimers;                              // protected by mHandlersSync (changes are also protected by mActiveTimersSync)
     std::map<HandlerID_t, EventHandlerFunc_t> mEventHandlers;                  // protected by mHandlersSync
     std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> mEnqueuedEventHandlers;  // protected by mHandlersSync
     std::map<HandlerID_t, TimerHandlerFunc_t> mTimerHandlers;                  // protected by mHandlersSync
@@ -273,6 +273,7 @@ protected:
     std::vector<EnqueuedEventInfo> mEnqueuedEvents;                            // protected by mEnqueuedEventsSync
     Mutex mEmitSync;
     Mutex mHandlersSync;
+    Mutex mActiveTimersSync;
     Mutex mEnqueuedEventsSync;
     Mutex mRunningTimersSync;
     bool mStopDispatcher = false;
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 1b278d9..a9b7421 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -136,6 +136,8 @@ void HsmEventDispatcherBase::unregisterTimerHandler(const HandlerID_t handlerID)
         for (auto itTimer = mActiveTimers.begin(); itTimer != mActiveTimers.end();) {
             if (handlerID == itTimer->second.handlerID) {
                 stopTimerImpl(itTimer->first);
+
+                LockGuard lckTimers(mActiveTimersSync);
                 itTimer = mActiveTimers.erase(itTimer);
             } else {
                 ++itTimer;
@@ -176,7 +178,11 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
                 newTimer.intervalMs = intervalMs;
                 newTimer.isSingleShot = isSingleShot;
 
-                mActiveTimers[timerID] = newTimer;
+                {
+                    LockGuard lckTimers(mActiveTimersSync);
+                    mActiveTimers[timerID] = newTimer;
+                }
+
                 startTimerImpl(timerID, intervalMs, isSingleShot);
             }
         }
@@ -205,11 +211,16 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 
     if (mActiveTimers.end() != it) {
         stopTimerImpl(timerID);
+
+        LockGuard lckTimers(mActiveTimersSync);
         mActiveTimers.erase(it);
     }
 }
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
+    // NOTE: mHandlersSync is locked while timer handlers are executed, so it can't be used here
+    LockGuard lck(mActiveTimersSync);
+
     return (mActiveTimers.find(timerID) != mActiveTimers.end());
 }
 
@@ -274,6 +285,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 
                 // Remove singleshot timer from active list
                 if (0u == nextIntervalMs) {
+                    LockGuard lckTimers(mActiveTimersSync);
                     mActiveTimers.erase(itTimer);
                 }
 
-- 
2.43.0


From f347d8ba9c085aaf764c715943386edb3178f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 12/50] fix: deadlocks and lost notifications in timers thread
 of HsmEventDispatcherSTD

---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  13 +++
 include/hsmcpp/HsmEventDispatcherSTD.hpp  |   7 +-
 src/HsmEventDispatcherBase.cpp            |  12 +-
 src/HsmEventDispatcherSTD.cpp             | 128 +++++++++++++---------
 4 files changed, 106 insertions(+), 54 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 2cd64a4..c9d2541 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -213,6 +213,19 @@ protected:
      */
     virtual void stopTimerImpl(const TimerID_t timerID);
 
+    /**
+     * @brief Called before executing handler of an expired timer.
+     * @details Can be implemented by derived classes to check and update state of a timer. Called with locked mHandlersSync, so it
+     * can't happen at the same time with starting or stopping a timer. Default implementation just accepts all timers.
+     *
+     * @param timerID id of the expired timer
+     * @param nextIntervalMs interval in milliseconds after which timer should expire again (zero for a singleshot timer)
+     *
+     * @retval true timer has expired and its handler should be executed
+     * @retval false timer was stopped or restarted in the meantime
+     */
+    virtual bool handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs);
+
     /**
      * @brief Contains common logic for handling timer event
      *
diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index c04001f..80466d4 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -96,6 +96,10 @@ protected:
      * @threadsafe{ }
      */
     void stopTimerImpl(const TimerID_t timerID) override;
+    /**
+     * See HsmEventDispatcherBase::handleTimerExpiration()
+     */
+    bool handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
 
     void notifyDispatcherAboutEvent() override;
     void doDispatching();
@@ -109,7 +113,8 @@ private:
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
     ConditionVariable mTimerEvent;
-    bool mNotifiedTimersThread = false;
+    Mutex mTimerEventSync;
+    bool mNotifiedTimersThread = false;  // protected by mTimerEventSync
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
 };
 
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index a9b7421..7b2ba85 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -265,6 +265,11 @@ void HsmEventDispatcherBase::stopTimerImpl(const TimerID_t timerID) {
     // do nothing. must be implemented in platfrom specific dispatcher
 }
 
+bool HsmEventDispatcherBase::handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    // do nothing. could be implemented in platfrom specific dispatcher
+    return true;
+}
+
 unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
     unsigned int nextIntervalMs = 0;
@@ -277,11 +282,14 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 
         if (mActiveTimers.end() != itTimer) {
             HSM_TRACE_DEBUG("curTimer.handlerID=%d", itTimer->second.handlerID);
+            const unsigned int newIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
 
-            if (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) {
+            // NOTE: timer could have been restarted while this thread was waiting for mHandlersSync
+            if ((INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) &&
+                (true == handleTimerExpiration(timerID, newIntervalMs))) {
                 TimerHandlerFunc_t timerHandler = getTimerHandlerFunc(itTimer->second.handlerID);
 
-                nextIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
+                nextIntervalMs = newIntervalMs;
 
                 // Remove singleshot timer from active list
                 if (0u == nextIntervalMs) {
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 0c318b9..c0eeaa8 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -3,8 +3,12 @@
 
 #include "hsmcpp/HsmEventDispatcherSTD.hpp"
 
+#include <algorithm>
+#include <limits>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -63,9 +67,13 @@ bool HsmEventDispatcherSTD::start() {
 
 void HsmEventDispatcherSTD::stop() {
     HSM_TRACE_CALL_DEBUG();
-    UniqueLock lck(mEmitSync);
 
-    HsmEventDispatcherBase::stop();
+    {
+        UniqueLock lck(mEmitSync);
+        HsmEventDispatcherBase::stop();
+    }
+
+    // NOTE: mEmitSync must not be locked here because timer handlers emit events with locked mHandlersSync
     unregisterAllEventHandlers();
     notifyDispatcherAboutEvent();
     notifyTimersThread();
@@ -161,84 +169,102 @@ void HsmEventDispatcherSTD::doDispatching() {
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
     HSM_TRACE_CALL_DEBUG();
-    mNotifiedTimersThread = true;
+
+    {
+        LockGuard lck(mTimerEventSync);
+        mNotifiedTimersThread = true;
+    }
+
     mTimerEvent.notify();
 }
 
+bool HsmEventDispatcherSTD::handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    bool hasExpired = false;
+    const auto currentTime = std::chrono::steady_clock::now();
+    CriticalSection lck(mRunningTimersSync);
+    auto it = mRunningTimers.find(timerID);
+
+    if ((mRunningTimers.end() != it) &&
+        (std::chrono::duration_cast<std::chrono::milliseconds>(it->second.elapseAfter - currentTime).count() <= 0)) {
+        hasExpired = true;
+
+        if (nextIntervalMs > 0u) {
+            // restart timer
+            it->second.startedAt = currentTime;
+            it->second.elapseAfter = it->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
+        } else {
+            // single shot timer. remove from queue
+            mRunningTimers.erase(it);
+        }
+    }
+
+    return hasExpired;
+}
+
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
-    Mutex timerEventSync;
-    UniqueLock lck(timerEventSync);
+
+    // NOTE: flag is checked and changed with locked mTimerEventSync
+    const auto wasNotified = [&]() {
+        const bool res = mNotifiedTimersThread;
+
+        mNotifiedTimersThread = false;
+        // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+        return res;
+    };
 
     while (false == mStopDispatcher) {
-        mRunningTimersSync.lock();
+        TimerID_t waitingTimerId = INVALID_HSM_TIMER_ID;
+        int64_t waitDurationMs = 0;
+        bool hasTimers = false;
 
-        if (false == mRunningTimers.empty()) {
-            auto itTimeout = mRunningTimers.begin();
+        {
+            CriticalSection lck(mRunningTimersSync);
 
-            for (auto it = mRunningTimers.begin(); it != mRunningTimers.end(); ++it) {
-                if (it->second.elapseAfter < itTimeout->second.elapseAfter) {
-                    itTimeout = it;
-                }
-            }
+            if (false == mRunningTimers.empty()) {
+                auto itTimeout = mRunningTimers.begin();
 
-            TimerID_t waitingTimerId = itTimeout->first;
-            const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
-                                                                                         std::chrono::steady_clock::now())
-                                       .count();
+                for (auto it = mRunningTimers.begin(); it != mRunningTimers.end(); ++it) {
+                    if (it->second.elapseAfter < itTimeout->second.elapseAfter) {
+                        itTimeout = it;
+                    }
+                }
 
-            // unlock after itTimeout value is not needed anymore
-            mRunningTimersSync.unlock();
-            // NOTE: make sure we don't use itTimeout value after this line
+                hasTimers = true;
+                waitingTimerId = itTimeout->first;
+                waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
+                                                                                       std::chrono::steady_clock::now())
+                                     .count();
+            }
+        }
 
+        if (true == hasTimers) {
             bool waitResult = false;
 
             // if waitDurationMs <= 0 it means that timer already expired and we only need to trigger event
             if (waitDurationMs > 0) {
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
-            }
+                UniqueLock lck(mTimerEventSync);
 
-            mNotifiedTimersThread = false;
+                waitDurationMs = std::min<int64_t>(waitDurationMs, std::numeric_limits<int>::max());
+                waitResult = mTimerEvent.wait_for(lck, static_cast<int>(waitDurationMs), wasNotified);
+            }
 
             if (false == waitResult) {
                 // timeout expired
-
-                // store wakeup time in case we'll need to calculate new elapseAfter value
-                // needed to avoid potential delays caused by CriticalSection and handleTimerEvent()
-                const auto wakeupTime = std::chrono::steady_clock::now();
-                CriticalSection lckExpired(mRunningTimersSync);
-
-                itTimeout = mRunningTimers.find(waitingTimerId);
-
-                if (itTimeout != mRunningTimers.end()) {
-                    const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
-
-                    if (nextIntervalMs > 0u) {
-                        // restart timer
-                        itTimeout->second.startedAt = wakeupTime;
-                        itTimeout->second.elapseAfter = itTimeout->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
-                    } else {
-                        // single shot timer. remove from queue
-                        mRunningTimers.erase(itTimeout);
-                    }
-                } else {
-                    // do nothing
-                }
+                // NOTE: must be called without locked mRunningTimersSync to avoid deadlock with startTimer() and stopTimer()
+                (void)handleTimerEvent(waitingTimerId);
             } else {
                 // thread was woken up by start/stop operation. no need to do anything
             }
         } else {
-            mRunningTimersSync.unlock();
+            UniqueLock lck(mTimerEventSync);
 
             // wait for timer events
-            mTimerEvent.wait(lck);
+            mTimerEvent.wait(lck, wasNotified);
         }
     }
 
     HSM_TRACE_DEBUG("EXIT");
 }
 
-}  // namespace hsmcpp
\ No newline at end of file
+}  // namespace hsmcpp
-- 
2.43.0


From c3476c2aa8527e90f49c23be29df23e982e57ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 13/50] fix: timers of HsmEventDispatcherSTD must not expire
 before their time

---
 src/HsmEventDispatcherSTD.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index c0eeaa8..39ce072 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -184,8 +184,7 @@ bool HsmEventDispatcherSTD::handleTimerExpiration(const TimerID_t timerID, const
     CriticalSection lck(mRunningTimersSync);
     auto it = mRunningTimers.find(timerID);
 
-    if ((mRunningTimers.end() != it) &&
-        (std::chrono::duration_cast<std::chrono::milliseconds>(it->second.elapseAfter - currentTime).count() <= 0)) {
+    if ((mRunningTimers.end() != it) && (it->second.elapseAfter <= currentTime)) {
         hasExpired = true;
 
         if (nextIntervalMs > 0u) {
@@ -232,9 +231,15 @@ void HsmEventDispatcherSTD::handleTimers() {
 
                 hasTimers = true;
                 waitingTimerId = itTimeout->first;
-                waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
-                                                                                       std::chrono::steady_clock::now())
-                                     .count();
+
+                const auto currentTime = std::chrono::steady_clock::now();
+
+                // round up to make sure that timer doesn't expire before its time
+                if (itTimeout->second.elapseAfter > currentTime) {
+                    waitDurationMs = 1 + std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
+                                                                                               currentTime)
+                                             .count();
+                }
             }
         }
 
-- 
2.43.0


From 716826218ca89f17ce27c33cf13b035d3624d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 14/50] fix: dispatcher must not be destroyed by its own thread

---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |  4 +++
 src/HsmEventDispatcherSTD.cpp            | 38 +++++++++++++++++++++---
 src/HsmImpl.cpp                          |  2 ++
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index 80466d4..f633179 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -4,6 +4,7 @@
 #ifndef HSMCPP_HSMEVENTDISPATCHERSTD_HPP
 #define HSMCPP_HSMEVENTDISPATCHERSTD_HPP
 
+#include <atomic>
 #include <chrono>
 #include <map>
 #include <thread>
@@ -110,6 +111,9 @@ protected:
 private:
     std::thread mDispatcherThread;
     std::thread mTimersThread;
+    std::atomic<std::thread::id> mTimersThreadId;
+    bool mDeleteByDispatcherThread = false;  // accessed only by dispatcher thread
+    bool mDeleteByTimersThread = false;      // accessed only by timers thread
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
     ConditionVariable mTimerEvent;
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 39ce072..8cd50b9 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -37,8 +37,24 @@ std::shared_ptr<HsmEventDispatcherSTD> HsmEventDispatcherSTD::create(const size_
 }
 
 bool HsmEventDispatcherSTD::deleteSafe() {
-    // NOTE: just delete the instance. Calling destructor from any thread is safe
-    return true;
+    bool canDelete = true;
+    const std::thread::id currentThreadId = std::this_thread::get_id();
+
+    // NOTE: destructor waits for the threads to finish. If last reference to the dispatcher was released by one of them (for
+    //       example in a callback) then instance must be deleted by this thread right before it finishes.
+    if (currentThreadId == mTimersThreadId) {
+        mTimersThread.detach();
+        mDeleteByTimersThread = true;
+        canDelete = false;
+    } else if (currentThreadId == mDispatcherThread.get_id()) {
+        mDispatcherThread.detach();
+        mDeleteByDispatcherThread = true;
+        canDelete = false;
+    } else {
+        // NOTE: do nothing. calling destructor from any other thread is safe
+    }
+
+    return canDelete;
 }
 
 void HsmEventDispatcherSTD::emitEvent(const HandlerID_t handlerID) {
@@ -73,8 +89,12 @@ void HsmEventDispatcherSTD::stop() {
         HsmEventDispatcherBase::stop();
     }
 
-    // NOTE: mEmitSync must not be locked here because timer handlers emit events with locked mHandlersSync
-    unregisterAllEventHandlers();
+    // NOTE: mEmitSync must not be locked here because timer handlers emit events with locked mHandlersSync. For the same reason
+    //       handlers can't be unregistered if this is a call from a timer handler (they won't be called anyway)
+    if (std::this_thread::get_id() != mTimersThreadId) {
+        unregisterAllEventHandlers();
+    }
+
     notifyDispatcherAboutEvent();
     notifyTimersThread();
 }
@@ -165,6 +185,10 @@ void HsmEventDispatcherSTD::doDispatching() {
     }
 
     HSM_TRACE_DEBUG("EXIT");
+
+    if (true == mDeleteByDispatcherThread) {
+        delete this;
+    }
 }
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
@@ -203,6 +227,8 @@ bool HsmEventDispatcherSTD::handleTimerExpiration(const TimerID_t timerID, const
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
 
+    mTimersThreadId = std::this_thread::get_id();
+
     // NOTE: flag is checked and changed with locked mTimerEventSync
     const auto wasNotified = [&]() {
         const bool res = mNotifiedTimersThread;
@@ -270,6 +296,10 @@ void HsmEventDispatcherSTD::handleTimers() {
     }
 
     HSM_TRACE_DEBUG("EXIT");
+
+    if (true == mDeleteByTimersThread) {
+        delete this;
+    }
 }
 
 }  // namespace hsmcpp
diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index e7751c1..5a4418e 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -650,6 +650,8 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
             }
         }
 
+        // NOTE: dispatcher could be deleted as soon as release() returns
+        dispatcherPtr.reset();
         mIsDispatching.clear();
         mIsDispatching.notify();
     }
-- 
2.43.0


From a1288fcb8d555d6bd42fbbe6ee05036ec78c1e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 15/50] fix: do not handle events until startup callbacks are
 finished

---
 src/HsmImpl.cpp | 34 ++++++++++++++++++++++++++++------
 src/HsmImpl.hpp |  1 +
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 5a4418e..8df0aa5 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -611,7 +611,16 @@ void HierarchicalStateMachine::Impl::handleStartup() {
             }
         }
 
-        if (false == mPendingEvents.empty()) {
+        bool hasPendingEvents = false;
+
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            // startup callbacks are done. now it's possible to handle events
+            mIsStarted = true;
+            hasPendingEvents = (false == mPendingEvents.empty());
+        }
+
+        if (true == hasPendingEvents) {
             dispatcherPtr->emitEvent(mEventsHandlerId);
         }
     }
@@ -630,22 +639,35 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
         UniqueLock lk = mIsDispatching.lock();
 
         if (false == mStopDispatching) {
-            if (false == mPendingEvents.empty()) {
-                PendingEventInfo pendingEvent;
+            PendingEventInfo pendingEvent;
+            bool hasEvent = false;
 
-                {
-                    HSM_SYNC_EVENTS_QUEUE();
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+
+                // NOTE: events received during startup must wait until it's finished (see handleStartup())
+                if ((true == mIsStarted) && (false == mPendingEvents.empty())) {
                     pendingEvent = std::move(mPendingEvents.front());
                     mPendingEvents.pop_front();
+                    hasEvent = true;
                 }
+            }
 
+            if (true == hasEvent) {
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
                 HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
                 pendingEvent.unlock(transitiontStatus);
             }
 
-            if ((false == mStopDispatching) && (false == mPendingEvents.empty())) {
+            bool hasPendingEvents = false;
+
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+                hasPendingEvents = (true == mIsStarted) && (false == mPendingEvents.empty());
+            }
+
+            if ((false == mStopDispatching) && (true == hasPendingEvents)) {
                 dispatcherPtr->emitEvent(mEventsHandlerId);
             }
         }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 06a4053..7bbc123 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -199,6 +199,7 @@ private:
     HandlerID_t mEnqueuedEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mTimerHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     bool mStopDispatching = false;
+    bool mIsStarted = false;  // protected by mEventsSync
 
     HsmTransitionFailedCallback_t mFailedTransitionCallback;
 
-- 
2.43.0


From da351435600d51e5da95818b984ff8f49f3afc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 16/50] fix: release sync events which were not processed when
 HSM is released

---
 src/HsmImpl.cpp | 50 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 8df0aa5..6c2e89f 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -166,9 +166,13 @@ bool HierarchicalStateMachine::Impl::isInitialized() const {
 }
 
 void HierarchicalStateMachine::Impl::release() {
-    mStopDispatching = true;
     HSM_TRACE_CALL_DEBUG();
 
+    {
+        HSM_SYNC_EVENTS_QUEUE();
+        mStopDispatching = true;
+    }
+
     disableHsmDebugging();
 
     auto dispatcherPtr = mDispatcher.lock();
@@ -184,6 +188,17 @@ void HierarchicalStateMachine::Impl::release() {
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
     }
+
+    {
+        HSM_SYNC_EVENTS_QUEUE();
+
+        // no one is going to process these events anymore
+        for (PendingEventInfo& curEvent : mPendingEvents) {
+            curEvent.releaseLock();
+        }
+
+        mPendingEvents.clear();
+    }
 }
 
 void HierarchicalStateMachine::Impl::registerFailedTransitionCallback(HsmTransitionFailedCallback_t onFailedTransition) {
@@ -418,6 +433,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
         PendingEventInfo eventInfo;
+        bool isAccepted = false;
 
         eventInfo.id = event;
         eventInfo.args = std::make_shared<VariantVector_t>(std::move(args));
@@ -429,23 +445,29 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
         {
             HSM_SYNC_EVENTS_QUEUE();
 
-            if (true == clearQueue) {
-                clearPendingEvents();
-            }
+            // NOTE: HSM could be released after dispatcher was checked
+            if (false == mStopDispatching) {
+                if (true == clearQueue) {
+                    clearPendingEvents();
+                }
 
-            mPendingEvents.emplace_back(eventInfo);
+                mPendingEvents.emplace_back(eventInfo);
+                isAccepted = true;
+            }
         }
 
-        HSM_TRACE_DEBUG("transitionEx: emit");
-        dispatcherPtr->emitEvent(mEventsHandlerId);
+        if (true == isAccepted) {
+            HSM_TRACE_DEBUG("transitionEx: emit");
+            dispatcherPtr->emitEvent(mEventsHandlerId);
 
-        if (true == sync) {
-            HSM_TRACE_DEBUG("transitionEx: wait...");
-            eventInfo.wait(timeoutMs);
-            status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
-        } else {
-            // always return true for async transitions
-            status = true;
+            if (true == sync) {
+                HSM_TRACE_DEBUG("transitionEx: wait...");
+                eventInfo.wait(timeoutMs);
+                status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+            } else {
+                // always return true for async transitions
+                status = true;
+            }
         }
     } else {
         HSM_TRACE_ERROR("HSM is not initialized");
-- 
2.43.0


From 2b13a534d595c9532babc1fd03277167fba6e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 17/50] fix: unlock sync event only when all parts of its
 transition were processed

---
 src/HsmImpl.cpp | 14 ++++++++++++++
 src/HsmImpl.hpp |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 6c2e89f..9312fab 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -678,6 +678,11 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
             if (true == hasEvent) {
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
+                // NOTE: transition could consist of multiple parts (for example when restoring history)
+                if ((true == pendingEvent.isSync()) && (true == hasPendingParts(pendingEvent))) {
+                    transitiontStatus = HsmEventStatus::PENDING;
+                }
+
                 HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
                 pendingEvent.unlock(transitiontStatus);
             }
@@ -701,6 +706,15 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
     }
 }
 
+bool HierarchicalStateMachine::Impl::hasPendingParts(const PendingEventInfo& syncEvent) {
+    HSM_SYNC_EVENTS_QUEUE();
+
+    return std::any_of(mPendingEvents.begin(), mPendingEvents.end(), [&syncEvent](const PendingEventInfo& item) {
+        // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+        return (syncEvent.cvLock == item.cvLock);
+    });
+}
+
 void HierarchicalStateMachine::Impl::dispatchTimerEvent(const TimerID_t id) {
     HSM_TRACE_CALL_DEBUG_ARGS("id=%d", SC2INT(id));
     auto it = mTimers.find(id);
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 7bbc123..f532fdc 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -113,6 +113,8 @@ private:
                           const bool expectedConditionValue = true);
 
     void dispatchEvents();
+    // checks if there are other parts of the same synchronous transition waiting in the queue
+    bool hasPendingParts(const PendingEventInfo& syncEvent);
     void dispatchTimerEvent(const TimerID_t id);
 
     bool onStateExiting(const StateID_t state);
-- 
2.43.0


From 23aa36cd41a357540e310e85e06d6320e15475f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 18/50] fix: enter parent states before their children when
 transition is canceled

---
 src/HsmImpl.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 9312fab..4faf520 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1240,11 +1240,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        for (const StateID_t& curState : exitedStates) {
+        // states were exited starting from the most nested one. parents must be entered before their children
+        for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {
             // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(curState, VariantVector_t());
-            (void)addActiveState(curState);
-            onStateChanged(curState, VariantVector_t());
+            (void)onStateEntering(*itState, VariantVector_t());
+            (void)addActiveState(*itState);
+            onStateChanged(*itState, VariantVector_t());
         }
     }
 
@@ -1383,12 +1384,13 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
             }
             // if one of the states blocked ongoing transition we need to rollback
             else {
-                for (const auto& curState : outExitedStates) {
-                    mActiveStates.remove(curState);
+                // states were exited starting from the most nested one. parents must be entered before their children
+                for (auto itState = outExitedStates.rbegin(); itState != outExitedStates.rend(); ++itState) {
+                    mActiveStates.remove(*itState);
                     // to prevent infinite loops we don't allow state to cancel transition
-                    (void)onStateEntering(curState, VariantVector_t());
-                    mActiveStates.emplace_back(curState);
-                    onStateChanged(curState, VariantVector_t());
+                    (void)onStateEntering(*itState, VariantVector_t());
+                    mActiveStates.emplace_back(*itState);
+                    onStateChanged(*itState, VariantVector_t());
                 }
             }
         }
-- 
2.43.0


From 724709cd8398a3715a6ad960b35daa276df1072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 19/50] fix: result of an accepted parallel transition must not
 be replaced by a failed one

---
 src/HsmImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4faf520..89bf6ed 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1596,7 +1596,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
                 // everything except internal self-transitions
                 if ((curTransition.fromState != curTransition.destinationState) ||
                     (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) {
-                    res = processExternalTransition(event, fromState, curTransition, exitedStates);
+                    const HsmEventStatus curStatus = processExternalTransition(event, fromState, curTransition, exitedStates);
+
+                    // event was processed if at least one of the parallel transitions was accepted
+                    if ((HsmEventStatus::PENDING == curStatus) || (HsmEventStatus::DONE_FAILED == res)) {
+                        res = curStatus;
+                    }
                 }
             }
         } else {
-- 
2.43.0


From 5ba637eb9a3f373918dac98b742b8ddd9e358d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 20/50] fix: execute history transitions only once

---
 src/HsmImpl.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 89bf6ed..fa94083 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1109,13 +1109,20 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
     HSM_TRACE_CALL_DEBUG_ARGS("event=<%s>, transitionType=%d", getEventName(event.id).c_str(), SC2INT(event.transitionType));
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
     auto activeStatesSnapshot = mActiveStates;
+    // list of states which should process this event
+    auto eventStates = mActiveStates;
     std::list<StateID_t> acceptedStates;  // list of states that accepted transitions
     bool hasFailedTransitions = false;
 
-    for (auto it = activeStatesSnapshot.rbegin(); it != activeStatesSnapshot.rend(); ++it) {
+    // history transitions are executed only once no matter how many states are active
+    if (TransitionBehavior::FORCED == event.transitionType) {
+        eventStates = {event.forcedTransitionsInfo->front().fromState};
+    }
+
+    for (auto it = eventStates.rbegin(); it != eventStates.rend(); ++it) {
         // in case of parallel transitions some states might become inactive after handleSingleTransition()
         // example: [*B, *C] -> D
-        if (true == isStateActive(*it)) {
+        if ((TransitionBehavior::FORCED == event.transitionType) || (true == isStateActive(*it))) {
             // we don't need to process transitions for active states if their child already processed it
             bool childStateProcessed = false;
 
-- 
2.43.0


From 7487941e3c3b40b96de81c3c06dcc0ba34d94b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 21/50] fix: restore history states with and without entry
 points separately

---
 src/HsmImpl.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index fa94083..7eb2734 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1432,7 +1432,6 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
 void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
-    StateID_t prevChildState = INVALID_HSM_STATE_ID;
     PendingEventInfo historyTransitionEvent = event;
 
     historyTransitionEvent.transitionType = TransitionBehavior::FORCED;
@@ -1441,19 +1440,24 @@ void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<
     {
         HSM_SYNC_EVENTS_QUEUE();
 
-        for (const StateID_t prevState : previousActiveStates) {
-            if ((INVALID_HSM_STATE_ID != prevChildState) && (true == isSubstateOf(prevState, prevChildState))) {
-                if (false == historyTransitionEvent.forcedTransitionsInfo->empty()) {
-                    mPendingEvents.push_front(historyTransitionEvent);
-                }
-
+        for (auto itState = previousActiveStates.begin(); itState != previousActiveStates.end(); ++itState) {
+            const StateID_t prevState = *itState;
+            // children are always stored before their parents
+            const auto isChild = [&](const StateID_t state) { return isSubstateOf(prevState, state); };
+            const bool hasRestoredChildren = std::any_of(previousActiveStates.begin(), itState, isChild);
+            const auto& curTransitions = *historyTransitionEvent.forcedTransitionsInfo;
+
+            // parents must be entered before their children. entry points are used only by states without restored children
+            if ((false == curTransitions.empty()) &&
+                ((historyTransitionEvent.ignoreEntryPoints != hasRestoredChildren) ||
+                 std::any_of(curTransitions.begin(), curTransitions.end(), [&](const TransitionInfo& item) {
+                     return isChild(item.destinationState);
+                 }))) {
+                mPendingEvents.push_front(historyTransitionEvent);
                 historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
-                historyTransitionEvent.ignoreEntryPoints = true;
-            } else {
-                historyTransitionEvent.ignoreEntryPoints = false;
             }
 
-            prevChildState = prevState;
+            historyTransitionEvent.ignoreEntryPoints = hasRestoredChildren;
             historyTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,
                                                                        prevState,
                                                                        TransitionType::EXTERNAL_TRANSITION,
-- 
2.43.0


From 056a69a0dd2d99918dc7155bf55d91cb66f142a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 22/50] fix: write names of states and events to debug log when
 traces are disabled

---
 src/HsmImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 7eb2734..a4e1973 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1884,7 +1884,9 @@ void HierarchicalStateMachine::Impl::dumpActiveStates() {
 
     HSM_TRACE_DEBUG("active states: <%s>", temp.c_str());
 }
+#endif  // HSM_DISABLE_DEBUG_TRACES
 
+#if !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     std::string res;
   #ifndef HSM_DISABLE_THREADSAFETY
@@ -1910,7 +1912,7 @@ std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event)
 
     return res;
 }
-#else   // HSM_DISABLE_DEBUG_TRACES
+#else   // !HSM_DISABLE_DEBUG_TRACES || HSMBUILD_DEBUGGING
 
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     return std::string();
@@ -1919,6 +1921,6 @@ std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state)
 std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event) {
     return std::string();
 }
-#endif  // HSM_DISABLE_DEBUG_TRACES
+#endif  // !HSM_DISABLE_DEBUG_TRACES || HSMBUILD_DEBUGGING
 
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From e9a1ba89dd4974b86fc619b4ba282351185bbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 23/50] fix: protect debug log when it's enabled or disabled by
 another thread

---
 src/HsmImpl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index a4e1973..cccf353 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -73,6 +73,14 @@ constexpr const char* HSM_TRACE_CLASS = "HierarchicalStateMachine";
 
 namespace hsmcpp {
 
+#ifdef HSMBUILD_DEBUGGING
+// log file could be shared between multiple instances of HSM
+static Mutex& getLogMutex() {
+    static Mutex logMutex;
+    return logMutex;
+}
+#endif  // HSMBUILD_DEBUGGING
+
 // ============================================================================
 // PUBLIC
 // ============================================================================
@@ -1754,6 +1762,7 @@ bool HierarchicalStateMachine::Impl::enableHsmDebugging() {
 bool HierarchicalStateMachine::Impl::enableHsmDebugging(const std::string& dumpPath) {
 #ifdef HSMBUILD_DEBUGGING
     bool res = false;
+    CriticalSection logSync(getLogMutex());
     bool isNewLog = (access(dumpPath.c_str(), F_OK) != 0);
 
     if (nullptr != mHsmLogFile.open(dumpPath.c_str(), std::ios::out | std::ios::app)) {
@@ -1775,6 +1784,7 @@ bool HierarchicalStateMachine::Impl::enableHsmDebugging(const std::string& dumpP
 
 void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 #ifdef HSMBUILD_DEBUGGING
+    CriticalSection logSync(getLogMutex());
     mHsmLogFile.close();
 #endif
 }
@@ -1786,10 +1796,9 @@ void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                                                   const bool hasFailed,
                                                   const VariantVector_t& args) {
 #ifdef HSMBUILD_DEBUGGING
-    if (true == mHsmLogFile.is_open()) {
-        static Mutex logMutex;
-        CriticalSection logSync(logMutex);
+    CriticalSection logSync(getLogMutex());
 
+    if (true == mHsmLogFile.is_open()) {
         static const std::map<HsmLogAction, std::string> actionsMap = {
             std::make_pair(HsmLogAction::IDLE, "idle"),
             std::make_pair(HsmLogAction::TRANSITION, "transition"),
-- 
2.43.0


From 4f2f3a224b1f1eeebb69659716d7ab2fa427185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 24/50] fix: Arduino dispatcher keeps repeating timers armed

handleTimerEvent() returns the timer's interval, but its result was compared
with 'true', so any repeating timer with an interval other than 1 ms was
dropped after its first expiry.
---
 src/HsmEventDispatcherArduino.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 513ce13..2b11aa4 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -105,7 +105,7 @@ void HsmEventDispatcherArduino::handleTimers() {
 
         while (it != mRunningTimers.end()) {
             if (curTime >= it->second.elapseAfter) {
-                if (true == handleTimerEvent(it->first)) {
+                if (handleTimerEvent(it->first) > 0u) {
                     // fast way to check timer interval without searching the map
                     it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
                     it->second.startedAt = millis();
-- 
2.43.0


From 9fcaefc576f793b3ae9b33a8538882874237c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 25/50] fix: Arduino timers survive the overflow of millis()

Absolute timestamps were compared, so around the overflow of the millisecond
counter (every 49.7 days) timers expired at once or not at all.
---
 src/HsmEventDispatcherArduino.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 2b11aa4..12d1fdb 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -100,11 +100,11 @@ void HsmEventDispatcherArduino::stopTimerImpl(const TimerID_t timerID) {
 
 void HsmEventDispatcherArduino::handleTimers() {
     if (false == mRunningTimers.empty()) {
-        unsigned long curTime = millis();
         auto it = mRunningTimers.begin();
 
         while (it != mRunningTimers.end()) {
-            if (curTime >= it->second.elapseAfter) {
+            // NOTE: only differences between timestamps can be compared because millis() overflows
+            if ((millis() - it->second.startedAt) >= (it->second.elapseAfter - it->second.startedAt)) {
                 if (handleTimerEvent(it->first) > 0u) {
                     // fast way to check timer interval without searching the map
                     it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
-- 
2.43.0


From f32669cbec5b3d60b759f2cbbbab753fee4dd235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 26/50] fix: GLib dispatcher is deleted by its own context

deleteSafe() used g_idle_add(), which attaches to the default context: with a
custom context the dispatcher was deleted by a foreign thread or never.
---
 src/HsmEventDispatcherGLib.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 52443cd..75c5528 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -40,7 +40,10 @@ std::shared_ptr<HsmEventDispatcherGLib> HsmEventDispatcherGLib::create(GMainCont
 }
 
 bool HsmEventDispatcherGLib::deleteSafe() {
-    g_idle_add(
+    GSource* idleSource = g_idle_source_new();
+
+    g_source_set_callback(
+        idleSource,
         // cppcheck-suppress misra-c2012-13.1 ; false-positive. this is a functor, not initializer list
         [](void* data) {
             if (nullptr != data) {
@@ -54,7 +57,10 @@ bool HsmEventDispatcherGLib::deleteSafe() {
             // cppcheck-suppress misra-c2012-15.5
             return G_SOURCE_REMOVE;
         },
-        this);
+        this,
+        nullptr);
+    g_source_attach(idleSource, mContext);
+    g_source_unref(idleSource);
 
     return false;
 }
-- 
2.43.0


From dcf170bc9acea0d2642021c7cf44f6fec3c9aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 27/50] fix: GLib dispatcher blocks interrupts while it uses
 its pipe

Interrupt handler which enqueues an event deadlocked if it hit a thread which
was already holding mPipeSync. Also prevents writing to a closed file descriptor
if dispatcher is stopped while another thread emits an event.
---
 include/hsmcpp/HsmEventDispatcherGLib.hpp |  4 ++--
 src/HsmEventDispatcherGLib.cpp            | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLib.hpp b/include/hsmcpp/HsmEventDispatcherGLib.hpp
index ab6d441..267a412 100644
--- a/include/hsmcpp/HsmEventDispatcherGLib.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLib.hpp
@@ -109,8 +109,8 @@ private:
     GMainContext* mContext = nullptr;
     GIOChannel* mReadChannel = nullptr;
     GSource* mIoSource = nullptr;
-    std::mutex mPipeSync;
-    int mPipeFD[2] = {-1, -1};
+    Mutex mPipeSync;
+    int mPipeFD[2] = {-1, -1};  // protected by mPipeSync
     bool mDispatchingIterationRunning = false;
     std::mutex mDispatchingSync;
     std::condition_variable mDispatchingDoneEvent;
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 75c5528..b866792 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -127,6 +127,9 @@ void HsmEventDispatcherGLib::stop() {
     if (nullptr != mReadChannel) {
         g_io_channel_unref(mReadChannel);
         mReadChannel = nullptr;
+
+        CriticalSection lckPipe(mPipeSync);
+
         close(mPipeFD[0]);
         close(mPipeFD[1]);
         mPipeFD[0] = -1;
@@ -216,12 +219,17 @@ void HsmEventDispatcherGLib::onFreeTimerData(void* timerData) {
 }
 
 void HsmEventDispatcherGLib::notifyDispatcherAboutEvent() {
-    std::lock_guard<std::mutex> lck(mPipeSync);
-    char dummy = 1;
+    // NOTE: could be called from an interrupt (see enqueueEvent())
+    CriticalSection lck(mPipeSync);
 
-    // we just need to trigger the callback. there is no need to pass any real data there
-    // TODO: should we check for result?
-    write(mPipeFD[1], &dummy, sizeof(dummy));
+    // dispatcher could have been stopped by another thread
+    if (mPipeFD[1] >= 0) {
+        char dummy = 1;
+
+        // we just need to trigger the callback. there is no need to pass any real data there
+        // TODO: should we check for result?
+        write(mPipeFD[1], &dummy, sizeof(dummy));
+    }
 }
 
 gboolean HsmEventDispatcherGLib::onPipeDataAvailable(GIOChannel* gio, GIOCondition condition, gpointer data) {
-- 
2.43.0


From 6e032a4289bb4ffb9b99255ad67edd59708b4233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 28/50] fix: GLib dispatcher never blocks when its pipe is full

A callback which emits more events than fit into the pipe blocked the thread
which has to read them.
---
 src/HsmEventDispatcherGLib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index b866792..ef12a91 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/HsmEventDispatcherGLib.hpp"
 
+#include <fcntl.h>
 #include <unistd.h>
 
 #include "hsmcpp/logging.hpp"
@@ -74,6 +75,9 @@ bool HsmEventDispatcherGLib::start() {
         int rc = pipe(mPipeFD);
 
         if (0 == rc) {
+            // NOTE: emitting events must never block. bytes which don't fit into the pipe are not needed to wake up dispatcher
+            (void)fcntl(mPipeFD[1], F_SETFL, O_NONBLOCK);
+
             mReadChannel = g_io_channel_unix_new(mPipeFD[0]);
 
             if (nullptr != mReadChannel) {
-- 
2.43.0


From bf5a6b7eee6e3e0f352e32e9175e0590c4a5558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 29/50] fix: GLib dispatcher executes actions enqueued before
 it was started

---
 src/HsmEventDispatcherGLib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index ef12a91..a1c2071 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -87,6 +87,9 @@ bool HsmEventDispatcherGLib::start() {
                     g_source_set_callback(mIoSource, reinterpret_cast<GSourceFunc>(onPipeDataAvailable), this, nullptr);
                     g_source_attach(mIoSource, mContext);
                     result = true;
+
+                    // execute actions which were enqueued before dispatcher was started
+                    notifyDispatcherAboutEvent();
                 } else {
                     HSM_TRACE_ERROR("failed to create io source");
                 }
-- 
2.43.0


From d0b00d567f561ee741334ab8c4df360ab4663101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 30/50] fix: GLib timers which were stopped or restarted don't
 expire

A source which was already being dispatched while another thread stopped or
restarted its timer fired the new timer early and made it disappear.
---
 include/hsmcpp/HsmEventDispatcherGLib.hpp |  4 ++++
 src/HsmEventDispatcherGLib.cpp            | 27 ++++++++++++-----------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLib.hpp b/include/hsmcpp/HsmEventDispatcherGLib.hpp
index 267a412..d09b6d9 100644
--- a/include/hsmcpp/HsmEventDispatcherGLib.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLib.hpp
@@ -98,6 +98,10 @@ private:
      * @threadsafe{ }
      */
     void stopTimerImpl(const TimerID_t timerID) override;
+    /**
+     * See HsmEventDispatcherBase::handleTimerExpiration()
+     */
+    bool handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
 
     static gboolean onTimerEvent(const TimerData_t* timerData);
     static void onFreeTimerData(void* timerData);
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index a1c2071..8bef18a 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -198,24 +198,25 @@ void HsmEventDispatcherGLib::stopTimerImpl(const TimerID_t timerID) {
     }
 }
 
+bool HsmEventDispatcherGLib::handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    CriticalSection lckExpired(mRunningTimersSync);
+    auto it = mNativeTimerHandlers.find(timerID);
+    // NOTE: timer could have been stopped or restarted by another thread after its source became ready
+    const bool isValid = ((mNativeTimerHandlers.end() != it) && (g_main_current_source() == it->second));
+
+    if ((true == isValid) && (0u == nextIntervalMs)) {
+        g_source_unref(it->second);
+        mNativeTimerHandlers.erase(it);
+    }
+
+    return isValid;
+}
+
 gboolean HsmEventDispatcherGLib::onTimerEvent(const TimerData_t* timerData) {
     bool restartTimer = false;
 
     if (nullptr != timerData) {
         restartTimer = (timerData->first->handleTimerEvent(timerData->second) > 0);
-
-        if (false == restartTimer) {
-            CriticalSection lckExpired(timerData->first->mRunningTimersSync);
-            auto itTimer = timerData->first->mNativeTimerHandlers.find(timerData->second);
-
-            if (timerData->first->mNativeTimerHandlers.end() != itTimer) {
-                g_source_unref(itTimer->second);
-                timerData->first->mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_DEF();
-                HSM_TRACE_ERROR("unexpected error. timer not found");
-            }
-        }
     }
 
     return restartTimer;
-- 
2.43.0


From c7961a8508012541d61e58f75f67934ca9b930c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 31/50] fix: GLib timers don't run after dispatcher was stopped

---
 src/HsmEventDispatcherGLib.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 8bef18a..e140399 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -171,7 +171,9 @@ void HsmEventDispatcherGLib::startTimerImpl(const TimerID_t timerID, const unsig
     CriticalSection lckExpired(mRunningTimersSync);
     auto it = mNativeTimerHandlers.find(timerID);
 
-    if (mNativeTimerHandlers.end() == it) {
+    if (true == mStopDispatcher) {
+        HSM_TRACE_DEBUG("dispatcher is stopped. ignoring timer with id=%d", SC2INT(timerID));
+    } else if (mNativeTimerHandlers.end() == it) {
         GSource* timeoutSource = g_timeout_source_new(intervalMs);
 
         g_source_set_callback(timeoutSource,
-- 
2.43.0


From e615cc2d1027947cc71f5db7f96633b1a18c229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 32/50] fix: GLibmm timers can be controlled by any thread

sigc::connection is not thread-safe, so starting and stopping timers outside of
the main loop's thread corrupted memory. Timers which were stopped or restarted
while their source was being dispatched expired anyway, and timers started after
stop() kept running.
---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp | 14 ++++-
 src/HsmEventDispatcherGLibmm.cpp            | 57 ++++++++++++++-------
 2 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index 3070855..acb8d8b 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -6,6 +6,7 @@
 
 #include <glibmm.h>
 
+#include <map>
 #include <memory>
 
 #include "HsmEventDispatcherBase.hpp"
@@ -28,6 +29,9 @@ namespace hsmcpp {
  * See @rstref{platforms-dispatcher-glibmm} for details.
  */
 class HsmEventDispatcherGLibmm : public HsmEventDispatcherBase {
+private:
+    using TimerData_t = std::pair<HsmEventDispatcherGLibmm*, TimerID_t>;
+
 public:
     /**
      * @brief Create dispatcher instance.
@@ -105,14 +109,20 @@ protected:
      */
     void stopTimerImpl(const TimerID_t timerID) override;
 
+    /**
+     * See HsmEventDispatcherBase::handleTimerExpiration()
+     */
+    bool handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
+
     void notifyDispatcherAboutEvent() override;
-    bool onTimerEvent(const TimerID_t timerID);
+    static gboolean onTimerEvent(const TimerData_t* timerData);
+    static void onFreeTimerData(void* timerData);
 
 private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
     std::unique_ptr<Glib::Dispatcher> mDispatcher;
     sigc::connection mDispatcherConnection;
-    std::map<TimerID_t, sigc::connection> mNativeTimerHandlers; // protected by mRunningTimersSync
+    std::map<TimerID_t, GSource*> mNativeTimerHandlers; // protected by mRunningTimersSync
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 0c1081e..693cab0 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -111,7 +111,8 @@ void HsmEventDispatcherGLibmm::unregisterAllTimerHandlers() {
     CriticalSection cs(mRunningTimersSync);
 
     for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-        it->second.disconnect();
+        g_source_destroy(it->second);
+        g_source_unref(it->second);
     }
 
     mNativeTimerHandlers.clear();
@@ -125,10 +126,19 @@ void HsmEventDispatcherGLibmm::startTimerImpl(const TimerID_t timerID, const uns
     CriticalSection cs(mRunningTimersSync);
     auto it = mNativeTimerHandlers.find(timerID);
 
-    if (mNativeTimerHandlers.end() == it) {
-        mNativeTimerHandlers[timerID] = mMainContext->signal_timeout().connect(
-            sigc::bind(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onTimerEvent), timerID),
-            intervalMs);
+    if (true == mStopDispatcher) {
+        HSM_TRACE_DEBUG("dispatcher is stopped. ignoring timer with id=%d", SC2INT(timerID));
+    } else if (mNativeTimerHandlers.end() == it) {
+        // NOTE: Glib::SignalTimeout can't be used here because sigc::connection is not thread-safe
+        GSource* timeoutSource = g_timeout_source_new(intervalMs);
+
+        g_source_set_callback(timeoutSource,
+                              G_SOURCE_FUNC(&HsmEventDispatcherGLibmm::onTimerEvent),
+                              new TimerData_t(this, timerID),
+                              &HsmEventDispatcherGLibmm::onFreeTimerData);
+
+        g_source_attach(timeoutSource, mMainContext->gobj());
+        mNativeTimerHandlers[timerID] = timeoutSource;
     } else {
         HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
     }
@@ -140,7 +150,8 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() != it) {
-        it->second.disconnect();
+        g_source_destroy(it->second);
+        g_source_unref(it->second);
         mNativeTimerHandlers.erase(it);
     }
 }
@@ -149,22 +160,32 @@ void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
     mDispatcher->emit();
 }
 
-bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
-    HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-    const bool restartTimer = (handleTimerEvent(timerID) > 0);
+bool HsmEventDispatcherGLibmm::handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    CriticalSection cs(mRunningTimersSync);
+    auto it = mNativeTimerHandlers.find(timerID);
+    // NOTE: timer could have been stopped or restarted by another thread after its source became ready
+    const bool isValid = ((mNativeTimerHandlers.end() != it) && (g_main_current_source() == it->second));
+
+    if ((true == isValid) && (0u == nextIntervalMs)) {
+        g_source_unref(it->second);
+        mNativeTimerHandlers.erase(it);
+    }
 
-    if (false == restartTimer) {
-        CriticalSection cs(mRunningTimersSync);
-        auto itTimer = mNativeTimerHandlers.find(timerID);
+    return isValid;
+}
 
-        if (mNativeTimerHandlers.end() != itTimer) {
-            mNativeTimerHandlers.erase(itTimer);
-        } else {
-            HSM_TRACE_ERROR("unexpected error. timer not found");
-        }
+gboolean HsmEventDispatcherGLibmm::onTimerEvent(const TimerData_t* timerData) {
+    bool restartTimer = false;
+
+    if (nullptr != timerData) {
+        restartTimer = (timerData->first->handleTimerEvent(timerData->second) > 0);
     }
 
     return restartTimer;
 }
 
-}  // namespace hsmcpp
\ No newline at end of file
+void HsmEventDispatcherGLibmm::onFreeTimerData(void* timerData) {
+    delete reinterpret_cast<TimerData_t*>(timerData);
+}
+
+}  // namespace hsmcpp
-- 
2.43.0


From c95aa13e4f2ac760bc11f25b5b54900f56fc4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 33/50] fix: GLibmm dispatcher can be released by any thread

Connecting to Glib::SignalIdle isn't thread-safe.
---
 src/HsmEventDispatcherGLibmm.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 693cab0..843fa36 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -45,16 +45,26 @@ bool HsmEventDispatcherGLibmm::deleteSafe() {
     bool deleteNow = false;
 
     if (mMainContext) {
-        mMainContext->signal_idle().connect(sigc::bind(
-            [](HsmEventDispatcherGLibmm* pThis) {
-                if (nullptr != pThis) {
-                    pThis->stop();
-                    delete pThis;
-                }
+        // NOTE: Glib::SignalIdle::connect() can't be used here because last reference could be released by any thread
+        GSource* idleSource = g_idle_source_new();
+
+        g_source_set_callback(
+            idleSource,
+            // cppcheck-suppress misra-c2012-13.1 ; false-positive. this is a functor, not initializer list
+            [](void* data) {
+                HsmEventDispatcherGLibmm* pThis = reinterpret_cast<HsmEventDispatcherGLibmm*>(data);
+
+                pThis->stop();
+                delete pThis;
 
-                return false;  // unregister idle signal
+                // NOTE: false-positive. "return" statement belongs to lambda function, not parent function
+                // cppcheck-suppress misra-c2012-15.5
+                return G_SOURCE_REMOVE;
             },
-            this));
+            this,
+            nullptr);
+        g_source_attach(idleSource, mMainContext->gobj());
+        g_source_unref(idleSource);
     } else {
         deleteNow = true;
     }
-- 
2.43.0


From f074ee72634b3fcad4d0a46d5dbeb14c03e534a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 34/50] fix: GLibmm events can be emitted while dispatcher is
 being stopped

Glib::Dispatcher was used by other threads after it was destroyed. Also prevents
deadlock when Glib's notifications pipe is full, and executes actions which were
enqueued before dispatcher was started.
---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp |  5 +-
 src/HsmEventDispatcherGLibmm.cpp            | 60 ++++++++++++++++-----
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index acb8d8b..532adc8 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -115,12 +115,15 @@ protected:
     bool handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
 
     void notifyDispatcherAboutEvent() override;
+    void onNotification();
     static gboolean onTimerEvent(const TimerData_t* timerData);
     static void onFreeTimerData(void* timerData);
 
 private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
-    std::unique_ptr<Glib::Dispatcher> mDispatcher;
+    Mutex mDispatcherSync;
+    std::unique_ptr<Glib::Dispatcher> mDispatcher;  // protected by mDispatcherSync
+    bool mNotificationSent = false;                 // protected by mDispatcherSync
     sigc::connection mDispatcherConnection;
     std::map<TimerID_t, GSource*> mNativeTimerHandlers; // protected by mRunningTimersSync
 };
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 843fa36..450b1d3 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -75,7 +75,15 @@ bool HsmEventDispatcherGLibmm::deleteSafe() {
 void HsmEventDispatcherGLibmm::emitEvent(const HandlerID_t handlerID) {
     HSM_TRACE_CALL_DEBUG();
 
-    if (mDispatcherConnection.connected() == true) {
+    bool isStarted = false;
+
+    {
+        CriticalSection cs(mDispatcherSync);
+
+        isStarted = (nullptr != mDispatcher);
+    }
+
+    if (true == isStarted) {
         HsmEventDispatcherBase::emitEvent(handlerID);
     }
 }
@@ -85,19 +93,22 @@ bool HsmEventDispatcherGLibmm::start() {
 
     if (mMainContext) {
         if (!mDispatcher) {
-            mDispatcher.reset(new Glib::Dispatcher(mMainContext));
+            std::unique_ptr<Glib::Dispatcher> dispatcher(new Glib::Dispatcher(mMainContext));
+
+            mDispatcherConnection = dispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onNotification));
 
-            if (mDispatcher) {
-                if (mDispatcherConnection.connected() == false) {
-                    mDispatcherConnection =
-                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::dispatchPendingEvents));
-                }
+            {
+                CriticalSection cs(mDispatcherSync);
 
-                result = true;
+                mDispatcher = std::move(dispatcher);
+                mNotificationSent = false;
             }
-        } else {
-            result = true;
+
+            // execute actions which were enqueued before dispatcher was started
+            notifyDispatcherAboutEvent();
         }
+
+        result = true;
     }
 
     return result;
@@ -114,7 +125,15 @@ void HsmEventDispatcherGLibmm::stop() {
 
     unregisterAllTimerHandlers();
     unregisterAllEventHandlers();
-    mDispatcher.reset();
+
+    std::unique_ptr<Glib::Dispatcher> dispatcher;
+
+    {
+        // NOTE: events can be emitted by other threads at any time
+        CriticalSection cs(mDispatcherSync);
+
+        dispatcher = std::move(mDispatcher);
+    }
 }
 
 void HsmEventDispatcherGLibmm::unregisterAllTimerHandlers() {
@@ -167,7 +186,24 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
-    mDispatcher->emit();
+    // NOTE: could be called from an interrupt (see enqueueEvent())
+    CriticalSection cs(mDispatcherSync);
+
+    // NOTE: only one notification is needed to dispatch everything. sending more could block when Glib's pipe is full
+    if (mDispatcher && (false == mNotificationSent)) {
+        mNotificationSent = true;
+        mDispatcher->emit();
+    }
+}
+
+void HsmEventDispatcherGLibmm::onNotification() {
+    {
+        CriticalSection cs(mDispatcherSync);
+
+        mNotificationSent = false;
+    }
+
+    dispatchPendingEvents();
 }
 
 bool HsmEventDispatcherGLibmm::handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) {
-- 
2.43.0


From b511cc7d797dfa259685e76218af3b4e3a0cbf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 35/50] fix: Qt timers can be controlled by any thread

Timers started outside of application's thread could not be stopped or restarted
until they were created by the application's thread, and the map of timers was
accessed without synchronization. Expired timers which were stopped or restarted
before their handler was called fired anyway. Coarse timers fired too early and
timers started after stop() kept running.
---
 include/hsmcpp/HsmEventDispatcherQt.hpp |  21 ++++-
 src/HsmEventDispatcherQt.cpp            | 110 +++++++++++++++---------
 2 files changed, 88 insertions(+), 43 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherQt.hpp b/include/hsmcpp/HsmEventDispatcherQt.hpp
index d2bebef..4d72e64 100644
--- a/include/hsmcpp/HsmEventDispatcherQt.hpp
+++ b/include/hsmcpp/HsmEventDispatcherQt.hpp
@@ -21,6 +21,12 @@ class HsmEventDispatcherQt: public QObject
 {
     Q_OBJECT
 
+private:
+    struct NativeTimerInfo {
+        unsigned int id = 0;      // changes every time when timer is started
+        QTimer* timer = nullptr;  // created later if timer is started by another thread
+    };
+
 public:
     /**
      * @brief Create dispatcher instance.
@@ -56,6 +62,17 @@ protected:
 
     void startTimerImpl(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot) override;
     void stopTimerImpl(const TimerID_t timerID) override;
+    /**
+     * See HsmEventDispatcherBase::handleTimerExpiration()
+     */
+    bool handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
+
+private:
+    void createNativeTimer(const TimerID_t timerID,
+                           const unsigned int nativeTimerID,
+                           const unsigned int intervalMs,
+                           const bool isSingleShot);
+    static void deleteNativeTimer(const NativeTimerInfo& timer);
 
 private slots:
     void onTimerEvent();
@@ -81,7 +98,9 @@ protected:
 
 private:
     static QEvent::Type mQtDispatchEventType;
-    std::map<TimerID_t, QTimer*> mNativeTimerHandlers; // protected by mRunningTimersSync
+    std::map<TimerID_t, NativeTimerInfo> mNativeTimerHandlers; // protected by mRunningTimersSync
+    unsigned int mLastNativeTimerID = 0;                       // protected by mRunningTimersSync
+    unsigned int mExpiredNativeTimerID = 0;                    // accessed only by dispatcher's thread
 };
 
 } // namespace hsmcpp
diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 4b79444..7f065c7 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -84,7 +84,7 @@ void HsmEventDispatcherQt::unregisterAllTimerHandlers() {
     CriticalSection cs(mRunningTimersSync);
 
     for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-        it->second->deleteLater();
+        deleteNativeTimer(it->second);
     }
 
     mNativeTimerHandlers.clear();
@@ -95,40 +95,36 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
-    auto it = mNativeTimerHandlers.find(timerID);
+    unsigned int nativeTimerID = 0;
 
-    if (mNativeTimerHandlers.end() == it) {
-        auto funcCreateTimer = [=]() {
-            QTimer* newTimer = new QTimer(this);
+    {
+        CriticalSection cs(mRunningTimersSync);
 
-            newTimer->setProperty("hsmid", QVariant(timerID));
-            connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
-            newTimer->setSingleShot(isSingleShot);
-            newTimer->start(intervalMs);
+        if (true == mStopDispatcher) {
+            HSM_TRACE_DEBUG("dispatcher is stopped. ignoring timer with id=%d", SC2INT(timerID));
+        } else if (mNativeTimerHandlers.end() == mNativeTimerHandlers.find(timerID)) {
+            NativeTimerInfo newTimer;
 
-            CriticalSection cs(mRunningTimersSync);
+            ++mLastNativeTimerID;
+            newTimer.id = mLastNativeTimerID;
             mNativeTimerHandlers[timerID] = newTimer;
-        };
-
-        // NOTE: need to make sure that QTimer is started only from Qt main thread
-        QThread* callerThread = QThread::currentThread();
-
-        if (qApp->thread() != callerThread) {
-            QTimer* mainthreadTimer = new QTimer();
-
-            mainthreadTimer->moveToThread(qApp->thread());
-            mainthreadTimer->setSingleShot(true);
+            nativeTimerID = newTimer.id;
+        } else {
+            HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
+        }
+    }
 
-            QObject::connect(mainthreadTimer, &QTimer::timeout, [=]() {
-                funcCreateTimer();
-                mainthreadTimer->deleteLater();
-            });
-            QMetaObject::invokeMethod(mainthreadTimer, "start", Qt::QueuedConnection, Q_ARG(int, 0));
+    if (nativeTimerID > 0u) {
+        // NOTE: need to make sure that QTimer is created only by dispatcher's thread
+        if (QObject::thread() == QThread::currentThread()) {
+            createNativeTimer(timerID, nativeTimerID, intervalMs, isSingleShot);
         } else {
-            funcCreateTimer();
+            // NOTE: call is discarded by Qt if dispatcher gets deleted
+            QMetaObject::invokeMethod(
+                this,
+                [=]() { createNativeTimer(timerID, nativeTimerID, intervalMs, isSingleShot); },
+                Qt::QueuedConnection);
         }
-    } else {
-        HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
     }
 }
 
@@ -138,9 +134,50 @@ void HsmEventDispatcherQt::stopTimerImpl(const TimerID_t timerID) {
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() != it) {
-        it->second->deleteLater();
+        deleteNativeTimer(it->second);
+        mNativeTimerHandlers.erase(it);
+    }
+}
+
+bool HsmEventDispatcherQt::handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    CriticalSection cs(mRunningTimersSync);
+    auto it = mNativeTimerHandlers.find(timerID);
+    // NOTE: timer could have been stopped or restarted by another thread after it expired
+    const bool isValid = ((mNativeTimerHandlers.end() != it) && (mExpiredNativeTimerID == it->second.id));
+
+    if ((true == isValid) && (0u == nextIntervalMs)) {
+        // delete timer since it doesn't need to be restarted
+        deleteNativeTimer(it->second);
         mNativeTimerHandlers.erase(it);
     }
+
+    return isValid;
+}
+
+void HsmEventDispatcherQt::createNativeTimer(const TimerID_t timerID,
+                                             const unsigned int nativeTimerID,
+                                             const unsigned int intervalMs,
+                                             const bool isSingleShot) {
+    CriticalSection cs(mRunningTimersSync);
+    auto it = mNativeTimerHandlers.find(timerID);
+
+    // NOTE: timer could have been stopped or restarted by another thread
+    if ((mNativeTimerHandlers.end() != it) && (nativeTimerID == it->second.id)) {
+        it->second.timer = new QTimer(this);
+        it->second.timer->setProperty("hsmid", QVariant(timerID));
+        it->second.timer->setProperty("nativeid", QVariant(nativeTimerID));
+        it->second.timer->setSingleShot(isSingleShot);
+        // NOTE: other types of timers are allowed to expire too early
+        it->second.timer->setTimerType(Qt::PreciseTimer);
+        connect(it->second.timer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
+        it->second.timer->start(static_cast<int>(intervalMs));
+    }
+}
+
+void HsmEventDispatcherQt::deleteNativeTimer(const NativeTimerInfo& timer) {
+    if (nullptr != timer.timer) {
+        timer.timer->deleteLater();
+    }
 }
 
 void HsmEventDispatcherQt::onTimerEvent() {
@@ -150,19 +187,8 @@ void HsmEventDispatcherQt::onTimerEvent() {
         const TimerID_t timerID = ptrTimer->property("hsmid").toInt();
 
         HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-
-        if (0 == handleTimerEvent(timerID)) {
-            // delete timer since it doesn't need to be restarted
-            CriticalSection cs(mRunningTimersSync);
-            auto itTimer = mNativeTimerHandlers.find(timerID);
-
-            if (mNativeTimerHandlers.end() != itTimer) {
-                itTimer->second->deleteLater();
-                mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_ERROR("unexpected error. timer not found");
-            }
-        }
+        mExpiredNativeTimerID = ptrTimer->property("nativeid").toUInt();
+        (void)handleTimerEvent(timerID);
     }
 }
 
-- 
2.43.0


From d3a70be1b819a6df475452176b4c4a912527a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 36/50] fix: Qt dispatcher executes actions enqueued before it
 was started

---
 src/HsmEventDispatcherQt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 7f065c7..2e1df81 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -59,6 +59,9 @@ bool HsmEventDispatcherQt::start() {
         if (QObject::thread() != QCoreApplication::eventDispatcher()->thread()) {
             QObject::moveToThread(QCoreApplication::eventDispatcher()->thread());
         }
+
+        // execute actions which were enqueued before dispatcher was started
+        notifyDispatcherAboutEvent();
     }
 
     return result;
-- 
2.43.0


From a2570ea8852abe70c90a30cb8127865c6f0852a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 37/50] fix: FreeRTOS mutex can be unlocked inside of an
 interrupt

---
 src/os/freertos/Mutex.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/os/freertos/Mutex.cpp b/src/os/freertos/Mutex.cpp
index 4731961..645a155 100644
--- a/src/os/freertos/Mutex.cpp
+++ b/src/os/freertos/Mutex.cpp
@@ -37,7 +37,11 @@ void Mutex::lock() {
 
 void Mutex::unlock() {
     if (nullptr != mHandle) {
-        xSemaphoreGive(mHandle);
+        if (pdTRUE == xPortIsInsideInterrupt()) {
+            xSemaphoreGiveFromISR(mHandle, nullptr);
+        } else {
+            xSemaphoreGive(mHandle);
+        }
     }
 }
 
-- 
2.43.0


From 555de2ed3b15d255d01a145bb4f7dd0545c76c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 38/50] fix: waiting on FreeRTOS is not finished by an outdated
 notification

---
 src/os/freertos/ConditionVariable.cpp | 34 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/os/freertos/ConditionVariable.cpp b/src/os/freertos/ConditionVariable.cpp
index 2da0cc5..52bbc2d 100644
--- a/src/os/freertos/ConditionVariable.cpp
+++ b/src/os/freertos/ConditionVariable.cpp
@@ -2,6 +2,8 @@
 // Distributed under MIT license. See file LICENSE for details
 #include "hsmcpp/os/freertos/ConditionVariable.hpp"
 
+#include <task.h>
+
 #include "hsmcpp/os/freertos/FreeRtosPort.hpp"
 
 namespace hsmcpp {
@@ -30,7 +32,9 @@ void ConditionVariable::wait(UniqueLock& sync, std::function<bool()> stopWaiting
         bool locked = false;
         BaseType_t isInsideISR = xPortIsInsideInterrupt();
 
-        while ((nullptr == stopWaiting || false == stopWaiting()) && (false == locked)) {
+        // NOTE: semaphore could have been given by notify() which was called before anyone started to wait. so if condition is
+        //       provided it's the only thing which decides when to stop waiting
+        while ((nullptr == stopWaiting) ? (false == locked) : (false == stopWaiting())) {
             if (pdTRUE == isInsideISR) {
                 locked = (pdTRUE == xSemaphoreTakeFromISR(mHandle, nullptr));
             } else {
@@ -43,25 +47,37 @@ void ConditionVariable::wait(UniqueLock& sync, std::function<bool()> stopWaiting
 }
 
 bool ConditionVariable::wait_for(UniqueLock& sync, const int timeoutMs, std::function<bool()> stopWaiting) {
-    bool locked = false;
+    bool res = false;
     BaseType_t isInsideISR = xPortIsInsideInterrupt();
 
     sync.unlock();
 
     if (nullptr != mHandle) {
-        if (nullptr == stopWaiting || false == stopWaiting()) {
-            if (pdTRUE == isInsideISR) {
-                // NOTE: timeouts are not supported inside of ISR calls
-                locked = (pdTRUE == xSemaphoreTakeFromISR(mHandle, nullptr));
-            } else {
-                locked = (pdTRUE == xSemaphoreTake(mHandle, timeoutMs / portTICK_PERIOD_MS));
+        if (pdTRUE == isInsideISR) {
+            // NOTE: timeouts are not supported inside of ISR calls
+            res = (((nullptr != stopWaiting) && (true == stopWaiting())) ||
+                   (pdTRUE == xSemaphoreTakeFromISR(mHandle, nullptr)));
+        } else {
+            // NOTE: current tick could be almost over, so it doesn't count
+            const TickType_t timeout = ((timeoutMs + portTICK_PERIOD_MS - 1) / portTICK_PERIOD_MS) + 1;
+            const TickType_t startTime = xTaskGetTickCount();
+            TickType_t elapsed = 0;
+
+            res = (nullptr != stopWaiting) && (true == stopWaiting());
+
+            // NOTE: semaphore could have been given by notify() which was called before anyone started to wait
+            while ((false == res) && (elapsed < timeout)) {
+                const bool locked = (pdTRUE == xSemaphoreTake(mHandle, timeout - elapsed));
+
+                res = (nullptr != stopWaiting) ? stopWaiting() : locked;
+                elapsed = xTaskGetTickCount() - startTime;
             }
         }
     }
 
     sync.lock();
 
-    return locked;
+    return res;
 }
 
 void ConditionVariable::notify() {
-- 
2.43.0


From 7303a97e32015a7a3d68ac39dee9303e9f4b1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 39/50] fix: sync events are not unlocked inside of a FreeRTOS
 critical section

---
 src/HsmImplTypes.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3fbbd42..4644deb 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -173,7 +173,11 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
         // NOTE: status must be changed under the lock. otherwise notification could be lost if it's sent after the waiting
         //       thread checked transition status but before it started to wait
+        // NOTE: FreeRTOS doesn't lose such notifications, but doesn't allow to block a task inside of InterruptsFreeSection
+        //       (see HSM_SYNC_EVENTS_QUEUE)
+#if !defined(FREERTOS_AVAILABLE)
         LockGuard lck(*cvLock);
+#endif
 
         *transitionStatus = status;
 
-- 
2.43.0


From d5a307782b00d394353a65d807d73212d4487b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 40/50] fix: FreeRTOS events are not lost or corrupted when a
 handler is unregistered

---
 src/HsmEventDispatcherBase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 7b2ba85..1673794 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -5,6 +5,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
@@ -51,6 +52,8 @@ void HsmEventDispatcherBase::unregisterEventHandler(const HandlerID_t handlerID)
 
     {
         LockGuard lck(mEmitSync);
+        // NOTE: FreeRTOS dispatcher doesn't use mutex to protect pending events, it disables interrupts
+        InterruptsFreeSection lckInterrupts;
         mPendingEvents.remove(handlerID);
     }
     {
-- 
2.43.0


From a49caec709256f589b64bea6caa0ba109cb8d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 41/50] fix: FreeRTOS dispatcher and its task can be deleted
 safely

---
 include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp |  4 +-
 src/HsmEventDispatcherFreeRTOS.cpp            | 43 ++++++++++++-------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
index 63f2ce3..81cacca 100644
--- a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
+++ b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
@@ -109,8 +109,8 @@ protected:
     static void onTimerEvent(TimerHandle_t timerHandle);
 
 private:
-    TaskHandle_t mMainTask = nullptr;
-    TaskHandle_t mDispatcherTask = nullptr;
+    TaskHandle_t mDispatcherTask = nullptr;  // protected by InterruptsFreeSection class
+    bool mDeleteByDispatcherTask = false;
 
     configSTACK_DEPTH_TYPE mStackDepth = configMINIMAL_STACK_SIZE;
     UBaseType_t mPriority = tskIDLE_PRIORITY;
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index c282fa3..12737aa 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -44,8 +44,13 @@ HsmEventDispatcherFreeRTOS::~HsmEventDispatcherFreeRTOS() {
 }
 
 bool HsmEventDispatcherFreeRTOS::deleteSafe() {
-    // NOTE: just delete the instance. Calling destructor from any thread is safe
-    return true;
+    // NOTE: destructor waits for the task to finish. If last reference to the dispatcher was released by this task (for
+    //       example in a callback) then instance must be deleted right before it finishes.
+    const bool canDelete = (nullptr == mDispatcherTask) || (xTaskGetCurrentTaskHandle() != mDispatcherTask);
+
+    mDeleteByDispatcherTask = (false == canDelete);
+
+    return canDelete;
 }
 
 std::shared_ptr<HsmEventDispatcherFreeRTOS> HsmEventDispatcherFreeRTOS::create(const configSTACK_DEPTH_TYPE stackDepth,
@@ -76,10 +81,10 @@ bool HsmEventDispatcherFreeRTOS::start() {
     bool result = false;
 
     if (nullptr == mDispatcherTask) {
-        mMainTask = xTaskGetCurrentTaskHandle();
-
-        if (nullptr != mMainTask) {
+        if (nullptr != xTaskGetCurrentTaskHandle()) {
             HSM_TRACE_DEBUG("starting task...");
+            // NOTE: new task could start running before xTaskCreate() returns
+            mStopDispatcher = false;
             BaseType_t taskStatus = xTaskCreate(HsmEventDispatcherFreeRTOS::doDispatching,
                                                 "HsmEventDispatcherFreeRTOS",
                                                 mStackDepth,
@@ -88,7 +93,6 @@ bool HsmEventDispatcherFreeRTOS::start() {
                                                 &mDispatcherTask);
 
             if (pdPASS == taskStatus) {
-                mStopDispatcher = false;
                 result = true;
             } else {
                 HSM_TRACE_ERROR("failed to start task");
@@ -111,9 +115,7 @@ void HsmEventDispatcherFreeRTOS::stop() {
 
     unregisterAllEventHandlers();
 
-    if (nullptr != mDispatcherTask) {
-        notifyDispatcherAboutEvent();
-    }
+    notifyDispatcherAboutEvent();
 
     // delete timers
     InterruptsFreeSection lck;
@@ -127,8 +129,9 @@ void HsmEventDispatcherFreeRTOS::stop() {
 void HsmEventDispatcherFreeRTOS::join() {
     HSM_TRACE_CALL_DEBUG();
 
-    if (nullptr != mDispatcherTask) {
-        vTaskSuspend(nullptr);
+    // NOTE: dispatcher can't wait for itself
+    while ((nullptr != mDispatcherTask) && (xTaskGetCurrentTaskHandle() != mDispatcherTask)) {
+        vTaskDelay(1);
     }
 }
 
@@ -212,6 +215,9 @@ void HsmEventDispatcherFreeRTOS::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherFreeRTOS::notifyDispatcherAboutEvent() {
+    // NOTE: task must not finish before it's notified
+    InterruptsFreeSection lck;
+
     if (nullptr != mDispatcherTask) {
         BaseType_t isInsideISR = xPortIsInsideInterrupt();
 
@@ -254,13 +260,20 @@ void HsmEventDispatcherFreeRTOS::doDispatching(void* pvParameters) {
 
     HSM_TRACE_DEBUG("EXIT");
 
-    if (nullptr != pThis->mMainTask) {
-        if (eSuspended == eTaskGetState(pThis->mMainTask)) {
-            vTaskResume(pThis->mMainTask);
+    if (nullptr != pThis) {
+        // NOTE: instance could be deleted by another task as soon as mDispatcherTask is cleared (see join())
+        const bool deleteInstance = pThis->mDeleteByDispatcherTask;
+
+        {
+            InterruptsFreeSection lck;
+            pThis->mDispatcherTask = nullptr;
+        }
+
+        if (true == deleteInstance) {
+            delete pThis;
         }
     }
 
-    pThis->mDispatcherTask = nullptr;
     vTaskDelete(nullptr);
 }
 
-- 
2.43.0


From d4ac9031ff2054d383cc522be41d942c1cc8d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 42/50] fix: FreeRTOS timers don't use freed memory, expired or
 deleted timers

---
 include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp |  15 +-
 src/HsmEventDispatcherFreeRTOS.cpp            | 162 ++++++++++--------
 2 files changed, 105 insertions(+), 72 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
index 81cacca..a9ecef6 100644
--- a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
+++ b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
@@ -103,18 +103,31 @@ protected:
      */
     void stopTimerImpl(const TimerID_t timerID) override;
 
+    bool handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
+
     void notifyDispatcherAboutEvent() override;
     static void doDispatching(void* pvParameters);
 
     static void onTimerEvent(TimerHandle_t timerHandle);
 
+private:
+    struct NativeTimer {
+        TimerHandle_t timer = nullptr;
+        TickType_t period = 0;
+        TickType_t expiryTime = 0;
+    };
+
+    void deleteNativeTimer(const std::map<TimerID_t, NativeTimer>::iterator it);
+
 private:
     TaskHandle_t mDispatcherTask = nullptr;  // protected by InterruptsFreeSection class
     bool mDeleteByDispatcherTask = false;
 
     configSTACK_DEPTH_TYPE mStackDepth = configMINIMAL_STACK_SIZE;
     UBaseType_t mPriority = tskIDLE_PRIORITY;
-    std::map<TimerID_t, TimerHandle_t> mNativeTimerHandlers; // protected by InterruptsFreeSection class
+    bool mDeleteByTimersTask = false;
+    TaskHandle_t mTimersTask = nullptr;  // task which currently executes onTimerEvent(). protected by InterruptsFreeSection class
+    std::map<TimerID_t, NativeTimer> mNativeTimerHandlers; // protected by mHandlersSync (changes are also protected by InterruptsFreeSection class)
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 12737aa..130389b 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -5,6 +5,7 @@
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/ConditionVariable.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 #include "hsmcpp/os/freertos/FreeRtosPort.hpp"
 
 #if (INCLUDE_xTaskGetCurrentTaskHandle != 1)
@@ -45,12 +46,13 @@ HsmEventDispatcherFreeRTOS::~HsmEventDispatcherFreeRTOS() {
 
 bool HsmEventDispatcherFreeRTOS::deleteSafe() {
     // NOTE: destructor waits for the task to finish. If last reference to the dispatcher was released by this task (for
-    //       example in a callback) then instance must be deleted right before it finishes.
-    const bool canDelete = (nullptr == mDispatcherTask) || (xTaskGetCurrentTaskHandle() != mDispatcherTask);
+    //       example in a callback) then instance must be deleted right before it finishes. The same for timer callbacks.
+    const TaskHandle_t currentTask = xTaskGetCurrentTaskHandle();
 
-    mDeleteByDispatcherTask = (false == canDelete);
+    mDeleteByDispatcherTask = (nullptr != mDispatcherTask) && (currentTask == mDispatcherTask);
+    mDeleteByTimersTask = (nullptr != mTimersTask) && (currentTask == mTimersTask);
 
-    return canDelete;
+    return (false == mDeleteByDispatcherTask) && (false == mDeleteByTimersTask);
 }
 
 std::shared_ptr<HsmEventDispatcherFreeRTOS> HsmEventDispatcherFreeRTOS::create(const configSTACK_DEPTH_TYPE stackDepth,
@@ -118,10 +120,13 @@ void HsmEventDispatcherFreeRTOS::stop() {
     notifyDispatcherAboutEvent();
 
     // delete timers
+    LockGuard lckHandlers(mHandlersSync);
     InterruptsFreeSection lck;
 
     for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-        xTimerDelete(it->second, 0);
+        // NOTE: timer will be deleted later by FreeRTOS and could still expire before that
+        vTimerSetTimerID(it->second.timer, nullptr);
+        xTimerDelete(it->second.timer, 0);
     }
     mNativeTimerHandlers.clear();
 }
@@ -133,6 +138,9 @@ void HsmEventDispatcherFreeRTOS::join() {
     while ((nullptr != mDispatcherTask) && (xTaskGetCurrentTaskHandle() != mDispatcherTask)) {
         vTaskDelay(1);
     }
+    while ((nullptr != mTimersTask) && (xTaskGetCurrentTaskHandle() != mTimersTask)) {
+        vTaskDelay(1);
+    }
 }
 
 void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
@@ -142,78 +150,86 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
-    auto it = mNativeTimerHandlers.end();
-    TimerHandle_t timer = nullptr;
-    UBaseType_t reloadMode = (false == isSingleShot ? pdTRUE : pdFALSE);
+    // NOTE: period in ticks can't be zero and timer must not expire too early
+    const TickType_t period = ((intervalMs + portTICK_PERIOD_MS) - 1) / portTICK_PERIOD_MS;
+    const UBaseType_t reloadMode = ((false == isSingleShot) ? pdTRUE : pdFALSE);
 
-    {
-        InterruptsFreeSection lck;
-        it = mNativeTimerHandlers.find(timerID);
-    }
+    if (true == mStopDispatcher) {
+        HSM_TRACE_DEBUG("dispatcher is stopped. ignoring timer with id=%d", SC2INT(timerID));
+    } else {
+        auto it = mNativeTimerHandlers.find(timerID);
 
-    if (mNativeTimerHandlers.end() == it) {
-        timer = xTimerCreate("hsmtimer",
-                             intervalMs / portTICK_PERIOD_MS,
-                             reloadMode,
-                             this,
-                             HsmEventDispatcherFreeRTOS::onTimerEvent);
+        if (mNativeTimerHandlers.end() == it) {
+            NativeTimer newTimer;
 
-        if (nullptr != timer) {
-            InterruptsFreeSection lck;
-            mNativeTimerHandlers[timerID] = timer;
-        }
-    } else {
-        timer = it->second;
-
-        if ((xTimerGetPeriod(timer) * portTICK_PERIOD_MS) != intervalMs) {
-            if (pdPASS != xTimerChangePeriod(timer, intervalMs / portTICK_PERIOD_MS, 0)) {
-                xTimerDelete(timer, 0);
-                {
-                    InterruptsFreeSection lck;
-                    mNativeTimerHandlers.erase(timerID);
-                }
+            newTimer.timer = xTimerCreate("hsmtimer", period, reloadMode, this, HsmEventDispatcherFreeRTOS::onTimerEvent);
 
+            if (nullptr != newTimer.timer) {
+                InterruptsFreeSection lck;
+                it = mNativeTimerHandlers.emplace(timerID, newTimer).first;
+            } else {
+                HSM_TRACE_ERROR("xTimerCreate failed");
+            }
+        } else if (it->second.period != period) {  // NOTE: previous change of the period might be not processed yet
+            if (pdPASS != xTimerChangePeriod(it->second.timer, period, 0)) {
                 HSM_TRACE_ERROR("xTimerChangePeriod failed");
+                deleteNativeTimer(it);
+                it = mNativeTimerHandlers.end();
             }
+        } else {
+            // do nothing
         }
 
-        // NOTE: not available in all versions
-        // if (uxTimerGetReloadMode(timer) != reloadMode)
-        { vTimerSetReloadMode(timer, reloadMode); }
-    }
+        if (mNativeTimerHandlers.end() != it) {
+            // NOTE: not available in all versions
+            // if (uxTimerGetReloadMode(timer) != reloadMode)
+            { vTimerSetReloadMode(it->second.timer, reloadMode); }
 
-    if (nullptr != timer) {
-        // try to start timer without blocking
-        // NOTE: this will not work for sync transitions which are called from ISR
-        if (pdPASS != xTimerStart(timer, 0)) {
-            xTimerDelete(timer, 0);
-            {
-                InterruptsFreeSection lck;
-                mNativeTimerHandlers.erase(timerID);
-            }
+            it->second.period = period;
+            it->second.expiryTime = xTaskGetTickCount() + period;
 
-            HSM_TRACE_ERROR("xTimerStart failed");
+            // try to start timer without blocking
+            // NOTE: this will not work for sync transitions which are called from ISR
+            if (pdPASS != xTimerStart(it->second.timer, 0)) {
+                HSM_TRACE_ERROR("xTimerStart failed");
+                deleteNativeTimer(it);
+            }
         }
-    } else {
-        HSM_TRACE_ERROR("xTimerCreate failed");
     }
 }
 
 void HsmEventDispatcherFreeRTOS::stopTimerImpl(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-    auto it = mNativeTimerHandlers.end();
-
-    {
-        InterruptsFreeSection lck;
-        it = mNativeTimerHandlers.find(timerID);
-    }
+    auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() != it) {
         // NOTE: this will not work for sync transitions which are called from ISR
-        xTimerStop(it->second, 0);  // NOTE: this will not be processed instantly and can actually fail
+        xTimerStop(it->second.timer, 0);  // NOTE: this will not be processed instantly and can actually fail
     }
 }
 
+bool HsmEventDispatcherFreeRTOS::handleTimerExpiration(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    bool hasExpired = false;
+    auto it = mNativeTimerHandlers.find(timerID);
+
+    // NOTE: timer commands are executed asynchronously. timer could have expired before it was restarted
+    if ((false == mStopDispatcher) && (mNativeTimerHandlers.end() != it) &&
+        (static_cast<int32_t>(xTaskGetTickCount() - it->second.expiryTime) >= 0)) {
+        it->second.expiryTime += it->second.period;
+        hasExpired = true;
+    }
+
+    return hasExpired;
+}
+
+void HsmEventDispatcherFreeRTOS::deleteNativeTimer(const std::map<TimerID_t, NativeTimer>::iterator it) {
+    InterruptsFreeSection lck;
+
+    vTimerSetTimerID(it->second.timer, nullptr);
+    xTimerDelete(it->second.timer, 0);
+    mNativeTimerHandlers.erase(it);
+}
+
 void HsmEventDispatcherFreeRTOS::notifyDispatcherAboutEvent() {
     // NOTE: task must not finish before it's notified
     InterruptsFreeSection lck;
@@ -281,38 +297,42 @@ void HsmEventDispatcherFreeRTOS::onTimerEvent(TimerHandle_t timerHandle) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerHandle=%p", timerHandle);
 
     if (nullptr != timerHandle) {
-        HsmEventDispatcherFreeRTOS* pThis = static_cast<HsmEventDispatcherFreeRTOS*>(pvTimerGetTimerID(timerHandle));
+        HsmEventDispatcherFreeRTOS* pThis = nullptr;
+        TimerID_t timerID = INVALID_HSM_TIMER_ID;
 
-        if (nullptr != pThis) {
-            TimerID_t timerID = INVALID_HSM_TIMER_ID;
+        {
+            InterruptsFreeSection lck;
 
-            {
-                InterruptsFreeSection lck;
+            pThis = static_cast<HsmEventDispatcherFreeRTOS*>(pvTimerGetTimerID(timerHandle));
 
+            if (nullptr != pThis) {
                 for (auto it = pThis->mNativeTimerHandlers.begin(); it != pThis->mNativeTimerHandlers.end(); ++it) {
-                    if (it->second == timerHandle) {
+                    if (it->second.timer == timerHandle) {
                         timerID = it->first;
                         break;
                     }
                 }
+
+                // NOTE: from now on destructor will wait until this function is done
+                pThis->mTimersTask = xTaskGetCurrentTaskHandle();
             }
+        }
 
-            const bool restartTimer = pThis->handleTimerEvent(timerID);
+        if (nullptr != pThis) {
+            (void)pThis->handleTimerEvent(timerID);
 
-            HSM_TRACE_DEBUG("restartTimer=%d", (int)restartTimer);
+            const bool deleteInstance = pThis->mDeleteByTimersTask;
 
-            if (false == restartTimer) {
+            {
                 InterruptsFreeSection lck;
-                auto itTimer = pThis->mNativeTimerHandlers.find(timerID);
+                pThis->mTimersTask = nullptr;
+            }
 
-                if (pThis->mNativeTimerHandlers.end() != itTimer) {
-                    pThis->mNativeTimerHandlers.erase(itTimer);
-                } else {
-                    HSM_TRACE_ERROR("unexpected error. timer not found");
-                }
+            if (true == deleteInstance) {
+                delete pThis;
             }
         }
     }
 }
 
-}  // namespace hsmcpp
\ No newline at end of file
+}  // namespace hsmcpp
-- 
2.43.0


From 69c0c3e0b4c1854044cd2402d6afe0258ee24a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 43/50] fix: FreeRTOS emitEvent doesn't dispatch enqueued
 events on caller's task

---
 src/HsmEventDispatcherFreeRTOS.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 130389b..592fb8b 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -66,8 +66,7 @@ void HsmEventDispatcherFreeRTOS::emitEvent(const HandlerID_t handlerID) {
     HSM_TRACE_CALL_DEBUG();
 
     if (nullptr != mDispatcherTask) {
-        dispatchEnqueuedEvents();
-
+        // NOTE: enqueued events are dispatched by the task. caller of this function could hold mHandlersSync
         {
             // TODO: this will work only for single-core FreeRTOS
             InterruptsFreeSection lck;
-- 
2.43.0


From e3b0c6688009f4fe5240262ad40855b9252f6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 44/50] fix: dispatchers can be stopped and deleted by timer
 handlers

Timer handlers are called with locked mHandlersSync, so stop() (also as a part of deleting the dispatcher) blocked forever
in all dispatchers except of STD.
---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  1 +
 src/HsmEventDispatcherBase.cpp            | 10 ++++++++--
 src/HsmEventDispatcherFreeRTOS.cpp        |  9 ++++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index c9d2541..935662d 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -290,6 +290,7 @@ protected:
     Mutex mEnqueuedEventsSync;
     Mutex mRunningTimersSync;
     bool mStopDispatcher = false;
+    volatile bool mTimerHandlerIsRunning = false;  // modified only with locked mHandlersSync
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 1673794..a44556e 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -232,8 +232,12 @@ int HsmEventDispatcherBase::getNextHandlerID() {
 }
 
 void HsmEventDispatcherBase::unregisterAllEventHandlers() {
-    LockGuard lck(mHandlersSync);
-    mEventHandlers.clear();
+    // NOTE: timer handlers are called with locked mHandlersSync, but they are allowed to stop dispatcher or to release last
+    //       reference to it. Handlers of a stopped dispatcher won't be called anyway
+    if (false == mTimerHandlerIsRunning) {
+        LockGuard lck(mHandlersSync);
+        mEventHandlers.clear();
+    }
 }
 
 EnqueuedEventHandlerFunc_t HsmEventDispatcherBase::getEnqueuedEventHandlerFunc(const HandlerID_t handlerID) const {
@@ -300,7 +304,9 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
                     mActiveTimers.erase(itTimer);
                 }
 
+                mTimerHandlerIsRunning = true;
                 timerHandler(timerID);
+                mTimerHandlerIsRunning = false;
             }
         }
     }
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 592fb8b..fb84604 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -6,6 +6,7 @@
 #include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/ConditionVariable.hpp"
 #include "hsmcpp/os/LockGuard.hpp"
+#include "hsmcpp/os/UniqueLock.hpp"
 #include "hsmcpp/os/freertos/FreeRtosPort.hpp"
 
 #if (INCLUDE_xTaskGetCurrentTaskHandle != 1)
@@ -119,7 +120,13 @@ void HsmEventDispatcherFreeRTOS::stop() {
     notifyDispatcherAboutEvent();
 
     // delete timers
-    LockGuard lckHandlers(mHandlersSync);
+    UniqueLock lckHandlers;
+
+    // NOTE: mHandlersSync is already locked if this is a call from a timer handler
+    if ((nullptr == mTimersTask) || (xTaskGetCurrentTaskHandle() != mTimersTask)) {
+        lckHandlers = UniqueLock(mHandlersSync);
+    }
+
     InterruptsFreeSection lck;
 
     for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-- 
2.43.0


From 8516e9cb7c86c899b0fc12e99ae54234cbc1c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 45/50] fix: states were exited again for every parallel
 transition after one of them has refused to exit

---
 src/HsmImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index cccf353..a5e2780 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1407,6 +1407,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
                     mActiveStates.emplace_back(*itState);
                     onStateChanged(*itState, VariantVector_t());
                 }
+
+                // all transitions of this event exit the same states. there is no need to ask them again
+                break;
             }
         }
     }
-- 
2.43.0


From bf0f862a25aae54db2aef65148ce16e62b3874a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 46/50] fix: states restored by a refused parallel transition
 were left without exiting or entered several times

---
 src/HsmImpl.cpp | 39 ++++++++++++++++++++++++++++-----------
 src/HsmImpl.hpp |  4 ++--
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index a5e2780..edc5963 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1196,8 +1196,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
 
 HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const PendingEventInfo& event,
                                                                          const StateID_t fromState,
-                                                                         const TransitionInfo& curTransition,
-                                                                         const std::list<StateID_t>& exitedStates) {
+                                                                         const TransitionInfo& curTransition) {
     HSM_TRACE_CALL_DEBUG();
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
 
@@ -1254,14 +1253,6 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
                 res = HsmEventStatus::PENDING;
             }
         }
-    } else {
-        // states were exited starting from the most nested one. parents must be entered before their children
-        for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {
-            // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(*itState, VariantVector_t());
-            (void)addActiveState(*itState);
-            onStateChanged(*itState, VariantVector_t());
-        }
     }
 
     return res;
@@ -1417,6 +1408,20 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
     return isExitAllowed;
 }
 
+void HierarchicalStateMachine::Impl::restoreExitedStates(const std::list<StateID_t>& exitedStates) {
+    HSM_TRACE_CALL_DEBUG();
+
+    // states were exited starting from the most nested one. parents must be entered before their children
+    for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {
+        if (false == isStateActive(*itState)) {
+            // to prevent infinite loops we don't allow state to cancel transition
+            (void)onStateEntering(*itState, VariantVector_t());
+            (void)addActiveState(*itState);
+            onStateChanged(*itState, VariantVector_t());
+        }
+    }
+}
+
 bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEventInfo& event, const StateID_t destinationState) {
     HSM_TRACE_CALL_DEBUG();
     auto itHistoryData = mHistoryData.find(destinationState);
@@ -1614,11 +1619,17 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 
         // proceed if transition was not blocked during state exit
         if (true == isExitAllowed) {
+            bool wasRefused = false;
+
             for (const TransitionInfo& curTransition : matchingTransitions) {
                 // everything except internal self-transitions
                 if ((curTransition.fromState != curTransition.destinationState) ||
                     (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) {
-                    const HsmEventStatus curStatus = processExternalTransition(event, fromState, curTransition, exitedStates);
+                    const HsmEventStatus curStatus = processExternalTransition(event, fromState, curTransition);
+
+                    if (HsmEventStatus::DONE_FAILED == curStatus) {
+                        wasRefused = true;
+                    }
 
                     // event was processed if at least one of the parallel transitions was accepted
                     if ((HsmEventStatus::PENDING == curStatus) || (HsmEventStatus::DONE_FAILED == res)) {
@@ -1626,6 +1637,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
                     }
                 }
             }
+
+            // rollback only after all parallel transitions were processed. otherwise restored states will be replaced
+            // without being exited
+            if (true == wasRefused) {
+                restoreExitedStates(exitedStates);
+            }
         } else {
             res = HsmEventStatus::CANCELED;
         }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index f532fdc..0dd733c 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -142,8 +142,8 @@ private:
 
     HsmEventStatus processExternalTransition(const PendingEventInfo& event,
                                              const StateID_t fromState,
-                                             const TransitionInfo& curTransition,
-                                             const std::list<StateID_t>& exitedStates);
+                                             const TransitionInfo& curTransition);
+    void restoreExitedStates(const std::list<StateID_t>& exitedStates);
     bool determineTargetState(const PendingEventInfo& event,
                               const StateID_t fromState,
                               std::list<TransitionInfo>& outMatchingTransitions);
-- 
2.43.0


From 44f69c0dcc25175d4a14d3dc7f76a39d0e235795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 47/50] fix: history transition left machine without its states
 when parent of the history state refused to be entered

---
 src/HsmImpl.cpp      | 53 ++++++++++++++++++++++++++++++++++++++------
 src/HsmImpl.hpp      |  8 +++++--
 src/HsmImplTypes.cpp |  1 +
 src/HsmImplTypes.hpp |  1 +
 4 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index edc5963..4acbcb7 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -919,6 +919,14 @@ bool HierarchicalStateMachine::Impl::hasActiveChildren(const StateID_t parent, c
     return res;
 }
 
+bool HierarchicalStateMachine::Impl::isHistoryParentTransition(const PendingEventInfo& event) {
+    StateID_t historyParent = INVALID_HSM_STATE_ID;
+
+    return (TransitionBehavior::FORCED == event.transitionType) &&
+           getHistoryParent(event.forcedTransitionsInfo->front().fromState, historyParent) &&
+           (historyParent == event.forcedTransitionsInfo->front().destinationState);
+}
+
 bool HierarchicalStateMachine::Impl::getHistoryParent(const StateID_t historyState, StateID_t& outParent) {
     bool wasFound = false;
     auto it =
@@ -1196,7 +1204,8 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
 
 HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const PendingEventInfo& event,
                                                                          const StateID_t fromState,
-                                                                         const TransitionInfo& curTransition) {
+                                                                         const TransitionInfo& curTransition,
+                                                                         const std::list<StateID_t>& exitedStates) {
     HSM_TRACE_CALL_DEBUG();
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
 
@@ -1224,7 +1233,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             res = HsmEventStatus::DONE_OK;
         }
         // check if we transitioned into history state
-        else if (true == processHistoryTransition(event, curTransition.destinationState)) {
+        else if (true == processHistoryTransition(event, curTransition.destinationState, exitedStates)) {
             res = HsmEventStatus::PENDING;
         } else {
             // check if new state has substates and initiate entry transition
@@ -1422,7 +1431,9 @@ void HierarchicalStateMachine::Impl::restoreExitedStates(const std::list<StateID
     }
 }
 
-bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEventInfo& event, const StateID_t destinationState) {
+bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEventInfo& event,
+                                                              const StateID_t destinationState,
+                                                              const std::list<StateID_t>& exitedStates) {
     HSM_TRACE_CALL_DEBUG();
     auto itHistoryData = mHistoryData.find(destinationState);
 
@@ -1431,13 +1442,17 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
         HSM_TRACE_DEBUG("state=<%s> is a history state with %ld stored states",
                         getStateName(destinationState).c_str(),
                         itHistoryData->second.previousActiveStates.size());
+        PendingEventInfo historyEvent = event;
+
+        // transition will be canceled if parent of the history state refuses to be entered
+        historyEvent.exitedStates = std::make_shared<std::list<StateID_t>>(exitedStates);
 
         if (itHistoryData->second.previousActiveStates.empty() == false) {
-            transitionToPreviousActiveStates(itHistoryData->second.previousActiveStates, event, destinationState);
+            transitionToPreviousActiveStates(itHistoryData->second.previousActiveStates, historyEvent, destinationState);
         } else {
             transitionToDefaultHistoryState(itHistoryData->second.defaultTarget,
                                             itHistoryData->second.defaultTargetTransitionCallback,
-                                            event,
+                                            historyEvent,
                                             destinationState);
         }
     }
@@ -1555,6 +1570,24 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
     }
 }
 
+void HierarchicalStateMachine::Impl::cancelForcedTransitions(const StateID_t refusedState) {
+    HSM_SYNC_EVENTS_QUEUE();
+
+    for (auto it = mPendingEvents.begin(); it != mPendingEvents.end();) {
+        bool isEmpty = false;
+
+        if (TransitionBehavior::FORCED == it->transitionType) {
+            it->forcedTransitionsInfo->remove_if([&](const TransitionInfo& item) {
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                return isSubstateOf(refusedState, item.destinationState);
+            });
+            isEmpty = it->forcedTransitionsInfo->empty();
+        }
+
+        it = (isEmpty ? mPendingEvents.erase(it) : std::next(it));
+    }
+}
+
 bool HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEventInfo& event,
                                                                  const StateID_t destinationState) {
     const auto itFinalStateEvent = mFinalStates.find(destinationState);
@@ -1625,10 +1658,11 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
                 // everything except internal self-transitions
                 if ((curTransition.fromState != curTransition.destinationState) ||
                     (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) {
-                    const HsmEventStatus curStatus = processExternalTransition(event, fromState, curTransition);
+                    const HsmEventStatus curStatus = processExternalTransition(event, fromState, curTransition, exitedStates);
 
                     if (HsmEventStatus::DONE_FAILED == curStatus) {
                         wasRefused = true;
+                        cancelForcedTransitions(curTransition.destinationState);
                     }
 
                     // event was processed if at least one of the parallel transitions was accepted
@@ -1641,7 +1675,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
             // rollback only after all parallel transitions were processed. otherwise restored states will be replaced
             // without being exited
             if (true == wasRefused) {
-                restoreExitedStates(exitedStates);
+                if (true == isHistoryParentTransition(event)) {
+                    mActiveStates.remove(fromState);
+                    restoreExitedStates(*event.exitedStates);
+                } else {
+                    restoreExitedStates(exitedStates);
+                }
             }
         } else {
             res = HsmEventStatus::CANCELED;
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 0dd733c..a200d63 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -128,6 +128,7 @@ private:
     bool isFinalState(const StateID_t state) const;
     bool hasActiveChildren(const StateID_t parent, const bool includeFinal);
 
+    bool isHistoryParentTransition(const PendingEventInfo& event);
     bool getHistoryParent(const StateID_t historyState, StateID_t& outParent);
     void updateHistory(const StateID_t topLevelState, const std::list<StateID_t>& exitedStates);
 
@@ -142,7 +143,8 @@ private:
 
     HsmEventStatus processExternalTransition(const PendingEventInfo& event,
                                              const StateID_t fromState,
-                                             const TransitionInfo& curTransition);
+                                             const TransitionInfo& curTransition,
+                                             const std::list<StateID_t>& exitedStates);
     void restoreExitedStates(const std::list<StateID_t>& exitedStates);
     bool determineTargetState(const PendingEventInfo& event,
                               const StateID_t fromState,
@@ -152,11 +154,13 @@ private:
                                const std::list<TransitionInfo>& matchingTransitions,
                                std::list<StateID_t>& outExitedStates);
 
-    bool processHistoryTransition(const PendingEventInfo& event, const StateID_t destinationState);
+    bool processHistoryTransition(const PendingEventInfo& event, const StateID_t destinationState, const std::list<StateID_t>& exitedStates);
     void transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates, const PendingEventInfo& event, const StateID_t destinationState);
     void transitionToDefaultHistoryState(const StateID_t defaultTarget, const HsmTransitionCallback_t& defaultTargetTransitionCallback, const PendingEventInfo& event, const StateID_t destinationState);
 
 
+    // substates can't be entered if their parent refused to be entered
+    void cancelForcedTransitions(const StateID_t refusedState);
     bool processFinalStateTransition(const PendingEventInfo& event, const StateID_t destinationState);
     HsmEventStatus handleSingleTransition(const StateID_t fromState, const PendingEventInfo& event);
     void clearPendingEvents();
diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 4644deb..5e28978 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -114,6 +114,7 @@ PendingEventInfo& PendingEventInfo::operator=(PendingEventInfo&& src) noexcept {
         syncProcessed = std::move(src.syncProcessed);
         transitionStatus = std::move(src.transitionStatus);
         forcedTransitionsInfo = std::move(src.forcedTransitionsInfo);
+        exitedStates = std::move(src.exitedStates);
         ignoreEntryPoints = src.ignoreEntryPoints;
 
         src.id = INVALID_HSM_EVENT_ID;
diff --git a/src/HsmImplTypes.hpp b/src/HsmImplTypes.hpp
index 79372f7..28b2525 100644
--- a/src/HsmImplTypes.hpp
+++ b/src/HsmImplTypes.hpp
@@ -86,6 +86,7 @@ struct PendingEventInfo {
     std::shared_ptr<ConditionVariable> syncProcessed;
     std::shared_ptr<HsmEventStatus> transitionStatus;
     std::shared_ptr<std::list<TransitionInfo>> forcedTransitionsInfo;
+    std::shared_ptr<std::list<StateID_t>> exitedStates;  // states which were exited by transition to a history state
     bool ignoreEntryPoints = false;
 
     PendingEventInfo() = default;
-- 
2.43.0


From 8fff9ebfb8af6c4243875097f3ae77b2ee6923ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 48/50] fix: sync transition was successful although a part of
 it was refused

---
 src/HsmImpl.cpp      | 14 ++++++++++++--
 src/HsmImplTypes.cpp |  2 ++
 src/HsmImplTypes.hpp |  1 +
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4acbcb7..9ded9d8 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -687,8 +687,18 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
                 // NOTE: transition could consist of multiple parts (for example when restoring history)
-                if ((true == pendingEvent.isSync()) && (true == hasPendingParts(pendingEvent))) {
-                    transitiontStatus = HsmEventStatus::PENDING;
+                if (true == pendingEvent.isSync()) {
+                    if ((HsmEventStatus::DONE_FAILED == transitiontStatus) || (HsmEventStatus::CANCELED == transitiontStatus)) {
+                        *pendingEvent.hasFailedParts = true;
+                    } else if ((HsmEventStatus::DONE_OK == transitiontStatus) && (true == *pendingEvent.hasFailedParts)) {
+                        transitiontStatus = HsmEventStatus::DONE_FAILED;
+                    } else {
+                        // NOTE: do nothing
+                    }
+
+                    if (true == hasPendingParts(pendingEvent)) {
+                        transitiontStatus = HsmEventStatus::PENDING;
+                    }
                 }
 
                 HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 5e28978..d6f488d 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -113,6 +113,7 @@ PendingEventInfo& PendingEventInfo::operator=(PendingEventInfo&& src) noexcept {
         cvLock = std::move(src.cvLock);
         syncProcessed = std::move(src.syncProcessed);
         transitionStatus = std::move(src.transitionStatus);
+        hasFailedParts = std::move(src.hasFailedParts);
         forcedTransitionsInfo = std::move(src.forcedTransitionsInfo);
         exitedStates = std::move(src.exitedStates);
         ignoreEntryPoints = src.ignoreEntryPoints;
@@ -129,6 +130,7 @@ void PendingEventInfo::initLock() {
         syncProcessed = std::make_shared<ConditionVariable>();
         transitionStatus = std::make_shared<HsmEventStatus>();
         *transitionStatus = HsmEventStatus::PENDING;
+        hasFailedParts = std::make_shared<bool>(false);
     }
 }
 
diff --git a/src/HsmImplTypes.hpp b/src/HsmImplTypes.hpp
index 28b2525..90ca164 100644
--- a/src/HsmImplTypes.hpp
+++ b/src/HsmImplTypes.hpp
@@ -85,6 +85,7 @@ struct PendingEventInfo {
     std::shared_ptr<Mutex> cvLock;
     std::shared_ptr<ConditionVariable> syncProcessed;
     std::shared_ptr<HsmEventStatus> transitionStatus;
+    std::shared_ptr<bool> hasFailedParts;  // used only by sync transitions which consist of multiple parts
     std::shared_ptr<std::list<TransitionInfo>> forcedTransitionsInfo;
     std::shared_ptr<std::list<StateID_t>> exitedStates;  // states which were exited by transition to a history state
     bool ignoreEntryPoints = false;
-- 
2.43.0


From 5f4f4909076247c158519a8d9a5c0ce7c2234498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 49/50] fix: final states raised their event before parallel
 states were entered or restored

---
 src/HsmImpl.cpp | 43 +++++++++++++++++++++++++++++++++++++------
 src/HsmImpl.hpp |  4 +++-
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 9ded9d8..147676e 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1238,8 +1238,8 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             onStateChanged(curTransition.destinationState, event.getArgs());
         }
 
-        // check if current state is a final state
-        if (true == processFinalStateTransition(event, curTransition.destinationState)) {
+        // check if current state is a final state (see processFinalStateTransition())
+        if (true == isFinalState(curTransition.destinationState)) {
             res = HsmEventStatus::DONE_OK;
         }
         // check if we transitioned into history state
@@ -1598,7 +1598,7 @@ void HierarchicalStateMachine::Impl::cancelForcedTransitions(const StateID_t ref
     }
 }
 
-bool HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEventInfo& event,
+void HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEventInfo& event,
                                                                  const StateID_t destinationState) {
     const auto itFinalStateEvent = mFinalStates.find(destinationState);
 
@@ -1609,7 +1609,7 @@ bool HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEv
         if (true == getParentState(destinationState, parentState)) {
             // check if there are any other active siblings in this parent state
             // only generate final state event when all siblings got deactivated
-            if (false == hasActiveChildren(parentState, false)) {
+            if ((false == hasActiveChildren(parentState, false)) && (false == hasPendingChildren(parentState))) {
                 PendingEventInfo finalStateEvent;
 
                 finalStateEvent.transitionType = TransitionBehavior::REGULAR;
@@ -1623,13 +1623,34 @@ bool HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEv
 
                 {
                     HSM_SYNC_EVENTS_QUEUE();
-                    mPendingEvents.push_front(finalStateEvent);
+                    // ongoing transition must be finished first
+                    const auto itPosition =
+                        std::find_if(mPendingEvents.begin(), mPendingEvents.end(), [](const PendingEventInfo& item) {
+                            // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                            return (TransitionBehavior::REGULAR == item.transitionType);
+                        });
+
+                    (void)mPendingEvents.insert(itPosition, finalStateEvent);
                 }
             }
         }
     }
+}
+
+bool HierarchicalStateMachine::Impl::hasPendingChildren(const StateID_t parent) {
+    HSM_SYNC_EVENTS_QUEUE();
 
-    return (itFinalStateEvent != mFinalStates.end());
+    return std::any_of(mPendingEvents.begin(), mPendingEvents.end(), [&](const PendingEventInfo& event) {
+        // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+        return (TransitionBehavior::FORCED == event.transitionType) &&
+               std::any_of(event.forcedTransitionsInfo->begin(),
+                           event.forcedTransitionsInfo->end(),
+                           [&](const TransitionInfo& item) {
+                               // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                               return (false == isFinalState(item.destinationState)) &&
+                                      isSubstateOf(parent, item.destinationState);
+                           });
+    });
 }
 
 HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const StateID_t fromState,
@@ -1663,6 +1684,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
         // proceed if transition was not blocked during state exit
         if (true == isExitAllowed) {
             bool wasRefused = false;
+            std::list<StateID_t> enteredFinalStates;
 
             for (const TransitionInfo& curTransition : matchingTransitions) {
                 // everything except internal self-transitions
@@ -1673,6 +1695,10 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
                     if (HsmEventStatus::DONE_FAILED == curStatus) {
                         wasRefused = true;
                         cancelForcedTransitions(curTransition.destinationState);
+                    } else if (true == isFinalState(curTransition.destinationState)) {
+                        enteredFinalStates.emplace_back(curTransition.destinationState);
+                    } else {
+                        // NOTE: do nothing
                     }
 
                     // event was processed if at least one of the parallel transitions was accepted
@@ -1692,6 +1718,11 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
                     restoreExitedStates(exitedStates);
                 }
             }
+
+            // all parallel states must be entered or restored before checking if there are any active siblings
+            for (const StateID_t finalState : enteredFinalStates) {
+                processFinalStateTransition(event, finalState);
+            }
         } else {
             res = HsmEventStatus::CANCELED;
         }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index a200d63..ed6d970 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -127,6 +127,8 @@ private:
     bool isSubstateOf(const StateID_t parent, const StateID_t child);
     bool isFinalState(const StateID_t state) const;
     bool hasActiveChildren(const StateID_t parent, const bool includeFinal);
+    // check for non-final states which will be entered by ongoing history transition
+    bool hasPendingChildren(const StateID_t parent);
 
     bool isHistoryParentTransition(const PendingEventInfo& event);
     bool getHistoryParent(const StateID_t historyState, StateID_t& outParent);
@@ -161,7 +163,7 @@ private:
 
     // substates can't be entered if their parent refused to be entered
     void cancelForcedTransitions(const StateID_t refusedState);
-    bool processFinalStateTransition(const PendingEventInfo& event, const StateID_t destinationState);
+    void processFinalStateTransition(const PendingEventInfo& event, const StateID_t destinationState);
     HsmEventStatus handleSingleTransition(const StateID_t fromState, const PendingEventInfo& event);
     void clearPendingEvents();
 
-- 
2.43.0


From 4400a08f6149af42d22a60258d1458192dc90a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 50/50] fix: history was lost when parent of the history state
 refused to be entered

---
 src/HsmImpl.cpp | 9 ++++++---
 src/HsmImpl.hpp | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 147676e..3206b3a 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1470,7 +1470,7 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
     return (itHistoryData != mHistoryData.end());
 }
 
-void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
+void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(const std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
     PendingEventInfo historyTransitionEvent = event;
@@ -1509,8 +1509,6 @@ void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<
         mPendingEvents.push_front(historyTransitionEvent);
     }
 
-    previousActiveStates.clear();
-
     StateID_t historyParent = INVALID_HSM_STATE_ID;
 
     if (true == getHistoryParent(destinationState, historyParent)) {
@@ -1717,6 +1715,11 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
                 } else {
                     restoreExitedStates(exitedStates);
                 }
+            } else if (true == isHistoryParentTransition(event)) {
+                // history must be preserved if parent state refused to be entered
+                mHistoryData[fromState].previousActiveStates.clear();
+            } else {
+                // NOTE: do nothing
             }
 
             // all parallel states must be entered or restored before checking if there are any active siblings
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index ed6d970..25c347f 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -157,7 +157,7 @@ private:
                                std::list<StateID_t>& outExitedStates);
 
     bool processHistoryTransition(const PendingEventInfo& event, const StateID_t destinationState, const std::list<StateID_t>& exitedStates);
-    void transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates, const PendingEventInfo& event, const StateID_t destinationState);
+    void transitionToPreviousActiveStates(const std::list<StateID_t>& previousActiveStates, const PendingEventInfo& event, const StateID_t destinationState);
     void transitionToDefaultHistoryState(const StateID_t defaultTarget, const HsmTransitionCallback_t& defaultTargetTransitionCallback, const PendingEventInfo& event, const StateID_t destinationState);
 
 
-- 
2.43.0

