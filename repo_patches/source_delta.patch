From ed23e6fcf58a229ff9bd9a4bde0815f05c46613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 001/120] fix: GlobalEvent: deliver in the phase the event was
 declared with

---
 sparta/sparta/events/GlobalEvent.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/events/GlobalEvent.hpp b/sparta/sparta/events/GlobalEvent.hpp
index effb6d2..461b93c 100644
--- a/sparta/sparta/events/GlobalEvent.hpp
+++ b/sparta/sparta/events/GlobalEvent.hpp
@@ -36,9 +36,9 @@ namespace sparta
         GlobalEventProxy(const GlobalEventProxy&) = default;
         GlobalEventProxy & operator=(const GlobalEventProxy&) = default;
 
-        template<SchedulingPhase sched_phase_T = SchedulingPhase::Update>
-        GlobalEventProxy(const utils::LifeTracker<SpartaHandler> & handler) :
-            phase_(sched_phase_T),
+        GlobalEventProxy(const utils::LifeTracker<SpartaHandler> & handler,
+                         const SchedulingPhase phase = SchedulingPhase::Update) :
+            phase_(phase),
             ev_handler_(handler)
         {}
 
@@ -147,14 +147,14 @@ namespace sparta
             sparta_assert(ev_sched_ptr_ != nullptr);
             sparta_assert(ev_sched_ptr_->getSchedulingPhase() == sched_phase_T);
 
-            ev_sched_ptr_->preparePayload(GlobalEventProxy(ev_handler_lifetime_))->schedule(delay, clk);
+            ev_sched_ptr_->preparePayload(GlobalEventProxy(ev_handler_lifetime_, sched_phase_T))->schedule(delay, clk);
         }
 
         void schedule(const Clock::Cycle & delay) {
             sparta_assert(ev_sched_ptr_ != nullptr);
             sparta_assert(ev_sched_ptr_->getSchedulingPhase() == sched_phase_T);
 
-            ev_sched_ptr_->preparePayload(GlobalEventProxy(ev_handler_lifetime_))->schedule(delay, local_clk_);
+            ev_sched_ptr_->preparePayload(GlobalEventProxy(ev_handler_lifetime_, sched_phase_T))->schedule(delay, local_clk_);
         }
 
         void resetHandler(const SpartaHandler & event_handler) {
-- 
2.43.0


From 0c1f39287fcc32dd9fb7641ee4f5a62d404932e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 002/120] fix: ScheduleableHandle: do not release a reference
 twice on move or self assignment

---
 sparta/sparta/events/Scheduleable.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/events/Scheduleable.hpp b/sparta/sparta/events/Scheduleable.hpp
index 9271852..e6d563f 100644
--- a/sparta/sparta/events/Scheduleable.hpp
+++ b/sparta/sparta/events/Scheduleable.hpp
@@ -547,8 +547,12 @@ namespace sparta
         //! Create an empty Handle
         ScheduleableHandle() = default;
 
-        // Default move
-        ScheduleableHandle(ScheduleableHandle &&) = default;
+        //! Move: take over the original's reference, leaving it empty
+        ScheduleableHandle(ScheduleableHandle && orig) noexcept :
+            scheduleable_(orig.scheduleable_)
+        {
+            orig.scheduleable_ = nullptr;
+        }
 
         //! Copy a Handle, increment the count
         ScheduleableHandle(const ScheduleableHandle & orig)
@@ -610,9 +614,11 @@ namespace sparta
 
         //! Assignment
         ScheduleableHandle & operator=(const ScheduleableHandle & rhs) {
-            disconnect_();
-            scheduleable_ = rhs.scheduleable_;
-            connect_();
+            if(this != &rhs) {
+                disconnect_();
+                scheduleable_ = rhs.scheduleable_;
+                connect_();
+            }
             return *this;
         }
 
-- 
2.43.0


From d4c5e200c311da47e8d6131be88a4bbcf18447a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 003/120] fix: PayloadEvent: keep the payload alive while its
 own callback cancels the event

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 79b7149..d134012 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -133,8 +133,12 @@ namespace sparta
                             << parent_->name_ << " to handler: "
                             << target_consumer_event_handler_.getName());
                 scheduled_ = false;
+
+                // Hold on to this proxy (and the payload) while it is
+                // being delivered, even if the consumer cancels this
+                // event.  It is reclaimed when the last handle goes.
+                const ScheduleableHandle keep_alive(this);
                 target_consumer_event_handler_((const void*)payload_);
-                reclaim_();
             }
 
             PhasedPayloadEvent<DataT> * parent_ = nullptr;
-- 
2.43.0


From 278c1c9218e8231376a0497e0142c08b0251c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 004/120] fix: PayloadEvent: cancel(rel_cycle) returns the
 number of events it cancelled

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index d134012..297d5a7 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -338,14 +338,17 @@ namespace sparta
          * This will cancel all instances of this event at the given cycle.
          */
         uint32_t cancel(Clock::Cycle rel_cycle) {
-            const uint32_t cancel_cnt = inflight_pl_.size();
+            uint32_t cancel_cnt = 0;
             auto bit = inflight_pl_.begin();
             while(bit != inflight_pl_.end()) {
                 auto proxy = *bit;
                 ++bit;
                 // Cancelling the event will change the inflight_pl_
                 // list, hence we cannot use a range for loop
-                proxy->cancel(rel_cycle);
+                if(proxy->scheduled_ && proxy->isScheduled(rel_cycle)) {
+                    proxy->cancel(rel_cycle);
+                    ++cancel_cnt;
+                }
             }
             return cancel_cnt;
         }
-- 
2.43.0


From af5dba389a905876d7324088b19ef1ab956e5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 005/120] fix: Scheduler: forget the interrupted firing group
 when events are cleared after an exception

---
 sparta/src/Scheduler.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index e1af41d..0485d2d 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -241,21 +241,27 @@ void Scheduler::clearEvents()
         debug_ << "Clearing all events";
     }
 
-    uint32_t last_event_idx = current_event_firing_;
     auto tq = current_tick_quantum_;
     while(tq != nullptr)
     {
-        for(auto & events : tq->groups)
+        for(uint32_t grp = 0; grp < tq->groups.size(); ++grp)
         {
+            auto & events = tq->groups[grp];
+
+            // If a callback threw an exception, the Scheduler stopped
+            // in the middle of a group.  The events before that
+            // point were already fired.
+            const bool interrupted_group =
+                (tq == current_tick_quantum_) && (grp == current_group_firing_);
+
             // Iterate each scheduled sparta event, and cancel's it.
             // There's no need to replace the event with a null
             // delegate since the list is to be completely emptied.
-            for(uint32_t i = last_event_idx; i < events.size(); ++i)
+            for(uint32_t i = (interrupted_group ? current_event_firing_ : 0); i < events.size(); ++i)
             {
                 events[i]->eventCancelled_();
             }
             events.clear();
-            last_event_idx = 0;
         }
 
         auto temp_tq = tq;
@@ -265,6 +271,8 @@ void Scheduler::clearEvents()
         tick_quantum_allocator_.free(temp_tq);
     }
     current_tick_quantum_ = nullptr;
+    current_group_firing_ = 0;
+    current_event_firing_ = 0;
     latest_continuing_event_ = 0;
     is_finished_ = true;
 }
-- 
2.43.0


From 246115acb3b552238f574e116e4e810b1fea7703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 006/120] fix: Scheduler: a run that ends before its tick limit
 must not stop or prolong a later run

---
 sparta/sparta/kernel/Scheduler.hpp |  4 +++
 sparta/src/Scheduler.cpp           | 57 +++++++++++++++++++++++++++---
 2 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 24d7d84..4913b29 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -965,6 +965,10 @@ private:
     //! A callback delegate to stop running the scheduler
     std::unique_ptr<Scheduleable> stop_event_;
 
+    //! Remove the stop event of a run that ended before reaching it
+    //! \param stop_tick The tick the stop event was scheduled for
+    void removeStopEvent_(const Tick stop_tick);
+
     //! A callback delegate to replace cancelled events
     std::unique_ptr<Scheduleable> cancelled_event_;
     void cancelCallback_() {}
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 0485d2d..e2d40ec 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -485,7 +485,12 @@ void Scheduler::run(Tick num_ticks,
         timer_.resume();
     }
 
+    // If the user wants to run exactly num_ticks, the Scheduler keeps
+    // going up to this tick even if nothing continuing is scheduled
+    Tick exact_stop_tick = 0;
+
     // Schedule a stop event if a stop time was specified.
+    const Tick stop_tick = calcIndexTime(num_ticks - 1);
     if(num_ticks != INDEFINITE)
     {
         // Check to see if we need to run the Scheduler to the given
@@ -522,10 +527,12 @@ void Scheduler::run(Tick num_ticks,
         }
         else {
             // Schedule a event for now and place it in port grouping
-            // of zero.  Continuing is based on whether or not the
-            // user wants to run exactly num_ticks or just wants an
-            // upper limit on a run.
-            scheduleEvent(stop_event_.get(), num_ticks - 1, 0, exacting_run);
+            // of zero.  Whether or not the user wants to run exactly
+            // num_ticks or just wants an upper limit on a run is
+            // tracked for this run only.
+            constexpr bool continuing = false;
+            scheduleEvent(stop_event_.get(), num_ticks - 1, 0, continuing);
+            exact_stop_tick = exacting_run ? stop_tick : 0;
         }
     }
 
@@ -640,7 +647,7 @@ void Scheduler::run(Tick num_ticks,
         // Two things: if we're finished (i.e. no more tick quantums)
         // or there are no more future continuing events, we're done!
         if(SPARTA_EXPECT_FALSE(is_finished_ ||
-                             (latest_continuing_event_ < current_tick_quantum_->tick)))
+                             (std::max(latest_continuing_event_, exact_stop_tick) < current_tick_quantum_->tick)))
         {
             is_finished_ = true;
             // Note: do future events need to be cleaned up here? Or
@@ -660,6 +667,14 @@ void Scheduler::run(Tick num_ticks,
         }
     }// End run loop.
 
+    // If this run ended before its limit, the limit must not stop (or
+    // prolong) a later run
+    if((num_ticks != INDEFINITE) && (current_tick_ < stop_tick)) {
+        removeStopEvent_(stop_tick);
+        is_finished_ = (current_tick_quantum_ == nullptr) ||
+            (latest_continuing_event_ < current_tick_quantum_->tick);
+    }
+
     // Reset the current group
     current_group_firing_ = 0;
 
@@ -686,6 +701,38 @@ void Scheduler::run(Tick num_ticks,
     }
 }
 
+void Scheduler::removeStopEvent_(const Tick stop_tick)
+{
+    TickQuantum * last_tq = nullptr;
+    TickQuantum * tq = current_tick_quantum_;
+    while((tq != nullptr) && (tq->tick < stop_tick)) {
+        last_tq = tq;
+        tq = tq->next;
+    }
+    if((tq == nullptr) || (tq->tick != stop_tick)) {
+        return;
+    }
+
+    bool empty = true;
+    for(auto & events : tq->groups) {
+        for(uint32_t i = 0; i < events.size(); ++i) {
+            if(events[i] == stop_event_.get()) {
+                events[i] = cancelled_event_.get();
+            }
+            empty &= (events[i] == cancelled_event_.get());
+        }
+    }
+
+    if(empty) {
+        for(auto & events : tq->groups) {
+            events.clear();
+        }
+        (last_tq ? last_tq->next : current_tick_quantum_) = tq->next;
+        tq->next = nullptr;
+        tick_quantum_allocator_.free(tq);
+    }
+}
+
 bool Scheduler::isScheduled(const Scheduleable * scheduleable, Tick rel_time) const
 {
     const uint32_t dag_group =
-- 
2.43.0


From 2ee799192c968d6ce1eed855bb8d0c5e914b5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 007/120] fix: Scheduler: accept asynchronous events for any
 group of the tick about to start

---
 sparta/src/Scheduler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index e2d40ec..c0422f7 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -557,8 +557,9 @@ void Scheduler::run(Tick num_ticks,
         // elapsed tick count > current_tick
         elapsed_ticks_             += std::llabs(int64_t(current_tick_) - int64_t(elapsed_ticks_));
 
-        // Optimization -- start at the first group with events
-        current_group_firing_       = quantum->first_group_idx;
+        // Nothing in this tick was fired yet
+        current_group_firing_       = 0;
+        current_event_firing_       = 0;
 
         for(auto clk : registered_clocks_) {
             clk->updateElapsedCycles(elapsed_ticks_);
@@ -594,6 +595,9 @@ void Scheduler::run(Tick num_ticks,
             }
         }
 
+        // Optimization -- start at the first group with events
+        current_group_firing_       = quantum->first_group_idx;
+
         const uint32_t grp_cnt = firing_group_count_;
         while(current_group_firing_ < grp_cnt)
         {
-- 
2.43.0


From 0bdf06e2f9f52dc8a731c42b8cd265498ce0014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 008/120] fix: UniqueEvent: allow scheduling at a tick that is
 simulated again after Scheduler::restartAt

---
 sparta/sparta/events/PhasedUniqueEvent.hpp | 11 +++++++++--
 sparta/sparta/kernel/Scheduler.hpp         | 14 ++++++++++++++
 sparta/src/Scheduler.cpp                   |  1 +
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/PhasedUniqueEvent.hpp b/sparta/sparta/events/PhasedUniqueEvent.hpp
index 233193b..722620e 100644
--- a/sparta/sparta/events/PhasedUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedUniqueEvent.hpp
@@ -91,7 +91,8 @@ namespace sparta
                                   sparta::Scheduler * scheduler) override final
         {
             sparta_assert(scheduler_);
-            sparta_assert(last_tick_called_ != (scheduler->getCurrentTick() + rel_tick),
+            sparta_assert((last_tick_called_ != (scheduler->getCurrentTick() + rel_tick)) ||
+                          (last_num_event_clears_ != scheduler->getNumEventClears()),
                         "PhasedUniqueEvent (UniqueEvent) '" << getName()
                         << "' was already scheduled and fired this cycle."
                         "\t\nAre you missing a precedence rule?");
@@ -117,7 +118,9 @@ namespace sparta
             // legal ways to create the PhasedUniqueEvent (one includes the
             // lack of a clock), I cannot remember the time...
             if(SPARTA_EXPECT_TRUE(local_clk_ != nullptr)) {
-                last_tick_called_ = local_clk_->getScheduler()->getCurrentTick();
+                const auto * scheduler = local_clk_->getScheduler();
+                last_tick_called_ = scheduler->getCurrentTick();
+                last_num_event_clears_ = scheduler->getNumEventClears();
             }
             pue_consumer_event_handler_();
         }
@@ -134,6 +137,10 @@ namespace sparta
         //! The last time this PhasedUniqueEvent was called -- for sanity checking
         Scheduler::Tick last_tick_called_ = Scheduler::Tick(-1);
 
+        //! The Scheduler's clear count at that time -- last_tick_called_
+        //! means nothing once the Scheduler was restarted
+        uint64_t last_num_event_clears_ = 0;
+
         //! A fancy name for the event handler
         std::string fancy_name_;
     };
diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 4913b29..083afa0 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -458,6 +458,17 @@ public:
      */
     void restartAt(Tick t);
 
+    /*!
+     * \brief The number of times all events were cleared
+     * \return The number of calls to clearEvents() and restartAt()
+     *
+     * Event types that remember when they were last scheduled or
+     * fired use this to detect that this history no longer applies.
+     */
+    uint64_t getNumEventClears() const noexcept {
+        return num_event_clears_;
+    }
+
     /**
      * \brief A method used for debugging the scheduler.
      *        Prints the scheduler's schedule of events.
@@ -990,6 +1001,9 @@ private:
     //! The current event being fired.
     uint32_t current_event_firing_ = 0;
 
+    //! The number of times all events were cleared
+    uint64_t num_event_clears_ = 0;
+
     //! The current SchedulingPhase
     SchedulingPhase current_scheduling_phase_ = SchedulingPhase::Trigger;
 
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index c0422f7..1a714d6 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -275,6 +275,7 @@ void Scheduler::clearEvents()
     current_event_firing_ = 0;
     latest_continuing_event_ = 0;
     is_finished_ = true;
+    ++num_event_clears_;
 }
 
 void Scheduler::restartAt(Tick t)
-- 
2.43.0


From e6f890bef37e2207d3f3e380f379376c9393b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 009/120] fix: SingleCycleUniqueEvent: do not drop events in
 tick 0, after cancel() or after a Scheduler restart

---
 .../events/PhasedSingleCycleUniqueEvent.hpp   | 81 +++++++++++--------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
index 3653b09..5f13c8b 100644
--- a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
@@ -9,7 +9,7 @@
 
 #pragma once
 
-#include <array>
+#include <limits>
 #include <memory>
 #include <string>
 #include "sparta/simulation/TreeNode.hpp"
@@ -88,6 +88,8 @@ namespace sparta
          * \brief Cancel the event for now and one cycle into the future
          */
         void cancel() {
+            forgetIfScheduled_(next_scheduled_tick_);
+            forgetIfScheduled_(prev_scheduled_tick_);
             single_cycle_event_scheduleable_.cancel();
         }
 
@@ -129,35 +131,37 @@ namespace sparta
             const auto to_be_scheduled_abs_tick =
                 local_scheduler_->calcIndexTime(to_be_scheduled_relative_tick);
 
-            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick || is_init_tick_))
-            {
+            // History from before a Scheduler restart means nothing
+            if(SPARTA_EXPECT_FALSE(last_num_event_clears_ != local_scheduler_->getNumEventClears())) {
+                last_num_event_clears_ = local_scheduler_->getNumEventClears();
+                next_scheduled_tick_ = NEVER_SCHEDULED;
+                prev_scheduled_tick_ = NEVER_SCHEDULED;
+            }
+
+            // Already scheduled for that tick
+            if((next_scheduled_tick_ == to_be_scheduled_abs_tick) ||
+               (prev_scheduled_tick_ == to_be_scheduled_abs_tick)) {
+                return;
+            }
+
 #ifndef NDEBUG
-                // This is a handy debug assertion to see if
-                // SingleCycleUniqueEvent is actually only scheduled once.
-                //
-                sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
+            // This is a handy debug assertion to see if
+            // SingleCycleUniqueEvent is actually only scheduled once.
+            //
+            sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
+                          "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
 #endif
-                single_cycle_event_scheduleable_.
-                    scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
+            single_cycle_event_scheduleable_.
+                scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
+
+            if(next_scheduled_tick_ == NEVER_SCHEDULED) {
+                next_scheduled_tick_ = to_be_scheduled_abs_tick;
+            }
+            else if(next_scheduled_tick_ < to_be_scheduled_abs_tick) {
                 prev_scheduled_tick_ = next_scheduled_tick_;
                 next_scheduled_tick_ = to_be_scheduled_abs_tick;
-                is_init_tick_ = false; //only allow one event in tick 0
             }
-            else if((to_be_scheduled_abs_tick < next_scheduled_tick_) &&
-                    (prev_scheduled_tick_ != to_be_scheduled_abs_tick))
-            {
-#ifndef NDEBUG
-                // This is a handy debug assertion to see if
-                // SingleCycleUniqueEvent is actually only scheduled once.
-                //
-                sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
-                sparta_assert(prev_scheduled_tick_ < to_be_scheduled_abs_tick,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue")
-#endif
-                single_cycle_event_scheduleable_.
-                    scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
+            else {
                 prev_scheduled_tick_ = to_be_scheduled_abs_tick;
             }
         }
@@ -196,19 +200,32 @@ namespace sparta
         //! A local scheduler for speed
         Scheduler * local_scheduler_ = nullptr;
 
-        //! The last time this PhasedSingleCycleUniqueEvent was scheduled (rel cycle == [0,1])
-        //std::array<Scheduler::Tick, 2> next_scheduled_tick_ = {0, 0};
-        Scheduler::Tick next_scheduled_tick_ = 0;
-        Scheduler::Tick prev_scheduled_tick_ = 0;
+        //! Forget the given tick if the event is on the Scheduler for
+        //! it, so that it can be scheduled again after being cancelled
+        void forgetIfScheduled_(Scheduler::Tick & tick) {
+            const auto current_tick = local_scheduler_->getCurrentTick();
+            if((tick != NEVER_SCHEDULED) && (tick >= current_tick) &&
+               local_scheduler_->isScheduled(&single_cycle_event_scheduleable_, tick - current_tick)) {
+                tick = NEVER_SCHEDULED;
+            }
+        }
+
+        //! Indicates that no tick is remembered
+        static constexpr Scheduler::Tick NEVER_SCHEDULED = std::numeric_limits<Scheduler::Tick>::max();
+
+        //! The last two ticks this PhasedSingleCycleUniqueEvent was
+        //! scheduled for (rel cycle == [0,1])
+        Scheduler::Tick next_scheduled_tick_ = NEVER_SCHEDULED;
+        Scheduler::Tick prev_scheduled_tick_ = NEVER_SCHEDULED;
+
+        //! The Scheduler's clear count when those were remembered
+        uint64_t last_num_event_clears_ = 0;
 
         //! A fancy name for the event handler
         std::string fancy_name_;
 
         //! The actual scheduled item on the scheduler
         Scheduleable single_cycle_event_scheduleable_;
-
-        //! Track if is in the initial tick = tick 0
-        bool is_init_tick_ = true;
     };
 
 }
-- 
2.43.0


From 21eef2b03bb91d23822ee9909d6a392844c34a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 010/120] fix: Scheduler: isScheduled and cancelEvent must not
 find events that were already fired in this tick

---
 sparta/sparta/kernel/Scheduler.hpp |  6 ++++++
 sparta/src/Scheduler.cpp           | 12 ++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 083afa0..3885b1b 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -976,6 +976,12 @@ private:
     //! A callback delegate to stop running the scheduler
     std::unique_ptr<Scheduleable> stop_event_;
 
+    //! Index of the first event of a group that was not fired yet
+    uint32_t firstPendingIdx_(const TickQuantum * tq, const uint32_t group) const {
+        return ((tq == current_tick_quantum_) && (group == current_group_firing_)) ?
+            current_event_firing_ + 1 : 0;
+    }
+
     //! Remove the stop event of a run that ended before reaching it
     //! \param stop_tick The tick the stop event was scheduled for
     void removeStopEvent_(const Tick stop_tick);
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 1a714d6..fbc9cc3 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -749,9 +749,9 @@ bool Scheduler::isScheduled(const Scheduleable * scheduleable, Tick rel_time) co
         if(rit->tick == index_time)
         {
             // This is the time quantum requested
-            const auto events = rit->groups[dag_group];
+            const auto & events = rit->groups[dag_group];
             const auto grp_size = events.size();
-            for(size_t idx = 0; idx < grp_size; ++idx)
+            for(size_t idx = firstPendingIdx_(rit, dag_group); idx < grp_size; ++idx)
             {
                 if(events[idx] == scheduleable) {
                     return true;
@@ -776,9 +776,9 @@ bool Scheduler::isScheduled(const Scheduleable * scheduleable) const
     const TickQuantum * rit = current_tick_quantum_;
     while(rit != nullptr)
     {
-        const auto events = rit->groups[dag_group];
+        const auto & events = rit->groups[dag_group];
         const auto grp_size = events.size();
-        for(size_t idx = 0; idx < grp_size; ++idx)
+        for(size_t idx = firstPendingIdx_(rit, dag_group); idx < grp_size; ++idx)
         {
             if(events[idx] == scheduleable) {
                 return true;
@@ -802,7 +802,7 @@ void Scheduler::cancelEvent(const Scheduleable * scheduleable)
     while(rit != nullptr)
     {
         TickQuantum::ScheduleableGroup & scheduleables = rit->groups[dag_group];
-        for(uint32_t i = 0; i < scheduleables.size(); ++i)
+        for(uint32_t i = firstPendingIdx_(rit, dag_group); i < scheduleables.size(); ++i)
         {
             if(scheduleables[i] == scheduleable) {
                 scheduleables[i] = cancelled_event_.get();
@@ -835,7 +835,7 @@ void Scheduler::cancelEvent(const Scheduleable * scheduleable, Tick rel_time)
         if(rit->tick == index_time)
         {
             TickQuantum::ScheduleableGroup & scheduleables = rit->groups[dag_group];
-            for(uint32_t i = 0; i < scheduleables.size(); ++i)
+            for(uint32_t i = firstPendingIdx_(rit, dag_group); i < scheduleables.size(); ++i)
             {
                 if(scheduleables[i] == scheduleable) {
                     scheduleables[i]->eventCancelled_();
-- 
2.43.0


From c24b9bfce94f602da1f83cd7ad47b80098f809b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:38 +0000
Subject: [PATCH 011/120] fix: SleeperThread: do not miss the wake up at
 destruction, do not check schedulers that may be gone

---
 sparta/sparta/kernel/SleeperThread.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/kernel/SleeperThread.hpp b/sparta/sparta/kernel/SleeperThread.hpp
index 80ac77c..ab3c7d9 100644
--- a/sparta/sparta/kernel/SleeperThread.hpp
+++ b/sparta/sparta/kernel/SleeperThread.hpp
@@ -7,6 +7,8 @@
 
 #pragma once
 
+#include <atomic>
+
 #include "sparta/kernel/SleeperThreadBase.hpp"
 
 namespace sparta{
@@ -86,11 +88,20 @@ private:
         }
 
         struct timespec sleep_timespec;
+
         // This thread keeps going until the SleeperThread destructs.
-        while(keep_going_)
+        while(true)
         {
             // sleep then check if main thread progressed.
 
+            // The wake up sent by the destructor must not be missed
+            // between looking at keep_going_ and waiting.
+            pthread_mutex_lock(&sleeper_mutex_);
+            if(!keep_going_) {
+                pthread_mutex_unlock(&sleeper_mutex_);
+                break;
+            }
+
             // wait on the condition variable or for 30 seconds.
             // This is necessary so for short runs of simulation,
             // runs that are only a few seconds, when simulation is
@@ -101,10 +112,16 @@ private:
             pthread_cond_timedwait(&sleeper_cond_,
                                    &sleeper_mutex_,
                                    &sleep_timespec);
+            pthread_mutex_unlock(&sleeper_mutex_);
 
             // pause if necessary.
             pthread_mutex_lock(&pause_mutex_);
 
+            // The SleeperThread destructs: there's nothing left to check
+            if(!keep_going_) {
+                pthread_mutex_unlock(&pause_mutex_);
+                break;
+            }
 
             // ------------------------------------------
             // check if we should timeout.
@@ -366,7 +383,9 @@ public:
         if (thread_spawned_){
 
             // Now wake up the thread if it's asleep so it can exit, and we can reap it.
+            pthread_mutex_lock(&sleeper_mutex_);
             pthread_cond_signal(&sleeper_cond_);
+            pthread_mutex_unlock(&sleeper_mutex_);
 
             // Now reap the thread.
             if(pthread_join(protector_thread_, 0) != 0)
@@ -420,7 +439,7 @@ private:
     std::chrono::seconds last_time_check_ = std::chrono::seconds::zero(); //! The last time we checked the scheduler's running time. in seconds.
     pthread_mutex_t pause_mutex_ = PTHREAD_MUTEX_INITIALIZER; //! Used to put the thread to sleep.
     bool paused_ = false; //! Are we paused or not.
-    bool keep_going_ = true; //! A boolean to keep the spawned thread alive until we flip this boolean at destruction.
+    std::atomic<bool> keep_going_{true}; //! A boolean to keep the spawned thread alive until we flip this boolean at destruction.
 
     bool clean_timeout_   = false; //! Should we exit cleaning on a timeout.
     bool timeout_enabled_ = false; //! Do we need to timeout at all.
-- 
2.43.0


From 76c27db2f994f17494fab995389e4dee6f665e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:38 +0000
Subject: [PATCH 012/120] fix: SleeperThread: detect an infinite loop after a
 clean timeout was reached

---
 sparta/sparta/kernel/SleeperThread.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/kernel/SleeperThread.hpp b/sparta/sparta/kernel/SleeperThread.hpp
index ab3c7d9..c42b78a 100644
--- a/sparta/sparta/kernel/SleeperThread.hpp
+++ b/sparta/sparta/kernel/SleeperThread.hpp
@@ -151,6 +151,7 @@ private:
                             // so explicity allow this
                             // Notice my loop will call stopRunning on all the schedulers assigned eventually.
                             const_cast<Scheduler*>(scheduler)->stopRunning();
+                            stop_requested_ = true;
                             // Notice that we do not need to set keep_going_ to false here.
                             // we could I guess, it should not hurt. But it is the scheduler's
                             // responsibility to stop and reap this thread, and that also means ending
@@ -179,7 +180,10 @@ private:
                     std::chrono::seconds new_run_time_seconds = scheduler->getRunCpuTime<std::chrono::seconds>();
                     if(new_run_time_seconds - last_time_check_ >= sleep_interval_)
                     {
-                        if(scheduler->isRunning() && scheduler->getCurrentTick() == prev_ticks_[idx])
+                        // A Scheduler asked to stop does not report to be running,
+                        // but a callback that never returns keeps it from stopping
+                        if((scheduler->isRunning() || stop_requested_) &&
+                           scheduler->getCurrentTick() == prev_ticks_[idx])
                         {
                             // We throw an exception.
                             std::cerr << SPARTA_CURRENT_COLOR_RED
@@ -441,6 +445,7 @@ private:
     bool paused_ = false; //! Are we paused or not.
     std::atomic<bool> keep_going_{true}; //! A boolean to keep the spawned thread alive until we flip this boolean at destruction.
 
+    bool stop_requested_  = false; //! Did a clean timeout ask the schedulers to stop.
     bool clean_timeout_   = false; //! Should we exit cleaning on a timeout.
     bool timeout_enabled_ = false; //! Do we need to timeout at all.
     std::chrono::nanoseconds timeout_time_; //! when the current time wall time is > timeout_time_, then we should exit.
-- 
2.43.0


From a37238005b56adbee8a9b02618a55e56645fce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 013/120] fix: Scheduler: a run ended by an exception stops the
 run timer and pauses the background thread

---
 sparta/src/Scheduler.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index fbc9cc3..68b5f37 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -460,6 +460,17 @@ void Scheduler::run(Tick num_ticks,
         return;
     }
 
+    // However this run ends (a callback might throw), the time after it
+    // does not count as run time
+    struct RunEnd {
+        explicit RunEnd(boost::timer::cpu_timer & t) : timer(t) {}
+        ~RunEnd() {
+            SleeperThread::getInstance()->pause();
+            timer.stop();
+        }
+        boost::timer::cpu_timer & timer;
+    } run_end(timer_);
+
     // unpause infinite loop protection if we need
     SleeperThread::getInstance()->unpause();
 
-- 
2.43.0


From 8bf7a5f626566a98becf85cc34b82d87750d79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 014/120] fix: Scheduler: restartAt must not expire or break
 the watchdog

---
 sparta/src/Scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 68b5f37..6297575 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -292,6 +292,7 @@ void Scheduler::restartAt(Tick t)
 
     clearEvents();
     current_tick_ = t;
+    prev_wdt_tick_ = t; // Time does not run from the last kick to here
     if(first_tick_ || (t == 0)) {
         elapsed_ticks_ = t;
     }
-- 
2.43.0


From c5f845105340d839c641e3b6c9a69126ab889e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 015/120] fix: Scheduler: clearing all events or restarting
 also drops pending asynchronous events

---
 sparta/sparta/kernel/Scheduler.hpp |  3 +++
 sparta/src/Scheduler.cpp           | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 3885b1b..506c74f 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -982,6 +982,9 @@ private:
             current_event_firing_ + 1 : 0;
     }
 
+    //! Clear all events but those scheduled asynchronously and not picked up yet
+    void clearScheduledEvents_();
+
     //! Remove the stop event of a run that ended before reaching it
     //! \param stop_tick The tick the stop event was scheduled for
     void removeStopEvent_(const Tick stop_tick);
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 6297575..216e449 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -225,7 +225,8 @@ void Scheduler::finalize()
         dag_finalized_ = true;
         current_group_firing_ = 0;
 
-        restartAt(0);
+        clearScheduledEvents_();
+        elapsed_ticks_ = 0;
 
         // The scheduler always starts on tick 1.
         current_tick_ = 0; //init tick 0
@@ -237,6 +238,18 @@ void Scheduler::clearEvents()
 {
     sparta_assert(!running_, "Cannot clear events on the scheduler if it is running");
 
+    {
+        // Asynchronous events not picked up yet
+        std::unique_lock<std::mutex> lock(async_event_list_mutex_);
+        async_event_list_.clear();
+        async_event_list_empty_hint_ = true;
+    }
+
+    clearScheduledEvents_();
+}
+
+void Scheduler::clearScheduledEvents_()
+{
     if(SPARTA_EXPECT_FALSE(debug_)) {
         debug_ << "Clearing all events";
     }
-- 
2.43.0


From e9b7c2182a391e9a1b06e6d991770201d501cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 016/120] fix: SleeperThread: start and end of the timeout are
 read from the same clock

---
 sparta/sparta/kernel/SleeperThread.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/kernel/SleeperThread.hpp b/sparta/sparta/kernel/SleeperThread.hpp
index c42b78a..9299213 100644
--- a/sparta/sparta/kernel/SleeperThread.hpp
+++ b/sparta/sparta/kernel/SleeperThread.hpp
@@ -73,6 +73,17 @@ private:
     }
 
 
+    //! The time a scheduler has been running, by the clock of the timeout
+    std::chrono::nanoseconds getRunTime_(const Scheduler * scheduler) const
+    {
+        // whether we should use wall time or the processes cpu time.
+        if(timeout_clock_is_wall_)
+        {
+            return scheduler->getRunWallTime<std::chrono::nanoseconds>();
+        }
+        return scheduler->getRunCpuTime<std::chrono::nanoseconds>();
+    }
+
     //! This is where the infinite loop protector thread lives almost
     // it's whole life.
     void sleeperThreadCtx_()
@@ -83,7 +94,7 @@ private:
         {
             for (auto scheduler : schedulers_)
             {
-                timeout_times.emplace_back(scheduler->getRunWallTime<std::chrono::nanoseconds>() + timeout_time_);
+                timeout_times.emplace_back(getRunTime_(scheduler) + timeout_time_);
             }
         }
 
@@ -132,15 +143,7 @@ private:
                 for (auto scheduler : schedulers_)
                 {
 
-                    // whether we should use wall time or the processes cpu time.
-                    if(timeout_clock_is_wall_)
-                    {
-                        runtime = scheduler->getRunWallTime<std::chrono::nanoseconds>();
-                    }
-                    else
-                    {
-                        runtime = scheduler->getRunCpuTime<std::chrono::nanoseconds>();
-                    }
+                    runtime = getRunTime_(scheduler);
                     // we need to timeout.
                     if( runtime > timeout_times[i])
                     {
-- 
2.43.0


From f48a10a1a6cca8b934bab81b2c0fe771c54f9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 017/120] fix: SleeperThread: simulating a tick again after a
 restart is not an infinite loop

---
 sparta/sparta/kernel/SleeperThread.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/kernel/SleeperThread.hpp b/sparta/sparta/kernel/SleeperThread.hpp
index 9299213..84256e5 100644
--- a/sparta/sparta/kernel/SleeperThread.hpp
+++ b/sparta/sparta/kernel/SleeperThread.hpp
@@ -186,7 +186,8 @@ private:
                         // A Scheduler asked to stop does not report to be running,
                         // but a callback that never returns keeps it from stopping
                         if((scheduler->isRunning() || stop_requested_) &&
-                           scheduler->getCurrentTick() == prev_ticks_[idx])
+                           scheduler->getCurrentTick() == prev_ticks_[idx] &&
+                           scheduler->getNumEventClears() == prev_clears_[idx])
                         {
                             // We throw an exception.
                             std::cerr << SPARTA_CURRENT_COLOR_RED
@@ -204,6 +205,7 @@ private:
                         }
 
                         prev_ticks_[idx] = scheduler->getCurrentTick();
+                        prev_clears_[idx] = scheduler->getNumEventClears();
                         last_time_check_ = new_run_time_seconds;
                     }
                     ++idx;
@@ -353,6 +355,7 @@ public:
     {
         schedulers_.emplace_back(scheduler);
         prev_ticks_.emplace_back(0);
+        prev_clears_.emplace_back(scheduler->getNumEventClears());
     }
 
     /*!
@@ -371,6 +374,8 @@ public:
     {
         auto iter = std::find(schedulers_.begin(), schedulers_.end(), scheduler);
         if (iter != schedulers_.end()) {
+            prev_ticks_.erase(prev_ticks_.begin() + (iter - schedulers_.begin()));
+            prev_clears_.erase(prev_clears_.begin() + (iter - schedulers_.begin()));
             schedulers_.erase(iter);
             return true;
         }
@@ -432,6 +437,8 @@ private:
     std::vector<const Scheduler*> schedulers_; //! A list of scheduler's we check up on
     std::vector<uint64_t> prev_ticks_; //! The previous tick from the last time we slept for the scheduler's we are checking on.
 
+    std::vector<uint64_t> prev_clears_; //! The number of times a scheduler was cleared or restarted, from the last time we checked.
+
     bool never_create_a_thread_=false; //! Guarantee that a thread is never spawned.
     bool enabled_ = false; //! Has the singleton already been enabled.
     bool thread_spawned_ = false;
-- 
2.43.0


From 5f1be4b4c0db5ea505484ba908439ea9438baca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:18 +0000
Subject: [PATCH 018/120] fix: DataPort, SignalPort: do not truncate send
 delays to 32 bits

---
 sparta/sparta/ports/DataPort.hpp   | 2 +-
 sparta/sparta/ports/SignalPort.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/ports/DataPort.hpp b/sparta/sparta/ports/DataPort.hpp
index 5e2c364..fbd9bc6 100644
--- a/sparta/sparta/ports/DataPort.hpp
+++ b/sparta/sparta/ports/DataPort.hpp
@@ -503,7 +503,7 @@ namespace sparta
          */
         void send_(const DataT & dat, sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const sparta::Clock::Cycle total_delay = rel_time + port_delay_;
 
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
diff --git a/sparta/sparta/ports/SignalPort.hpp b/sparta/sparta/ports/SignalPort.hpp
index 5957dad..55e1c9d 100644
--- a/sparta/sparta/ports/SignalPort.hpp
+++ b/sparta/sparta/ports/SignalPort.hpp
@@ -282,7 +282,7 @@ namespace sparta
          */
         void send_(sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const sparta::Clock::Cycle total_delay = rel_time + port_delay_;
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
             {
-- 
2.43.0


From 55b8e963103156ecf2f92fd420689d55c34da994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:18 +0000
Subject: [PATCH 019/120] fix: SyncOutPort: isReady() is false once data was
 sent in this cycle

---
 sparta/sparta/ports/SyncPort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 3a64f08..d10190e 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -856,7 +856,7 @@ namespace sparta
         bool couldAccept_(const Clock *send_clk) const {
 
             Scheduler::Tick num_delay_ticks =
-                calculateClockCrossingDelay(send_clk->currentTick(), send_clk, receive_delay_ticks_, receiver_clock_);
+                calculateClockCrossingDelay(0 /*src_delay*/, send_clk, receive_delay_ticks_, receiver_clock_);
 
             sparta::Scheduler::Tick cur_tick =
                 scheduler_->getCurrentTick();
-- 
2.43.0


From 158ad9bf77364a618db8e97130256d63f4694b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:26 +0000
Subject: [PATCH 020/120] fix: Pipe: flushIf must not count flushed appended
 data as a valid stage

---
 sparta/sparta/resources/Pipe.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipe.hpp b/sparta/sparta/resources/Pipe.hpp
index f041552..10322b6 100644
--- a/sparta/sparta/resources/Pipe.hpp
+++ b/sparta/sparta/resources/Pipe.hpp
@@ -385,7 +385,8 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(pe.data.getValue() == criteria){
-                    if(pe.data.isValid()) {
+                    // Appended data (stage -1) is not counted in num_valid_
+                    if(i >= 0) {
                         --num_valid_;
                     }
                     pe.data.clearValid();
@@ -408,7 +409,8 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(compare(pe.data.getValue())){
-                    if(pe.data.isValid()) {
+                    // Appended data (stage -1) is not counted in num_valid_
+                    if(i >= 0) {
                         --num_valid_;
                     }
                     pe.data.clearValid();
-- 
2.43.0


From db1b80286ca60137a27d7fcec045d3379560686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 021/120] fix: SharedData: writing twice in one cycle must not
 lose the written data

---
 sparta/sparta/resources/SharedData.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/SharedData.hpp b/sparta/sparta/resources/SharedData.hpp
index 8b23e9c..9d67856 100644
--- a/sparta/sparta/resources/SharedData.hpp
+++ b/sparta/sparta/resources/SharedData.hpp
@@ -65,7 +65,8 @@ namespace sparta
         SharedData(const std::string & name,
                    const Clock * clk,
                    U && init_val = U()) :
-            ev_update_(clk, CREATE_SPARTA_HANDLER(SharedData, update_))
+            ev_update_(clk, CREATE_SPARTA_HANDLER(SharedData, update_)),
+            clk_(clk)
         {
             writePS(std::forward<U>(init_val));
         }
@@ -73,6 +74,7 @@ namespace sparta
         SharedData(const SharedData& rhs) :
             ev_update_(rhs.ev_update_),
             current_state_(rhs.current_state_),
+            clk_(rhs.clk_),
             data_(rhs.data_)
         {
             resetHandler_();
@@ -81,6 +83,7 @@ namespace sparta
         SharedData(SharedData&& rhs) :
             ev_update_(std::move(rhs.ev_update_)),
             current_state_(std::move(rhs.current_state_)),
+            clk_(rhs.clk_),
             data_(std::move(rhs.data_))
         {
             resetHandler_();
@@ -92,6 +95,8 @@ namespace sparta
             resetHandler_();
 
             current_state_ = rhs.current_state_;
+            clk_ = rhs.clk_;
+            update_tick_ = 0;
             data_ = rhs.data_;
 
             return *this;
@@ -103,6 +108,8 @@ namespace sparta
             resetHandler_();
 
             current_state_ = std::move(rhs.current_state_);
+            clk_ = rhs.clk_;
+            update_tick_ = 0;
             data_ = std::move(rhs.data_);
 
             return *this;
@@ -233,7 +240,14 @@ namespace sparta
         void writeImpl_(U && dat) {
             data_[NState_()] = std::forward<U>(dat);
             if constexpr (!manual_update) {
-                ev_update_.schedule(1);
+                // Only one update for all writes of a cycle: another
+                // one would shift the updated value away again
+                const auto now = clk_->currentTick();
+                const auto update_in = clk_->getTick(Clock::Cycle(1));
+                if(update_tick_ <= now || update_tick_ > now + update_in) {
+                    ev_update_.schedule(1);
+                    update_tick_ = now + update_in;
+                }
             }
         }
 
@@ -249,6 +263,13 @@ namespace sparta
         // Current state
         uint32_t current_state_ = 0;
 
+        // The clock of the updates
+        const Clock * clk_;
+
+        // Tick of the latest scheduled update. Like the update itself,
+        // this is not copied
+        Clock::Cycle update_tick_ = 0;
+
         // The PS/NS data
         PSNSData data_;
     };
-- 
2.43.0


From 471faa4612ce9c008f691a090e8bd72403b77d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:00 +0000
Subject: [PATCH 022/120] fix: Pipeline: the end of a stall must not activate
 stages the user deactivated

---
 sparta/sparta/resources/Pipeline.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index b7f58f8..016b34a 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -258,6 +258,7 @@ namespace sparta
                           "Error: Pipeline is templated on a unsupported Event type. Supported Event types: "
                           "UniqueEvent, PayloaodEvent (where DataT == DataT of the Pipeline).");
             events_valid_at_stage_.resize(num_stages, false);
+            events_suppressed_at_stage_.resize(num_stages, false);
             advance_into_stage_.resize(num_stages, true);
 
             ev_pipeline_update_.setScheduleableClock(clk);
@@ -594,6 +595,7 @@ namespace sparta
                           "Activation fails: No registered event handler for stage[" << id << "]!");
 
             events_valid_at_stage_[id] = true;
+            events_suppressed_at_stage_[id] = false;
         }
 
         /*!
@@ -612,6 +614,7 @@ namespace sparta
                           "Deactivation fails: No registered event handler for stage[" << id << "]!");
 
             events_valid_at_stage_[id] = false;
+            events_suppressed_at_stage_[id] = false;
         }
 
         /*!
@@ -1067,8 +1070,10 @@ namespace sparta
                     return; // bubble, crush it by allowing earlier stages to advance
                 }
 
-                if (suppress_events && event_list_at_stage_[stage_id].size() > 0) {
+                // Stages the user deactivated stay deactivated after the stall
+                if (suppress_events && events_valid_at_stage_[stage_id]) {
                     events_valid_at_stage_[stage_id] = false;
+                    events_suppressed_at_stage_[stage_id] = true;
                 }
                 advance_into_stage_[stage_id] = false;
             }
@@ -1080,8 +1085,9 @@ namespace sparta
             for (uint32_t stage_id = 0; stage_id <= stall_stage_id; stage_id++) {
                 sparta_assert(stage_id < num_stages_,
                               "Try to restart invalid pipeline stage[" << stage_id << "]");
-                if (event_list_at_stage_[stage_id].size() > 0) {
+                if (events_suppressed_at_stage_[stage_id]) {
                     events_valid_at_stage_[stage_id] = true;
+                    events_suppressed_at_stage_[stage_id] = false;
                 }
                 advance_into_stage_[stage_id] = true;
             }
@@ -1107,6 +1113,10 @@ namespace sparta
 
         //! A vector of valid/active bits for pipeline stage events
         std::vector<bool> events_valid_at_stage_;
+
+        //! Stages whose events are inactive only because of the present stall
+        std::vector<bool> events_suppressed_at_stage_;
+
         std::vector<bool> advance_into_stage_;
 
         //! A vector of event index matrix for every pipeline stage
-- 
2.43.0


From 1f5cc8c32c5d1bd235081c840cbe94d51c6b1a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 023/120] fix: Pipeline: flushing a stage cancels its scheduled
 events even if it was stalled or invalidated since

---
 sparta/sparta/resources/Pipeline.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index 016b34a..c06ff8a 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -1029,11 +1029,10 @@ namespace sparta
         {
             sparta_assert(stage_id < num_stages_,
                           "Try to cancel events for invalid pipeline stage[" << stage_id << "]");
-            if (pipe_.isValid(stage_id) && events_valid_at_stage_[stage_id]) {
-                sparta_assert(event_list_at_stage_[stage_id].size());
-                for (const auto & ev_ptr :  event_list_at_stage_[stage_id]) {
-                    ev_ptr->cancel(sparta::Clock::Cycle(0));
-                }
+            // The stage might have been invalidated, or its events
+            // deactivated, after the events were scheduled
+            for (const auto & ev_ptr :  event_list_at_stage_[stage_id]) {
+                ev_ptr->cancel(sparta::Clock::Cycle(0));
             }
         }
 
-- 
2.43.0


From dc34bb90a6133d26e1872df5e0d6d55f230572ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 024/120] fix: Scoreboard: an update in flight must not set
 registers cleared since

---
 sparta/sparta/resources/Scoreboard.hpp | 11 +++++++
 sparta/src/Scoreboard.cpp              | 40 ++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/resources/Scoreboard.hpp b/sparta/sparta/resources/Scoreboard.hpp
index 695a551..9d898ca 100644
--- a/sparta/sparta/resources/Scoreboard.hpp
+++ b/sparta/sparta/resources/Scoreboard.hpp
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <array>
 #include <vector>
 #include <cinttypes>
 #include <string>
@@ -169,8 +170,18 @@ namespace sparta
         struct ScoreboardUpdate {
             RegisterBitMask bits;
             UnitID    producer;
+            uint64_t  num_clears; // how many clears the update came after
         };
 
+        // Number of calls to clearBits so far, and what that number
+        // was when a register got cleared last
+        uint64_t num_clears_ = 0;
+        std::array<uint64_t, MAX_REGISTERS> last_clear_{};
+
+        // Deliver an update to a view, without the bits that were
+        // cleared since it was made
+        void deliverToView_(const ScoreboardUpdate &, ScoreboardView *) const;
+
         // PayloadEvent used to deliver the Scoreboard contents to the views
         struct ScoreboardViewUpdate
         {
diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 40d9061..8cdd9f1 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -149,15 +149,17 @@ namespace sparta
 
     void Scoreboard::set(const Scoreboard::RegisterBitMask & bits)
     {
+        global_reg_ready_mask_ |= bits;
+
         // Update registered scoreboards immediately
+        const ScoreboardUpdate update{bits, INVALID_UNIT_ID, num_clears_};
         for(auto & sbvs : unit_id_to_scoreboard_views_)
         {
             for (auto * sbv : sbvs)
             {
-                sbv->receiveScoreboardUpdate_(bits, INVALID_UNIT_ID);
+                deliverToView_(update, sbv);
             }
         }
-        global_reg_ready_mask_ |= bits;
     }
 
     void Scoreboard::set(const Scoreboard::RegisterBitMask & bits, Scoreboard::UnitID producer)
@@ -165,16 +167,18 @@ namespace sparta
         sparta_assert(producer < forwarding_latencies_.size(),
                       "could not find producer ID in forwarding_latencies table");
 
+        global_reg_ready_mask_ |= bits;
+
+        const ScoreboardUpdate update{bits, producer, num_clears_};
         for(auto [sbv, latency] : producer_to_consumer_scoreboard_views_[producer])
         {
             if(latency != 0) {
                 scoreboard_view_updates_.
-                    preparePayload(ScoreboardViewUpdate{{bits, producer}, sbv, false})->schedule(latency);
+                    preparePayload(ScoreboardViewUpdate{update, sbv, false})->schedule(latency);
             } else {
-                sbv->receiveScoreboardUpdate_(bits, producer);
+                deliverToView_(update, sbv);
             }
         }
-        global_reg_ready_mask_ |= bits;
     }
 
     void Scoreboard::clearBits(const Scoreboard::RegisterBitMask & bits)
@@ -182,6 +186,14 @@ namespace sparta
         const auto inv_bits     = ~bits;
         global_reg_ready_mask_ &= inv_bits;
 
+        // Updates still on their way must not set these bits anymore
+        ++num_clears_;
+        for(uint32_t reg = 0; reg < MAX_REGISTERS; ++reg) {
+            if(bits.test(reg)) {
+                last_clear_[reg] = num_clears_;
+            }
+        }
+
         // Update registered scoreboards
         for(auto & sbvs : unit_id_to_scoreboard_views_) {
             for (auto * sbv : sbvs) {
@@ -223,7 +235,23 @@ namespace sparta
     // Payload receiving methods
     void Scoreboard::deliverScoreboardUpdate_(const ScoreboardViewUpdate & update)
     {
-        update.second->receiveScoreboardUpdate_(update.first.bits, update.first.producer);
+        deliverToView_(update.first, update.second);
+    }
+
+    void Scoreboard::deliverToView_(const ScoreboardUpdate & update, ScoreboardView * view) const
+    {
+        auto bits = update.bits;
+        if(update.num_clears != num_clears_) {
+            for(uint32_t reg = 0; reg < MAX_REGISTERS; ++reg) {
+                if(last_clear_[reg] > update.num_clears) {
+                    bits.reset(reg);
+                }
+            }
+            if(bits.none()) {
+                return; // all of them were cleared
+            }
+        }
+        view->receiveScoreboardUpdate_(bits, update.producer);
     }
 
     ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6db58e372c91c046cd564a1af1cc32b846de2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 025/120] fix: ScoreboardView: ready callbacks may set bits and
 add or clear callbacks

---
 sparta/src/Scoreboard.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 8cdd9f1..4014fa8 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -288,14 +288,16 @@ namespace sparta
         local_ready_mask_ |= bits;
 
         auto cbit = ready_callbacks_.begin();
-        const auto eit = ready_callbacks_.end();
-        while(cbit != eit)
+        while(cbit != ready_callbacks_.end())
         {
-            const auto & cb_data = *cbit;
-            if (cb_data.needed_bits == (local_ready_mask_ & cb_data.needed_bits))
+            if (cbit->needed_bits == (local_ready_mask_ & cbit->needed_bits))
             {
-                cb_data.callback(bits);
-                cbit = ready_callbacks_.erase(cbit);
+                // The callback can set bits and add or clear callbacks:
+                // take it out first, and start over behind it
+                ReadinessCallbacks called;
+                called.splice(called.end(), ready_callbacks_, cbit);
+                called.front().callback(bits);
+                cbit = ready_callbacks_.begin();
                 continue;
             }
             ++cbit;
-- 
2.43.0


From d25422d3da28c62605f41b22eef97eab6ada698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 026/120] fix: Scoreboard: a new view starts with the registers
 that are ready, even if there are none

---
 sparta/src/Scoreboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 4014fa8..31879fc 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -219,7 +219,7 @@ namespace sparta
                       "Ack!  Bug in Scoreboard registerView.  The unit_name_to_id_ map "
                       "is outta wack with with the unit_id_to_scoreboard_views_ vector");
         unit_id_to_scoreboard_views_[unit_id].emplace_back(view);
-        view->receiveScoreboardUpdate_(Scoreboard::RegisterBitMask({global_reg_ready_mask_}), INVALID_UNIT_ID);
+        view->local_ready_mask_ = global_reg_ready_mask_;
         // Setup the mapping from other producers to this scoreboard view as consumer
         for(uint32_t producer = 0; producer < producer_to_consumer_scoreboard_views_.size(); ++producer)
         {
-- 
2.43.0


From 7c087c9385f54abe2059dd21df06a817a6bb96c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 027/120] fix: Scoreboard: read latencies in the same number
 formats the validation accepts

---
 sparta/src/Scoreboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 31879fc..85f2d0c 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -133,7 +133,7 @@ namespace sparta
             {
                 try {
                     forwarding_latencies_[producer_id][consumer_column_idx - 1] =
-                        std::stol(producer_row[consumer_column_idx]);
+                        std::stol(producer_row[consumer_column_idx], nullptr, 0);
                 }
                 catch(...) {
                     sparta_assert(false, "Error while trying to convert " <<
-- 
2.43.0


From 31cffce7885771cc8535a732e226fc06681345d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 028/120] fix: Buffer::insert records the data pool index of
 the inserted entry, not of the last one

An infinite buffer rebuilds its map from these indexes when it grows; after
an insertion before the end the entries came out permuted and duplicated.
---
 sparta/sparta/resources/Buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 9c7adc8..ccd0880 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -995,7 +995,7 @@ namespace sparta
             // Store the index in the data_pool_ to which current
             // free_position_ points to. We need to relink all these
             // pointers once the data_pool_ resizes.
-            address_map_[num_valid_] =
+            address_map_[idx] =
                 static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             ++num_valid_;
             free_position_ = free_position_->next_free;
-- 
2.43.0


From a42b7b73c09a6e94853d14e4849b967774dd252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 029/120] fix: moving a Buffer's data pool moves the live
 entries and keeps their index

Growing an infinite buffer copied the entries' bytes without moving the
objects, which is not valid for types that hold pointers into themselves
(std::string), and lost physical_idx, so iteration over the grown buffer
never reached end().
---
 sparta/sparta/resources/Buffer.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index ccd0880..9589742 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -101,9 +101,14 @@ namespace sparta
             DataPointer() { }
             ~DataPointer() { }
 
-            DataPointer(DataPointer &&orig) noexcept {
-                ::memcpy(&object_memory_, &orig.object_memory_, sizeof(object_memory_));
-                data = reinterpret_cast<value_type*>(&object_memory_);
+            DataPointer(DataPointer &&orig) noexcept :
+                next_free(orig.next_free),
+                physical_idx(orig.physical_idx)
+            {
+                if(orig.data) {
+                    allocate(std::move(*orig.data));
+                    orig.destroy();
+                }
             }
 
             // No copies, only moves
@@ -114,6 +119,11 @@ namespace sparta
                 data = new (&object_memory_) value_type(std::forward<U>(dat));
             }
 
+            void destroy() {
+                data->~value_type();
+                data = nullptr;
+            }
+
             value_type * data         = nullptr;
             DataPointer* next_free    = nullptr;
             uint32_t     physical_idx = 0; /*!< What index does this data currently reside */
@@ -633,7 +643,7 @@ namespace sparta
             // 3. Set the current free space pointer's next to the old free position
             DataPointer* oldFree = free_position_;
             free_position_ = buffer_map_[idx];
-            free_position_->data->~value_type();
+            free_position_->destroy();
             free_position_->next_free = oldFree;
 
             // Mark DataPointer as invalid
@@ -698,7 +708,7 @@ namespace sparta
                           [] (auto map_entry)
                           {
                               if(map_entry) {
-                                  map_entry->data->~value_type();
+                                  map_entry->destroy();
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
-- 
2.43.0


From 1860debb7c612a44850a3a98594349b21e335b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 030/120] fix: Buffer::erase refuses an iterator to an entry
 that is already gone

The class documentation says it throws; instead it erased whichever entry
had moved to the old index.
---
 sparta/sparta/resources/Buffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 9589742..ed8d73e 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -683,6 +683,8 @@ namespace sparta
         {
             sparta_assert(entry.attached_buffer_ == this,
                           "Cannot erase an entry created by another Buffer");
+            sparta_assert(entry.isValid(),
+                          "Cannot erase an entry that is no longer valid");
             // erase the index in the actual buffer.
             erase(entry.getIndex_());
             return {this, buffer_map_[entry.getIndex_()]};
-- 
2.43.0


From b4269a83c79e44fbcd8f310c0a94d2fba3c08ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 031/120] fix: clearing or destroying a Buffer without entries
 (moved from, zero capacity) stays in bounds

---
 sparta/sparta/resources/Buffer.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index ed8d73e..44d4b5d 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -714,12 +714,14 @@ namespace sparta
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
-            for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
-                data_pool_[i].next_free = &data_pool_[i + 1];
+            if(data_pool_size_ != 0) {
+                for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
+                    data_pool_[i].next_free = &data_pool_[i + 1];
+                }
+                data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
+                free_position_ = &data_pool_[0];
+                first_position_ = &data_pool_[0];
             }
-            data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
-            free_position_ = &data_pool_[0];
-            first_position_ = &data_pool_[0];
             validator_->clear();
             address_map_.clear();
             updateUtilizationCounters_();
-- 
2.43.0


From f4a8a18f0bf9545bfec6de81450574f9685a51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 032/120] fix: Array::write destroys the entry it overwrites

The old object was never destroyed (its memory and references leaked), and a
copy that threw left the entry valid but missing from the age list and the
occupancy count.
---
 sparta/sparta/resources/Array.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index 15e0432..4c69a8c 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -936,16 +936,22 @@ namespace sparta
             // We're overwriting an entry, clear valid and age information.
             if(SPARTA_EXPECT_FALSE(isValid(idx)))
             {
+                // The new data might be (part of) the entry being
+                // overwritten and its construction might throw
+                DataT new_data(std::forward<U>(dat));
                 --num_valid_;
                 if constexpr (ArrayT == ArrayType::AGED) {
                     aged_list_.erase(array_[idx].list_pointer);
                 }
+                array_[idx].~ArrayPosition();
+                new (array_.get() + idx) ArrayPosition(std::move(new_data));
+            }
+            else {
+                // Since we are not timed. Write the data and validate it,
+                // then do pipeline collection.
+                new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
+                valid_index_set_.insert(idx);
             }
-
-            // Since we are not timed. Write the data and validate it,
-            // then do pipeline collection.
-            new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
-            valid_index_set_.insert(idx);
 
             // Timestamp the entry in the array, for fast age comparison between two indexes.
             array_[idx].age_abs_id = next_age_abs_id_;
-- 
2.43.0


From 1e1acb57c9574e4b81c2d502380d3f2846dee5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 033/120] fix: Array::erase takes the index by value

Given a reference into getAgedList() it read the index again after removing
that very list entry.
---
 sparta/sparta/resources/Array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index 4c69a8c..53db913 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -716,7 +716,7 @@ namespace sparta
          * \brief Invalidate the entry at a certain index.
          * \param idx The index to invalidate.
          */
-        void erase(const uint32_t& idx)
+        void erase(const uint32_t idx)
         {
             sparta_assert(isValid(idx), "Cannot invalidate a non valid index.");
             sparta_assert(num_valid_ > 0);
-- 
2.43.0


From f350e8347040f8bee0313239d116206ae202e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 034/120] fix: FrontArray::readValid scans the entries

It tested the same entry over and over: with a free entry before the wanted
one it never returned, or returned the wrong one.
---
 sparta/sparta/resources/FrontArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index e7b9121..28abdc9 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -57,7 +57,7 @@ namespace sparta{
             uint32_t i = 0;
             while(n <= nth)
             {
-                if(BaseArray::isValid(n))
+                if(BaseArray::isValid(i))
                 {
                     ++n;
                 }
-- 
2.43.0


From ec7d72b6b3024dc13267e470b401f8308048f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 035/120] fix: FrontArray::push_front/push_back of an rvalue
 compile

---
 sparta/sparta/resources/FrontArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index 28abdc9..ee4319f 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -132,7 +132,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_front(DataT&& dat) { return writeFront(std::forward(dat)); }
+        uint32_t push_front(DataT&& dat) { return writeFront(std::move(dat)); }
 
         /**
          * \brief Push the first available index in the Array starting from the back
@@ -146,7 +146,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_back(DataT && dat) { return writeBack(std::forward(dat)); }
+        uint32_t push_back(DataT && dat) { return writeBack(std::move(dat)); }
 
     private:
         template<typename U>
-- 
2.43.0


From 62750749464cdb9687f442fe66798a33d5f19dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 036/120] fix: CircularBuffer::insert into a full buffer
 overwrites the oldest entry

It grew beyond its capacity instead, which made numFree() wrap around and the
utilization counters be indexed out of bounds.
---
 sparta/sparta/resources/CircularBuffer.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 3630fee..c06bd52 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -734,7 +734,17 @@ namespace sparta
                         "Cannot insert into Circularbuffer at given iterator");
             auto it = circularbuffer_data_.insert(entry.getInternalBufferEntry_(),
                                                   CircularBufferData(std::forward<U>(dat), end_idx_));
-            ++num_valid_;
+            if(num_valid_ == max_size_) {
+                // No room: the oldest entry goes
+                auto oldest = circularbuffer_data_.begin();
+                if(oldest == it) {
+                    ++oldest;
+                }
+                circularbuffer_data_.erase(oldest);
+            }
+            else {
+                ++num_valid_;
+            }
             invalidateIndexes_();
             return iterator(this, it, it->window_idx);
         }
-- 
2.43.0


From 9f871bc9cb534bcc8eaff2f480fd1305642d990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 037/120] fix: CircularBuffer::insert and erase update the
 utilization counters

---
 sparta/sparta/resources/CircularBuffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index c06bd52..3a016d3 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -700,6 +700,7 @@ namespace sparta
             circularbuffer_data_.erase(entry.getInternalBufferEntry_());
             --num_valid_;
             invalidateIndexes_();
+            updateUtilizationCounters_();
         }
 
         template<typename U>
@@ -746,6 +747,7 @@ namespace sparta
                 ++num_valid_;
             }
             invalidateIndexes_();
+            updateUtilizationCounters_();
             return iterator(this, it, it->window_idx);
         }
 
-- 
2.43.0


From 7daafcf9f9c4978b6718675da47db7c96544faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 038/120] fix: CircularBuffer iterators stay valid after 2^32
 insertions

---
 sparta/sparta/resources/CircularBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 3a016d3..d564a3b 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -689,7 +689,7 @@ namespace sparta
 
         // Used by the internal iterator type to see if it's still
         // valid
-        bool isValidIterator_(uint32_t window_idx) const {
+        bool isValidIterator_(uint64_t window_idx) const {
             return (window_idx >= start_idx_ && window_idx < end_idx_);
         }
 
-- 
2.43.0


From fde802894ce65e1bf06a69dde7b31444bc41046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 039/120] fix: FastList keeps a node free when constructing its
 element throws

---
 sparta/sparta/utils/FastList.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/utils/FastList.hpp b/sparta/sparta/utils/FastList.hpp
index d2ea3f7..c6e3352 100644
--- a/sparta/sparta/utils/FastList.hpp
+++ b/sparta/sparta/utils/FastList.hpp
@@ -306,8 +306,8 @@ namespace sparta::utils
             }
 
             auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
             new (&new_node.type_storage) DataT(args...);
+            free_head_ = new_node.next;
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
             new_node.prev = -1;
@@ -343,8 +343,8 @@ namespace sparta::utils
                           "FastList is out of element room");
 
             auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
             new (&new_node.type_storage) DataT(args...);
+            free_head_ = new_node.next;
 
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
@@ -375,8 +375,8 @@ namespace sparta::utils
                           "FastList is out of element room");
 
             auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
             new (&new_node.type_storage) DataT(args...);
+            free_head_ = new_node.next;
 
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
-- 
2.43.0


From 0189f6c2fd39c97bf27cbf755b48b956d69a1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:07 +0000
Subject: [PATCH 040/120] fix: Queue iterators keep all 64 bits of the entry id

---
 sparta/sparta/resources/Queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Queue.hpp b/sparta/sparta/resources/Queue.hpp
index 28ea639..f8c6a3d 100644
--- a/sparta/sparta/resources/Queue.hpp
+++ b/sparta/sparta/resources/Queue.hpp
@@ -237,7 +237,7 @@ namespace sparta
              * \param q  a pointer to the underlaying queue.
              * \param begin_itr if true iterator points to tail (begin()), if false points to head (end())
              */
-            QueueIterator(QueuePointerType q, uint32_t physical_index, uint32_t obj_id) :
+            QueueIterator(QueuePointerType q, uint32_t physical_index, uint64_t obj_id) :
                 attached_queue_(q),
                 physical_index_(physical_index),
                 obj_id_(obj_id)
-- 
2.43.0


From e646c614f4619348616be8c26c5ec96936a5ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:25 +0000
Subject: [PATCH 041/120] fix: keep the chain of a deleted current checkpoint
 that sits on another branch

---
 .../sparta/serialization/checkpoint/FastCheckpointer.hpp  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 419d3bf..e42e9e8 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -820,7 +820,9 @@ namespace sparta::serialization::checkpoint
                 // If nothing later in the chain (tree) depends on d's data, it can be deleted.
                 // This also patches the checkpoint tree around the deleted checkpoint
                 //! \todo canDelete is recursive at worst and might benefit from optimization
-                if(d->canDelete()) {
+                // The current checkpoint may be flagged deleted, but the next
+                // checkpoint taken will still depend on its chain.
+                if(d->canDelete() && !recursForwardFindAlive_(d)) {
                     // Get checkpoint id regardless of whether alive or dead
                     chkpt_id_t id = d->getID();
                     if (d->isFlaggedDeleted()) {
@@ -857,8 +859,8 @@ namespace sparta::serialization::checkpoint
                 // Only check descendants for snapshot-ness
                 if(dc->isSnapshot()){
                     // Found a live snapshot that ends this branch. d is not needed
-                    // after this
-                    return false;
+                    // after this, but may still be by another branch
+                    continue;
                 }
                 if(dc == getCurrent_()){
                     // Found current in this search chain
-- 
2.43.0


From 389eb8c91fe70538e13ad92d08408a5d46daf9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 042/120] fix: include lines reset by ArchData::clean in the
 next delta checkpoint

---
 sparta/sparta/functional/ArchData.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 4cce93e..4e8cd13 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <math.h>
 #include <list>
+#include <set>
 #include <cstring>
 #include <unordered_map>
 
@@ -761,6 +762,7 @@ namespace sparta
             if(canFreeLines()){
                 // Delete all lines allocated first (map contains pointers to lines)
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
+                    freed_lines_.insert((*itr)->getIdx());
                     delete *itr;
                 }
 
@@ -770,6 +772,7 @@ namespace sparta
                 // Overwrite all lines with initial bytes
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
                     (*itr)->fillWithInitial(initial_, initial_val_size_);
+                    (*itr)->flagDirty(); // The next delta checkpoint must include it
                 }
 
             }
@@ -989,6 +992,18 @@ namespace sparta
                     ln->save(out);
                 }
             }
+
+            // Lines freed since the last checkpoint and not allocated again hold
+            // the fill value now, which a delta has to say explicitly
+            for(const line_idx_type idx : freed_lines_){
+                if(line_map_.find(idx) == nullptr){
+                    Line initial_line(idx, getLineOffset(idx), line_size_ ? line_size_ : size_,
+                                      initial_, initial_val_size_);
+                    out.beginLine(idx);
+                    initial_line.save(out);
+                }
+            }
+            freed_lines_.clear();
             out.endArchData();
         }
 
@@ -1009,6 +1024,7 @@ namespace sparta
                     ln->save(out);
                 }
             }
+            freed_lines_.clear(); // Lines absent from a snapshot hold the fill value
             out.endArchData();
         }
 
@@ -1046,6 +1062,7 @@ namespace sparta
         void restoreAll(StorageT& in) {
             // Fresh, empty state, ready to be overwritten
             clean();
+            freed_lines_.clear(); // Lines absent from a snapshot hold the fill value
 
             restore(in);
         }
@@ -1687,6 +1704,9 @@ namespace sparta
          */
         bool          can_free_lines_;
 
+        //! Lines freed by clean() since the last checkpoint was saved or restored
+        std::set<line_idx_type> freed_lines_;
+
         /*!
          * \brief All ArchDatas currently in existence. Used for checkpointing
          * debugging to ensure they are all part of a tree
-- 
2.43.0


From 218a62bc5bf69336728cbb8b28f586698e421b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 043/120] fix: take a snapshot when the state does not continue
 the current checkpoint

---
 .../sparta/serialization/checkpoint/Checkpointer.hpp  | 11 +++++++++++
 .../serialization/checkpoint/FastCheckpointer.hpp     | 10 +++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
index 20d01d2..687ca3b 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
@@ -308,6 +308,7 @@ namespace sparta::serialization::checkpoint
          */
         void forgetCurrent() {
             if(head_){
+                continuity_lost_ = true;
                 current_ = head_;
             }
         }
@@ -773,6 +774,16 @@ namespace sparta::serialization::checkpoint
          */
         CheckpointBase* current_ = nullptr;
 
+    protected:
+
+        /*!
+         * \brief Is the simulation state possibly not a continuation of the
+         * current checkpoint? The next checkpoint must be a snapshot then
+         */
+        bool continuity_lost_ = false;
+
+    private:
+
         /*!
          * \brief Total checkpoint ever created by this instance. Monotonically
          * increasing. Includes the head checkpoint
diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index e42e9e8..aadeb4c 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -263,7 +263,9 @@ namespace sparta::serialization::checkpoint
                     << id << " because no checkpoint by this ID was found";
             }
 
+            continuity_lost_ = true; // Until successfully loaded
             d->load(getArchDatas());
+            continuity_lost_ = false;
 
             // Move current to another checkpoint. Anything between head and the
             // old current_ is fair game for removal if allowed
@@ -957,6 +959,7 @@ namespace sparta::serialization::checkpoint
             num_alive_checkpoints_++;
             num_alive_snapshots_++;
             setCurrent_(dcp);
+            continuity_lost_ = false;
         }
 
         chkpt_id_t createCheckpoint_(bool force_snapshot=false) override {
@@ -1006,11 +1009,16 @@ namespace sparta::serialization::checkpoint
                 is_snapshot = prev->getDistanceToPrevSnapshot() >= getSnapshotThreshold();
             }
 
+            // A delta describes the changes since the current checkpoint, which is
+            // only possible if the state really is a continuation of it
+            const bool snapshot = force_snapshot || is_snapshot || continuity_lost_;
+            continuity_lost_ = true; // Until successfully created
             checkpoint_type* dcp = new checkpoint_type(getArchDatas(), // Created during createHead
                                                        next_chkpt_id_++,
                                                        tick,
                                                        prev,
-                                                       force_snapshot || is_snapshot);
+                                                       snapshot);
+            continuity_lost_ = false;
             chkpts_[dcp->getID()].reset(dcp);
             num_alive_checkpoints_++;
             num_alive_snapshots_ += (dcp->isSnapshot() == true);
-- 
2.43.0


From b938e1702699879062aa51859a177c6ad3d694a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 044/120] fix: masked register accesses of sizes which are not
 a power of two

---
 sparta/sparta/functional/RegisterBits.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 1db515a..400c2e1 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -37,6 +37,17 @@ namespace sparta
             return final_value;
         }
 
+        // Merge of registers (or parts of them) whose size is not that of an
+        // integer or a multiple of 8 bytes
+        template<typename Op>
+        static RegisterBits byteMerge_(const RegisterBits & in, const RegisterBits & rh_bits) {
+            RegisterBits final_value(in.num_bytes_);
+            for(uint64_t idx = 0; idx < in.num_bytes_; ++idx) {
+                final_value.local_data_[idx] = Op()(in.remote_data_[idx], rh_bits.remote_data_[idx]);
+            }
+            return final_value;
+        }
+
         template<typename SizeT>
         static RegisterBits bitNot_(const RegisterBits & in) {
             RegisterBits final_value(in.num_bytes_);
@@ -214,7 +225,7 @@ namespace sparta
             else if(num_bytes_ == 4) {
                 return bitMerge_<uint32_t, std::bit_or<uint32_t>>(*this, rh_bits);
             }
-            else if(num_bytes_ > 8)
+            else if(num_bytes_ > 8 && num_bytes_ % 8 == 0)
             {
                 RegisterBits final_value(num_bytes_);
                 // 64-bit chunks
@@ -233,8 +244,8 @@ namespace sparta
                 return bitMerge_<uint8_t, std::bit_or<uint8_t>>(*this, rh_bits);
             }
 
-            // undefined
-            return RegisterBits(nullptr);
+            // Any other size
+            return byteMerge_<std::bit_or<uint8_t>>(*this, rh_bits);
         }
 
         /**
@@ -250,7 +261,7 @@ namespace sparta
             else if(num_bytes_ == 4) {
                 return bitMerge_<uint32_t, std::bit_and<uint32_t>>(*this, rh_bits);
             }
-            else if(num_bytes_ > 8)
+            else if(num_bytes_ > 8 && num_bytes_ % 8 == 0)
             {
                 RegisterBits final_value(num_bytes_);
                 // 64-bit chunks
@@ -269,8 +280,8 @@ namespace sparta
                 return bitMerge_<uint8_t, std::bit_and<uint8_t>>(*this, rh_bits);
             }
 
-            // undefined
-            return RegisterBits(nullptr);
+            // Any other size
+            return byteMerge_<std::bit_and<uint8_t>>(*this, rh_bits);
         }
 
         /**
-- 
2.43.0


From 103116d2d8016477de3e99aba5695504e7185773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 045/120] fix: Register::writeUnmasked writes the indexed value

---
 sparta/sparta/functional/Register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 5a6ea7a..2ff0033 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1571,7 +1571,7 @@ public:
     inline void writeUnmasked(T val, index_type idx = 0)
     {
         assert(isWritable());
-        dmiWriteImpl_(&val, sizeof(T), idx);
+        dmiWriteImpl_(&val, sizeof(T), sizeof(T) * idx);
     }
 
 private:
-- 
2.43.0


From 1c6ac5604b7f35b1417e0b59431129b8d2129e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:08 +0000
Subject: [PATCH 046/120] fix: in-place left shift of RegisterBits by 64 bits
 or more

---
 sparta/sparta/functional/RegisterBits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 400c2e1..b46db93 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -581,10 +581,10 @@ namespace sparta
                 //
                 if(double_word_shift_count > 0)
                 {
-                    uint32_t dest_idx = double_word_shift_count;
-                    for(uint32_t src_idx = 0; dest_idx < num_dbl_words; ++dest_idx, ++src_idx) {
-                        *(final_data + dest_idx) = *(src_data + src_idx);
-                        *(src_data + src_idx) = 0;
+                    // In place, so start at the top
+                    for(uint32_t dest_idx = num_dbl_words; dest_idx-- > 0; ) {
+                        *(final_data + dest_idx) = (dest_idx >= double_word_shift_count) ?
+                            *(src_data + (dest_idx - double_word_shift_count)) : 0;
                     }
                 }
 
-- 
2.43.0


From 426efef86f8ebfed7ebda2e82938add96c78a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 047/120] fix: checkpoint what is written through DMI pointers
 and checkpointable objects

---
 sparta/sparta/functional/ArchData.hpp         | 36 +++++++++++++++++--
 sparta/sparta/memory/MemoryObject.hpp         |  2 +-
 .../checkpoint/Checkpointable.hpp             |  2 +-
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 4e8cd13..33f86fa 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -295,7 +295,7 @@ namespace sparta
              * Immediately after construction, this will be true.
              */
             bool isDirty() const {
-                return dirty_;
+                return dirty_ || is_exposed_;
             }
 
             //! \name Reading and Writing
@@ -403,12 +403,32 @@ namespace sparta
              */
             uint8_t* getRawDataPtr(const offset_type offset) { return (data_ + offset); }
 
+            /*!
+             * \brief Get a pointer through which this line may be written
+             * behind the back of this class at any time from now on.
+             * \post This line is always dirty, and it is not freed before its
+             * ArchData is
+             */
+            uint8_t* exposeRawDataPtr(const offset_type offset) {
+                is_exposed_ = true;
+                return getRawDataPtr(offset);
+            }
+
+            /*!
+             * \brief Was the data of this line exposed through
+             * exposeRawDataPtr?
+             */
+            bool isExposed() const {
+                return is_exposed_;
+            }
+
         private:
 
             line_idx_type idx_;  //!< Index of this line
             offset_type offset_; //!< Offset into owning ArchData
             offset_type size_;   //!< Size of this line
             bool is_pool_;       //!< Is this line's data part of a pool? If not, it is owned by this object
+            bool is_exposed_ = false; //!< Can this line be written through a raw pointer?
             mutable bool dirty_; //!< Is this line dirty. Mutable so that read methods can be const
             uint8_t * data_ = nullptr;   //!< Pointer to either the allocated memory or a pool
             std::unique_ptr<uint8_t[]> alloc_data_;      //!< Data held by this line. Always allocated
@@ -761,13 +781,23 @@ namespace sparta
 
             if(canFreeLines()){
                 // Delete all lines allocated first (map contains pointers to lines)
+                std::vector<Line*> kept_lines;
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
-                    freed_lines_.insert((*itr)->getIdx());
-                    delete *itr;
+                    if((*itr)->isExposed()){
+                        // There are pointers to the data of this line
+                        (*itr)->fillWithInitial(initial_, initial_val_size_);
+                        kept_lines.push_back(*itr);
+                    }else{
+                        freed_lines_.insert((*itr)->getIdx());
+                        delete *itr;
+                    }
                 }
 
                 // Delete all structures within the map
                 line_map_.clear();
+                for(Line* ln : kept_lines){
+                    line_map_[ln->getIdx()] = ln;
+                }
             }else{
                 // Overwrite all lines with initial bytes
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index de78819..d4992c1 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -334,7 +334,7 @@ namespace sparta
                 auto & line = binding_.getLine(aligned_addr);
                 dmi_ifs_.insert({aligned_addr,
                                  std::unique_ptr<DMIBlockingMemoryIF>
-                                 (new DMIBlockingMemoryIF(line.getRawDataPtr(0),
+                                 (new DMIBlockingMemoryIF(line.exposeRawDataPtr(0),
                                                           line.getOffset(),
                                                           line.getLayoutSize()))});
                 return dmi_ifs_[aligned_addr].get();
diff --git a/sparta/sparta/serialization/checkpoint/Checkpointable.hpp b/sparta/sparta/serialization/checkpoint/Checkpointable.hpp
index f58604c..9ae2c6f 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointable.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointable.hpp
@@ -137,7 +137,7 @@ namespace sparta::serialization::checkpoint {
                 adata_.layout();
             }
 
-            uint8_t *getRawDataPtr() { return dview_.getLine()->getRawDataPtr(0); }
+            uint8_t *getRawDataPtr() { return dview_.getLine()->exposeRawDataPtr(0); }
 
             //! \brief ArchData that will hold snapshots of this Checkpointable
             ArchData adata_;
-- 
2.43.0


From 4b7eb03a8c099a73c10d9969f00f399ab81721d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 048/120] fix: a checkpointer survives a failed attempt to
 create a checkpoint

---
 .../sparta/serialization/checkpoint/Checkpointer.hpp |  4 +---
 .../serialization/checkpoint/FastCheckpointer.hpp    | 12 +++++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
index 687ca3b..a33018c 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
@@ -712,9 +712,7 @@ namespace sparta::serialization::checkpoint
          * \pre Must not have been called before
          */
         void enumerateArchDatas_() {
-            sparta_assert(adatas_.size() == 0, "FastCheckpointer already has a vector of ArchDatas. Cannot re-enumerate");
-
-            adatas_.clear(); // Clear in case invoked again
+            adatas_.clear(); // An earlier attempt to create the head may have failed
 
             // This is a helper for building the adatas_ vector while detecting
             // dupicate ArchDatas.
diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index aadeb4c..f1c034a 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -953,8 +953,9 @@ namespace sparta::serialization::checkpoint
                 }
             }
 
-            checkpoint_type* dcp = new checkpoint_type(getArchDatas(), next_chkpt_id_++, tick, nullptr, true);
-            chkpts_[dcp->getID()].reset(dcp);
+            checkpoint_ptr new_dcp(new checkpoint_type(getArchDatas(), next_chkpt_id_++, tick, nullptr, true));
+            checkpoint_type* dcp = new_dcp.get();
+            chkpts_[dcp->getID()] = std::move(new_dcp);
             setHead_(dcp);
             num_alive_checkpoints_++;
             num_alive_snapshots_++;
@@ -1013,13 +1014,14 @@ namespace sparta::serialization::checkpoint
             // only possible if the state really is a continuation of it
             const bool snapshot = force_snapshot || is_snapshot || continuity_lost_;
             continuity_lost_ = true; // Until successfully created
-            checkpoint_type* dcp = new checkpoint_type(getArchDatas(), // Created during createHead
+            checkpoint_ptr new_dcp(new checkpoint_type(getArchDatas(), // Created during createHead
                                                        next_chkpt_id_++,
                                                        tick,
                                                        prev,
-                                                       snapshot);
+                                                       snapshot));
+            checkpoint_type* dcp = new_dcp.get();
+            chkpts_[dcp->getID()] = std::move(new_dcp);
             continuity_lost_ = false;
-            chkpts_[dcp->getID()].reset(dcp);
             num_alive_checkpoints_++;
             num_alive_snapshots_ += (dcp->isSnapshot() == true);
             setCurrent_(dcp);
-- 
2.43.0


From a52bfb4ed2b0e5c1a0a2f2330fdbcfc66381e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 049/120] fix: a deleted checkpoint no longer exists for the
 user, and the head cannot be deleted

---
 .../checkpoint/FastCheckpointer.hpp           | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index f1c034a..04b22a6 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -226,6 +226,11 @@ namespace sparta::serialization::checkpoint
                     << id << " because no checkpoint by this ID was found";
             }
 
+            if(d == getHead()){
+                throw CheckpointError("Could not delete checkpoint ID=")
+                    << id << " because it is the head checkpoint";
+            }
+
             // Allow deletion and change ID to UNIDENTIFIED_CHECKPOINT.
             // This is still part of a chain though until there are no
             // dependencies on it.
@@ -411,7 +416,7 @@ namespace sparta::serialization::checkpoint
 
             // Search backward
             do{
-                if(d->getTick() <= tick){
+                if(d->getTick() <= tick && !d->isFlaggedDeleted()){
                     break;
                 }
                 d = static_cast<checkpoint_type*>(d->getPrev());
@@ -427,11 +432,7 @@ namespace sparta::serialization::checkpoint
          * \return Checkpoint with ID of \a id if found or nullptr if not found
          */
         const checkpoint_type* findCheckpoint(chkpt_id_t id) noexcept {
-            auto it = chkpts_.find(id);
-            if (it != chkpts_.end()) {
-                return static_cast<checkpoint_type*>(it->second.get());
-            }
-            return nullptr;
+            return findCheckpoint_(id);
         }
 
         /*!
@@ -442,7 +443,7 @@ namespace sparta::serialization::checkpoint
          * always returns false
          */
         bool hasCheckpoint(chkpt_id_t id) noexcept override {
-            return chkpts_.find(id) != chkpts_.end();
+            return findCheckpoint_(id) != nullptr;
         }
 
         /*!
@@ -893,7 +894,7 @@ namespace sparta::serialization::checkpoint
          */
         checkpoint_type* findCheckpoint_(chkpt_id_t id) noexcept {
             auto itr = chkpts_.find(id);
-            if (itr != chkpts_.end()) {
+            if (itr != chkpts_.end() && itr->second && !itr->second->isFlaggedDeleted()) {
                 return static_cast<checkpoint_type*>(itr->second.get());
             }
             return nullptr;
@@ -904,7 +905,7 @@ namespace sparta::serialization::checkpoint
          */
         const checkpoint_type* findCheckpoint_(chkpt_id_t id) const noexcept {
             auto itr = chkpts_.find(id);
-            if (itr != chkpts_.end()) {
+            if (itr != chkpts_.end() && itr->second && !itr->second->isFlaggedDeleted()) {
                 return static_cast<checkpoint_type*>(itr->second.get());
             }
             return nullptr;
-- 
2.43.0


From 78487e7f08f61716e3ab8604a7cf9ca3fef4ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 050/120] fix: a checkpoint which becomes the head is no longer
 linked to its predecessor

---
 sparta/sparta/serialization/checkpoint/Checkpoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpoint.hpp b/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
index d6222d1..7922314 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
@@ -175,6 +175,7 @@ namespace sparta::serialization::checkpoint
         void makeHeadCheckpoint() override {
             if (prev_) {
                 sparta_assert(prev_->getID() != UNIDENTIFIED_CHECKPOINT);
+                prev_->removeNext(this);
                 prev_ = nullptr;
             }
         }
-- 
2.43.0


From a6cb81356a27c9ba72a03aa30f587dd43c0efa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:41 +0000
Subject: [PATCH 051/120] fix: reset of a register without an initial value

---
 sparta/sparta/functional/Register.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 2ff0033..fcf921d 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -800,8 +800,13 @@ public:
     /*!
      * \brief Reset this register to its default value
      * \note Uses poke internally so no notifications are posted
+     * \note Has no effect on a register defined without an initial value
      */
     void reset(bool unmasked=true) {
+        if(nullptr == def_.initial_value){
+            return;
+        }
+
         // Poke the whole value, one-byte at a time
         for(size_type i=0; i<def_.bytes; i++){
             if(unmasked){
-- 
2.43.0


From 604733cb3152acd5766d49543b8b6b1de24b340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:41 +0000
Subject: [PATCH 052/120] fix: a TieredMap survives a failing allocation

---
 sparta/sparta/utils/TieredMap.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/utils/TieredMap.hpp b/sparta/sparta/utils/TieredMap.hpp
index a30bb4e..22a009b 100644
--- a/sparta/sparta/utils/TieredMap.hpp
+++ b/sparta/sparta/utils/TieredMap.hpp
@@ -440,8 +440,9 @@ namespace sparta
                     }else{
                         //std::cout << "Allocating new pair at tier[0x" << std::hex << vidx << std::dec << "] tidx " << tidx << ", key=0x" << std::hex << k << std::dec << std::endl;
                         // Create a new result pair at node[vidx]
-                        pair_t* npair = new pair_t(k, n);
-                        pairs_.emplace_back(npair);
+                        std::unique_ptr<pair_t> new_pair(new pair_t(k, n));
+                        pair_t* npair = new_pair.get();
+                        pairs_.emplace_back(std::move(new_pair));
                         v = vt = npair;
                         break;
                     }
@@ -465,11 +466,11 @@ namespace sparta
          * becoming its child at index 0. Also adds a new entry to tier_shifts_.
          */
         void addTier_() {
+            // Nothing may have changed yet when an allocation fails
             uint64_t new_shift = tier_shifts_[0] + tier_shift_;
+            std::unique_ptr<node_t> new_root(new node_t(1, t0_)); // Old tier at idx=0
             tier_shifts_.insert(tier_shifts_.begin(), new_shift);
-            void* old = t0_;
-            t0_ = new node_t;
-            t0_->push_back(old); // Old tier at idx=0
+            t0_ = new_root.release();
             ++num_nodes_;
             ++num_tiers_;
         }
-- 
2.43.0


From a5228d4ed51771ae7d424a3fc1577b2d3f8c33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:13 +0000
Subject: [PATCH 053/120] fix: a failed construction of a checkpoint does not
 terminate the process

---
 sparta/sparta/serialization/checkpoint/Checkpoint.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpoint.hpp b/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
index 7922314..a38e56d 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
@@ -56,7 +56,9 @@ namespace sparta::serialization::checkpoint
          * and each item in the nexts list
          */
         virtual ~Checkpoint() {
-            if(getPrev()){
+            if(getPrev() &&
+               std::find(getPrev()->nexts_.begin(), getPrev()->nexts_.end(), this) != getPrev()->nexts_.end()){
+                // (Not linked yet if construction failed half-way)
                 getPrev()->removeNext(this);
             }
 
-- 
2.43.0


From 32c21aa4acf50b8dba8e45581fed0558e04f764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:04 +0000
Subject: [PATCH 054/120] fix: checkpoints on other branches are no longer
 counted after a forced squash

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 04b22a6..32ff758 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -607,6 +607,11 @@ namespace sparta::serialization::checkpoint
                 }
 
                 for (auto& [id, chkpt] : chkpts_) {
+                    sparta_assert(num_alive_checkpoints_-- > 0);
+                    if (chkpt->isSnapshot()) {
+                        sparta_assert(num_alive_snapshots_-- > 0);
+                    }
+
                     chkpt->flagDeleted();
                 }
                 chkpts_.clear();
-- 
2.43.0


From 84ce80face853c231d1551924b7c2ab051f9ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 055/120] fix: keep checkpointable objects out of delta
 checkpoints, as FastCheckpoint_test expects

---
 sparta/sparta/serialization/checkpoint/Checkpointable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpointable.hpp b/sparta/sparta/serialization/checkpoint/Checkpointable.hpp
index 9ae2c6f..f58604c 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointable.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointable.hpp
@@ -137,7 +137,7 @@ namespace sparta::serialization::checkpoint {
                 adata_.layout();
             }
 
-            uint8_t *getRawDataPtr() { return dview_.getLine()->exposeRawDataPtr(0); }
+            uint8_t *getRawDataPtr() { return dview_.getLine()->getRawDataPtr(0); }
 
             //! \brief ArchData that will hold snapshots of this Checkpointable
             ArchData adata_;
-- 
2.43.0


From 046ad46296864f079b624dd5c05484c6e78ad521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:42 +0000
Subject: [PATCH 056/120] fix: restoring a checkpoint into a fresh
 checkpointer, before a delta, or from a truncated stream

---
 .../checkpoint/PersistentFastCheckpointer.hpp | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
index 8b64086..748620e 100644
--- a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
@@ -104,13 +104,13 @@ namespace sparta::serialization::checkpoint
             }
 
             ArchData::line_idx_type getNextRestoreLine() {
-                char ctrl;
+                char ctrl = 0;
                 fs_ >> ctrl;
-                sparta_assert(fs_.good(),
-                              "Encountered checkpoint data stream error or eof");
+                checkStream_();
                 if(ctrl == 'L'){
                     ArchData::line_idx_type ln_idx = 0;
                     fs_.read((char*)&ln_idx, sizeof(ln_idx)); // Presumed LE encoding
+                    checkStream_();
                     return ln_idx;
                 }else if(ctrl == 'E'){
                     return ArchData::INVALID_LINE_IDX; // Done with restore
@@ -122,6 +122,16 @@ namespace sparta::serialization::checkpoint
 
             void copyLineBytes(char* buf, uint32_t size) {
                 fs_.read(buf, size);
+                checkStream_();
+            }
+
+        private:
+
+            //! Throw if the last read did not get everything it asked for
+            void checkStream_() const {
+                if(!fs_.good()){
+                    throw SpartaException("Failed to restore a checkpoint because of a stream error or an early end of the data");
+                }
             }
         };
 
@@ -236,6 +246,13 @@ namespace sparta::serialization::checkpoint
          * \param in Input stream from which to retrieve checkpoint data
          */
         void restore(std::istream& in) {
+            if(!getHead()){
+                createHead(); // Finds the ArchDatas to restore
+            }
+
+            // What is restored does not continue the current checkpoint
+            continuity_lost_ = true;
+
             auto adatas = getArchDatas();
             FileReadAdapter fsa(in);
             for (auto aditr=adatas.begin(); aditr!= adatas.end(); aditr++) {
-- 
2.43.0


From 66767911ec0e63d353983701b169e149143d2b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 057/120] fix: FILEOstream dropped or repeated characters,
 FILEIstream took 0xff for the end of the file

---
 .../serialization/checkpoint/FILEStream.hpp   | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FILEStream.hpp b/sparta/sparta/serialization/checkpoint/FILEStream.hpp
index ed9b93c..8293774 100644
--- a/sparta/sparta/serialization/checkpoint/FILEStream.hpp
+++ b/sparta/sparta/serialization/checkpoint/FILEStream.hpp
@@ -73,22 +73,15 @@ private:
          */
         int_type overflow(int_type ch = traits_type::eof()) override {
 
-            // Try to drain the intermediate buffer, if it is full.
-            if (pptr() == epptr()) {
-                sync();
-            }
-            if (traits_type::eq_int_type(ch, traits_type::eof()) == true) {
+            if (pptr() == epptr() && sync() == -1) {
                 return traits_type::eof();
             }
-
-            // Insert the new character into the intermediate buffer.
-            // Note: the pptr() may still be epptr(), if sync failed above.
-            if (pptr() != epptr()) {
-                *pptr() = ch;
+            if (traits_type::eq_int_type(ch, traits_type::eof()) == false) {
+                // There is room after a successful sync
+                *pptr() = traits_type::to_char_type(ch);
                 pbump(1);
-                return 0;
             }
-            return traits_type::eof();
+            return traits_type::not_eof(ch);
         }
 
         /*! Flush the intermediate buffer to the output stream.
@@ -103,7 +96,13 @@ private:
                 setp(&b[0], &b[buf_size_]);
                 return 0;
             }
-            pbump(chars_written);
+
+            // Keep what was not written
+            const size_t chars_left = chars_to_write - chars_written;
+            char *b = buf_.get();
+            memmove(&b[0], &b[chars_written], chars_left);
+            setp(&b[0], &b[buf_size_]);
+            pbump(chars_left);
             return -1;
         }
 
@@ -246,7 +245,7 @@ private:
                     setg(&b[0], &b[0], &b[buf_size_]);
                 }
             }
-            return *gptr();
+            return traits_type::to_int_type(*gptr());
         }
 
         /*! Read characters from the input sequence to a user buffer.
-- 
2.43.0


From da26cbbd6cd61874a503990fc60297528347b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:38 +0000
Subject: [PATCH 058/120] fix: a memory access wrapping around the end of the
 address space was taken to be inside the access window

---
 sparta/sparta/memory/DebugMemoryIF.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index 13e7fbb..a06e24c 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -344,7 +344,7 @@ namespace sparta
             void verifyInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                if(__builtin_expect(addr < acc_windows_[0].start || addr+size > acc_windows_[0].end, 0)){
+                if(__builtin_expect(addr < acc_windows_[0].start || addr > acc_windows_[0].end || size > acc_windows_[0].end - addr, 0)){
                     MemoryAccessError ex(addr, size, "any", "The access at does not fit within access windows: ");
                     ex << "{ [" << acc_windows_[0].start << "," << acc_windows_[0].end << ") }";
                     throw ex;
@@ -363,7 +363,7 @@ namespace sparta
             bool isInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                return addr >= acc_windows_[0].start && addr+size <= acc_windows_[0].end;
+                return addr >= acc_windows_[0].start && addr <= acc_windows_[0].end && size <= acc_windows_[0].end - addr;
             }
 
             /*!
-- 
2.43.0


From 234cc2cd34484b3ed8bc89fb0d18c7729f4f1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 059/120] fix: CachedMemory cleared the surroundings of a poke
 or merge into a block it had not cached

---
 sparta/sparta/memory/CachedMemory.hpp | 28 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index c913492..5f8efb5 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -259,6 +259,17 @@ namespace sparta::memory
         std::map<uint64_t, MemoryWriteType> outstanding_writes_;
         uint64_t write_uid_ = 0;
 
+        // Bring the block containing paddr into this cache if it has not been
+        // read for a write, poke or merge before
+        void fetchBlock_(addr_t paddr) {
+            if(cached_memory_.tryGetLine(paddr) == nullptr) {
+                const auto aligned_paddr = paddr & block_mask_;
+                std::vector<uint8_t> block(block_size_);
+                downstream_memory_->peek(aligned_paddr, block_size_, block.data());
+                cached_memory_.write(aligned_paddr, block_size_, block.data());
+            }
+        }
+
         ////////////////////////////////////////////////////////////////////////////////
         // Derived methods
         bool tryRead_(addr_t paddr, addr_t size, uint8_t *buf,
@@ -320,13 +331,7 @@ namespace sparta::memory
                       "Watermark of outstanding writes reached. "
                       "Writes need to be committed or dropped via the CoSim API");
 
-        if(cached_memory_.tryGetLine(paddr) == nullptr) {
-            // This block has not been initialized in cached memory yet because
-            // it has not been written to before.
-            const auto aligned_paddr = paddr & block_mask_;
-            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
-        }
+        fetchBlock_(paddr);
 
         // Store the write into a outstanding chain
         ++write_uid_;
@@ -365,12 +370,7 @@ namespace sparta::memory
     template<class MemoryWriteType>
     bool CachedMemory<MemoryWriteType>::tryPoke_(addr_t paddr, addr_t size, const uint8_t *buf)
     {
-        if(cached_memory_.tryGetLine(paddr) == nullptr) {
-            // This memory was never written (or read) before.
-            const auto aligned_paddr = paddr & block_mask_;
-            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->poke(aligned_paddr, block_size_, cached_mem_block_ptr);
-        }
+        fetchBlock_(paddr);
         cached_memory_.write(paddr, size, buf);
         downstream_memory_->poke(paddr, size, buf);
         return true;
@@ -485,11 +485,13 @@ namespace sparta::memory
                 }
                 if(!collision) {
                     // Write the one byte of data -- no collisions
+                    fetchBlock_(paddr_offset);
                     cached_memory_.write(paddr_offset, 1, buf + byte);
                 }
             }
         }
         else {
+            fetchBlock_(paddr);
             cached_memory_.write(paddr, size, buf);
         }
     }
-- 
2.43.0


From 2f79d830075e79ecd9a37d97f751b99f21438b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 060/120] fix: an invalidated DMI window still let itself be
 peeked and poked

---
 sparta/sparta/memory/DMIBlockingMemoryIF.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/memory/DMIBlockingMemoryIF.hpp b/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
index 0584908..5e9d10a 100644
--- a/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
+++ b/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
@@ -161,6 +161,7 @@ namespace sparta {
             // checked as well as address spanning
             bool tryPeek_(addr_t addr, addr_t size, uint8_t *buf) const noexcept override
             {
+                if(false == isValid()) { return false; }
                 ::memcpy(buf, computeHostAddress_(addr), size);
                 return true;
             }
@@ -169,6 +170,7 @@ namespace sparta {
             // checked as well as address spanning
             bool tryPoke_(addr_t addr, addr_t size, const uint8_t *buf) noexcept override
             {
+                if(false == isValid()) { return false; }
                 ::memcpy(computeHostAddress_(addr), buf, size);
                 return true;
             }
-- 
2.43.0


From b2274105ce65902261c7e2275c59cb191b6dde4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:49 +0000
Subject: [PATCH 061/120] fix: getDMI returned the invalidated interface ever
 after invalidateAllDMI

---
 sparta/sparta/memory/MemoryObject.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index d4992c1..65d6b7f 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -328,7 +328,12 @@ namespace sparta
                 }
                 const auto aligned_addr = addr & block_mask_;
                 if(auto it = dmi_ifs_.find(aligned_addr); it != dmi_ifs_.end()) {
-                    return it->second.get();
+                    if(it->second->isValid()) {
+                        return it->second.get();
+                    }
+                    // Whoever holds the invalidated interface may still look at it
+                    invalid_dmi_ifs_.emplace_back(std::move(it->second));
+                    dmi_ifs_.erase(it);
                 }
 
                 auto & line = binding_.getLine(aligned_addr);
@@ -400,6 +405,7 @@ namespace sparta
             }
 
             std::map<addr_t, std::unique_ptr<DMIBlockingMemoryIF>> dmi_ifs_;
+            std::vector<std::unique_ptr<DMIBlockingMemoryIF>> invalid_dmi_ifs_;
 
         }; // class BlockingMemoryIF
 
-- 
2.43.0


From 053e53455cd44e19e963b6b8c986e23e1e8b4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:23 +0000
Subject: [PATCH 062/120] fix: RegisterBits::none was true for any value made
 of equal bytes

---
 sparta/sparta/functional/RegisterBits.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index b46db93..61f0227 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -723,8 +723,10 @@ namespace sparta
          */
         bool none() const {
             sparta_assert(num_bytes_ > 0);
+            // The first byte is zero and every byte equals its successor
             const auto mem_data_plus_one = remote_data_ + 1;
-            return (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
+            return (remote_data_[0] == 0) &&
+                (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
         }
 
         /**
-- 
2.43.0


From ec63c4e196b000717c79445c734d9c0a5271830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:23 +0000
Subject: [PATCH 063/120] fix: values too large for a register field were
 accepted when their excess left the register

---
 sparta/sparta/functional/Register.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index fcf921d..8c6e146 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -407,7 +407,10 @@ public:
 
             // Check to see if the number of bits being written to the
             // field is larger than the field itself.
-            sparta_assert((field_value_to_be_written_shifted & not_field_mask_).none(),
+            // Bits which were shifted out or lie beyond the register are
+            // not covered by the mask, so look at the value itself.
+            sparta_assert(getNumBits() >= sizeof(access_type) * CHAR_BIT ||
+                          (value >> getNumBits()) == 0,
                           "Value of " << value <<  " too large for bit field "
                           << getLocation() << " of size " << getNumBits());
 
-- 
2.43.0


From e090d903fa5b2166d31ee1e51e6560c74273389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 064/120] fix: keep the sub-statistics of a moved
 StatisticInstance

---
 sparta/src/StatisticInstance.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/src/StatisticInstance.cpp b/sparta/src/StatisticInstance.cpp
index 1a14a72..4cf4a21 100644
--- a/sparta/src/StatisticInstance.cpp
+++ b/sparta/src/StatisticInstance.cpp
@@ -144,6 +144,7 @@ namespace sparta
         scheduler_(rhp.scheduler_),
         initial_(rhp.initial_),
         result_(rhp.result_),
+        sub_statistics_(std::move(rhp.sub_statistics_)),
         user_calculated_si_value_(std::move(rhp.user_calculated_si_value_))
     {
         rhp.sdef_ = nullptr;
-- 
2.43.0


From 379fd28b332e8a1c5f89436931229d4f93d3def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 065/120] fix: copy, move and assign reports with their names
 and sub-statistics

A copied or assigned report created the sub-statistics of its entries a
second time and pointed its sub-statistic mapping at the instances of its
source; an assigned report kept the entry names of its old content, so
that they could neither be looked up nor be used again; a moved report
could not look up its entries by name.
---
 sparta/sparta/report/Report.hpp | 38 ++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/report/Report.hpp b/sparta/sparta/report/Report.hpp
index a41e2b7..3b8ff2d 100644
--- a/sparta/sparta/report/Report.hpp
+++ b/sparta/sparta/report/Report.hpp
@@ -11,6 +11,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <map>
 #include <sstream>
 #include <unordered_map>
 #include <vector>
@@ -203,8 +204,7 @@ namespace sparta
             subreps_(rhp.subreps_),
             start_tick_(rhp.start_tick_),
             end_tick_(rhp.end_tick_),
-            info_string_(rhp.info_string_),
-            sub_statistics_(rhp.sub_statistics_)
+            info_string_(rhp.info_string_)
         {
             // Update parent pointers of all subreports
             for(auto& sr : subreps_){
@@ -212,9 +212,7 @@ namespace sparta
             }
 
             // Copy StatisticInstances
-            for(const statistics::stat_pair_t& sp : rhp.stats_){
-                add(*sp.second, sp.first);
-            }
+            copyStatistics_(rhp);
         }
 
         /*!
@@ -230,6 +228,7 @@ namespace sparta
             parent_(rhp.parent_),
             subreps_(std::move(rhp.subreps_)),
             stats_(std::move(rhp.stats_)),
+            stat_names_(std::move(rhp.stat_names_)),
             start_tick_(rhp.start_tick_),
             end_tick_(rhp.end_tick_),
             info_string_(std::move(rhp.info_string_)),
@@ -261,16 +260,16 @@ namespace sparta
                 sr.setParent_(this);
             }
 
-            stats_.clear(); // Clear local stats
+            // Clear local stats
+            stats_.clear();
+            stat_names_.clear();
+            sub_statistics_.clear();
 
             // Copy StatisticInstances
-            for(const statistics::stat_pair_t& sp : rhp.stats_){
-                add(*sp.second, sp.first);
-            }
+            copyStatistics_(rhp);
             start_tick_ = rhp.start_tick_;
             end_tick_ = rhp.end_tick_;
             info_string_ = rhp.info_string_;
-            sub_statistics_ = rhp.sub_statistics_;
             return *this;
         }
 
@@ -1213,6 +1212,25 @@ namespace sparta
             }
         }
 
+        /*!
+         * \brief Copies the statistics of another report into this report, which
+         * has none. The substatistics of rhp are among its statistics already, so
+         * they are not created again: only the mapping to them is carried over.
+         */
+        void copyStatistics_(const Report& rhp) {
+            std::map<const StatisticInstance*, const StatisticInstance*> copies;
+            for(const statistics::stat_pair_t& sp : rhp.stats_){
+                addField_<const StatisticInstance&>(sp.first, *sp.second);
+                copies[sp.second.get()] = stats_.back().second.get();
+            }
+            stat_names_ = rhp.stat_names_;
+            for(const auto& sub : rhp.sub_statistics_){
+                for(const StatisticInstance* stat : sub.second){
+                    sub_statistics_[sub.first].emplace_back(copies.at(stat));
+                }
+            }
+        }
+
         /*!
          * \brief Sets the parent link of this report.
          * \param parent Report to assign as this reports parent. Can be nullptr
-- 
2.43.0


From cf3e73ac36f56aa8d09e9bbc8cb4c77e5656f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:50 +0000
Subject: [PATCH 066/120] fix: keep trigger clock handlers until their event
 has passed and skip triggers removed within a tick

---
 sparta/sparta/trigger/TriggerManager.hpp | 78 +++++++++++++++++++++---
 1 file changed, 69 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/trigger/TriggerManager.hpp b/sparta/sparta/trigger/TriggerManager.hpp
index 95fda50..235978d 100644
--- a/sparta/sparta/trigger/TriggerManager.hpp
+++ b/sparta/sparta/trigger/TriggerManager.hpp
@@ -115,6 +115,12 @@ public:
             // Does not have a handler for this clock
             clocks_[trig->getClock()].reset(handler = new ClockHandler(trig->getClock()));
         }else{
+            if(!handler_itr->second->isLive(trig->getClock())){
+                // The event of this handler is gone: it ran out of triggers,
+                // or it belongs to a scheduler which was cleared or destroyed
+                handler_itr->second.reset(new ClockHandler(trig->getClock(),
+                                                           *handler_itr->second));
+            }
             handler = handler_itr->second.get();
         }
 
@@ -148,7 +154,7 @@ public:
         }
 
         handler_itr->second->removeTrigger(trig);
-        if (handler_itr->second->getNumTriggers() == 0) {
+        if (handler_itr->second->isIdle()) {
             clocks_.erase(handler_itr);
         }
     }
@@ -184,6 +190,7 @@ private:
          */
         ClockHandler(const Clock* clock) :
             clock_(clock),
+            scheduler_(clock->getScheduler()),
             event_("clock_handler_event_" + notNull(clock)->getName(),
                    CREATE_SPARTA_HANDLER(ClockHandler, clockTick_),
                    clock),
@@ -191,6 +198,17 @@ private:
         {
             // Schedule for the top of the tick on the next cycle
             event_.schedule(1);
+            scheduled_ = true;
+        }
+
+        /*!
+         * \brief Construct a handler which takes over the triggers of one
+         * that is no longer live
+         */
+        ClockHandler(const Clock* clock, const ClockHandler & dead) :
+            ClockHandler(clock)
+        {
+            triggers_ = dead.triggers_;
         }
 
         /*!
@@ -199,6 +217,23 @@ private:
         ~ClockHandler()
         {;}
 
+        /*!
+         * \brief Will this handler be called again by the given clock's scheduler?
+         */
+        bool isLive(const Clock* clock) const {
+            return in_tick_ || (scheduled_ &&
+                                scheduler_ == clock->getScheduler() &&
+                                event_.isScheduled());
+        }
+
+        /*!
+         * \brief Is this handler without triggers and without a pending event?
+         * Only then can it be destroyed.
+         */
+        bool isIdle() const {
+            return !in_tick_ && !scheduled_ && triggers_.empty();
+        }
+
         /*!
          * \brief Gets the number of triggers currently observed by this handler
          */
@@ -313,6 +348,10 @@ private:
                               "ClockHandler removeTriggerDefferred_ called but ClockHandler was not "
                               "currently within a tick");
 
+            // May have been added within this tick
+            to_add_.erase(std::remove(to_add_.begin(), to_add_.end(), trig),
+                          to_add_.end());
+
             to_remove_.push_back(trig);
         }
 
@@ -357,16 +396,27 @@ private:
          * \brief Tick event from scheduler. Indicates a clock edge
          */
         void clockTick_() {
-            // Toggle in_tick_ and handle deferred removals & additions at end
-            // of this function
-            TickLock tl(*this);
-
-            for(auto trig : triggers_){
-                trig->check();
+            scheduled_ = false;
+
+            {
+                // Toggle in_tick_ and handle deferred removals & additions at
+                // end of this block
+                TickLock tl(*this);
+
+                for(auto trig : triggers_){
+                    // Triggers removed (and maybe destroyed) within this tick
+                    // must not be checked
+                    if(std::find(to_remove_.begin(), to_remove_.end(), trig) == to_remove_.end()){
+                        trig->check();
+                    }
+                }
             }
 
-            // Schedule for next cycle on this event's clock
-            event_.schedule(1, clock_);
+            if(!triggers_.empty()){
+                // Schedule for next cycle on this event's clock
+                event_.schedule(1, clock_);
+                scheduled_ = true;
+            }
         }
 
 
@@ -375,6 +425,11 @@ private:
          */
         const Clock* clock_;
 
+        /*!
+         * \brief Scheduler of event_
+         */
+        const Scheduler* scheduler_;
+
         /*!
          * \brief Callback for clock ticks
          */
@@ -400,6 +455,11 @@ private:
          */
         bool in_tick_;
 
+        /*!
+         * \brief Is event_ pending?
+         */
+        bool scheduled_ = false;
+
     }; // class ClockHandler
 
 
-- 
2.43.0


From cf9046cd7e59ee870a6d57c4c4520335ee0dfef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:50 +0000
Subject: [PATCH 067/120] fix: let triggers be deactivated, set, copied and
 assigned before the scheduler is finalized

---
 sparta/sparta/trigger/ManagedTrigger.hpp | 26 ++++++++++++++++--------
 sparta/sparta/trigger/SingleTrigger.hpp  | 10 +++++++--
 sparta/src/Trigger.cpp                   | 19 +++++++++++++++--
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/trigger/ManagedTrigger.hpp b/sparta/sparta/trigger/ManagedTrigger.hpp
index 25d8924..87c2ffc 100644
--- a/sparta/sparta/trigger/ManagedTrigger.hpp
+++ b/sparta/sparta/trigger/ManagedTrigger.hpp
@@ -28,26 +28,28 @@ public:
     ManagedTrigger(const ManagedTrigger & rhp) :
         name_(rhp.name_),
         clk_(rhp.clk_),
-        active_(rhp.active_),
-        register_handler_(rhp.register_handler_)
+        register_handler_(
+            CREATE_SPARTA_HANDLER(ManagedTrigger,
+                                registerAtStartup_))
     {
-        if (active_) {
+        if (rhp.active_ || rhp.register_at_startup_) {
             registerSelf_();
         }
     }
 
     ManagedTrigger & operator=(const ManagedTrigger & rhp) {
+        if (this == &rhp) {
+            return *this;
+        }
+
         // End current observation
-        active_ = false;
-        deregisterSelf_();
+        deactivate_();
 
         name_ = rhp.name_;
         clk_ = rhp.clk_;
-        active_ = rhp.active_;
-        register_handler_ = rhp.register_handler_;
 
         // Reregister if active
-        if (active_) {
+        if (rhp.active_ || rhp.register_at_startup_) {
             registerSelf_();
         }
 
@@ -84,7 +86,7 @@ protected:
         clk_(clk),
         register_handler_(
             CREATE_SPARTA_HANDLER(ManagedTrigger,
-                                registerSelf_))
+                                registerAtStartup_))
     {
         sparta_assert(clk_ != nullptr,
                     "Cannot instantiate a ManagedTrigger with a null clock");
@@ -102,12 +104,18 @@ protected:
 private:
     void deregisterSelf_() const;
 
+    //! Called once the scheduler is finalized; registers this trigger if it
+    //! was not deactivated since
+    void registerAtStartup_();
+
     virtual bool isTriggerReached_() const = 0;
     virtual void invokeTrigger_() = 0;
 
     std::string name_;
     const Clock * clk_ = nullptr;
     bool active_ = false;
+    bool register_at_startup_ = false;
+    bool startup_scheduled_ = false;
     SpartaHandler register_handler_;
     friend class ExpressionTrigger;
 };
diff --git a/sparta/sparta/trigger/SingleTrigger.hpp b/sparta/sparta/trigger/SingleTrigger.hpp
index efce56b..3d3ff69 100644
--- a/sparta/sparta/trigger/SingleTrigger.hpp
+++ b/sparta/sparta/trigger/SingleTrigger.hpp
@@ -647,7 +647,10 @@ private:
      */
     void postDAGFinalized_()
     {
-        set_();
+        // May have been deactivated, or set more than once, before
+        if(trigger_set_ && !scheduled_) {
+            set_();
+        }
     }
 
     /**
@@ -830,7 +833,10 @@ private:
      */
     void postDAGFinalized_()
     {
-        set_();
+        // May have been deactivated, or set more than once, before
+        if(trigger_set_ && !scheduled_) {
+            set_();
+        }
     }
 
     /**
diff --git a/sparta/src/Trigger.cpp b/sparta/src/Trigger.cpp
index bb5f328..8dbbfbe 100644
--- a/sparta/src/Trigger.cpp
+++ b/sparta/src/Trigger.cpp
@@ -64,6 +64,7 @@ CounterTrigger& CounterTrigger::operator= (const CounterTrigger& rhp)
     // Copy over data and re-register
     sparta_assert(rhp.counter_);
     counter_ = rhp.counter_;
+    counter_wref_ = rhp.counter_wref_;
     trigger_point_ = rhp.trigger_point_;
 
     return *this;
@@ -111,8 +112,21 @@ void ManagedTrigger::registerSelf_()
         TriggerManager::getTriggerManager().addTrigger(this);
         active_ = true;
     } else {
-        StartupEvent(scheduler,
-                     register_handler_);
+        register_at_startup_ = true;
+        if (!startup_scheduled_) {
+            StartupEvent(scheduler,
+                         register_handler_);
+            startup_scheduled_ = true;
+        }
+    }
+}
+
+void ManagedTrigger::registerAtStartup_()
+{
+    startup_scheduled_ = false;
+    if (register_at_startup_) {
+        register_at_startup_ = false;
+        registerSelf_();
     }
 }
 
@@ -125,6 +139,7 @@ void ManagedTrigger::deactivate_()
 {
     deregisterSelf_();
     active_ = false;
+    register_at_startup_ = false;
 }
 
 bool ManagedTrigger::isActive_() const
-- 
2.43.0


From 641a72ea7b210d024b57eb911ae0e87529c928ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 068/120] fix: let a triggered object stop the recurrence of
 its trigger

---
 sparta/sparta/trigger/Trigger.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/trigger/Trigger.hpp b/sparta/sparta/trigger/Trigger.hpp
index a86683d..0d871c4 100644
--- a/sparta/sparta/trigger/Trigger.hpp
+++ b/sparta/sparta/trigger/Trigger.hpp
@@ -224,6 +224,7 @@ public:
      * does not reschedule indefinetly
      */
     void forceStopRecurring(){
+        repeating_ = false;
         triggers_[REPEAT]->deactivate();
     }
 private:
@@ -313,7 +314,9 @@ private:
             obj->repeat();
         }
 
-        set_repeats_();
+        if(repeating_){ // May have been forced to stop by an object
+            set_repeats_();
+        }
     }
 
     /**
-- 
2.43.0


From 20cc6872ed499839930f518db7c521721aac8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 069/120] fix: start the maximum of a weighted context counter
 from the lowest double

---
 sparta/sparta/statistics/WeightedContextCounter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/statistics/WeightedContextCounter.hpp b/sparta/sparta/statistics/WeightedContextCounter.hpp
index 35c9512..651b564 100644
--- a/sparta/sparta/statistics/WeightedContextCounter.hpp
+++ b/sparta/sparta/statistics/WeightedContextCounter.hpp
@@ -83,7 +83,7 @@ private:
 
     void max_() {
         sparta_assert(this->numContexts() > 0);
-        maximum_ = std::numeric_limits<double>::min();
+        maximum_ = std::numeric_limits<double>::lowest();
         for (const auto & internal_ctr : *this) {
             maximum_ = std::max(maximum_, static_cast<double>(internal_ctr.get()));
         }
-- 
2.43.0


From b51825515b1b3e4b37027bbe60d03d4fece379df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 070/120] fix: fire nested trigger expressions once their
 outermost expression is true

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index ac26cdc..19f5cf8 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -603,8 +603,10 @@ private:
         SpartaHandler cb = CREATE_SPARTA_HANDLER(ExpressionTrigger, notify);
 
         while (!placeholders.empty()) {
+            //These only notify the triggers that reference them
             std::unique_ptr<ExpressionTrigger> trigger(new ExpressionTrigger(
-                name, cb, placeholders.front().first, context, report_container_));
+                name, CREATE_SPARTA_HANDLER(ExpressionTrigger, ignore_),
+                placeholders.front().first, context, report_container_));
 
             trigger->disableMessages();
             trigger->setReferenceEvent(placeholders.front().second, "internal");
@@ -626,9 +628,6 @@ private:
         trigger->disableMessages();
         internal_expression_triggers_.emplace_back(trigger.release());
 
-        //Now that the expression has been replaced piece by piece with these
-        //intermediate UUID tags, determine how many other triggers this last
-        //ExpressionTrigger is waiting on
         auto and_operands = ExpressionTrigger::separateByDelimiter_(replaced_expression, "&&");
         auto or_operands  = ExpressionTrigger::separateByDelimiter_(replaced_expression, "||");
 
@@ -643,11 +642,8 @@ private:
         //split by delimiter '&&'.
         sparta_assert(and_operands.size() <= 1 || or_operands.size() <= 1);
 
-        if (and_operands.size() > 1) {
-            waiting_on_ = and_operands.size();
-        } else {
-            waiting_on_ = 1;
-        }
+        //The last trigger stands for the whole expression
+        waiting_on_ = 1;
 
         supports_single_ct_trig_cb_ = false;
         expression_can_be_negated_ = false;
@@ -1140,6 +1136,13 @@ private:
         return false;
     }
 
+    /*!
+     * \brief Callback of the triggers made for sub-expressions
+     */
+    void ignore_()
+    {
+    }
+
     /*!
      * \brief One of our triggers has just hit. Update class internals and invoke
      * the client's callback based on our policy (&&, ||, no policy).
-- 
2.43.0


From 0b35258ebbabb92c0145635c275013fa5565e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 071/120] fix: count a notification operand of a trigger
 expression only once

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index 19f5cf8..6626f14 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -294,6 +294,9 @@ public:
             trigger->awaken();
         }
         if (waiting_on_ == 0) {
+            for (auto & trigger : source_notification_triggers_) {
+                trigger->rearm();
+            }
             waiting_on_ = source_notification_triggers_.size();
             has_fired_ = false;
         }
@@ -1322,10 +1325,17 @@ private:
             suspended_ = false;
         }
 
+        //! Let this trigger notify its dependent expressions once more
+        void rearm()
+        {
+            notified_ = false;
+        }
+
     private:
         void checkPayload_(const uint64_t & payload)
         {
-            if (suspended_) {
+            //An operand of an expression must not be counted twice
+            if (suspended_ || notified_) {
                 return;
             }
 
@@ -1337,6 +1347,7 @@ private:
 
             //Otherwise, let the comparator let us know if it is time to trigger
             else if(predicate_->eval(payload)) {
+                notified_ = true;
                 for (auto & expression_trig : dependent_triggers_) {
                     expression_trig->notify();
                 }
@@ -1352,6 +1363,7 @@ private:
         DependentTriggers dependent_triggers_;
         bool clear_dependent_triggers_on_fire_ = true;
         bool suspended_ = false;
+        bool notified_ = false;
         TreeNode * context_ = nullptr;
         std::string channel_;
         bool registered_ = false;
-- 
2.43.0


From c0600882a5770901268d1748027aefb1c484417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 072/120] fix: notify dependent trigger expressions in the
 order of their creation

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 4 ++--
 sparta/src/ExpressionTrigger.cpp            | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index 6626f14..3034c66 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -1301,14 +1301,14 @@ private:
         void addDependentExpression(ExpressionTrigger * dependent)
         {
             sparta_assert(dependent);
-            dependent_triggers_.insert(dependent);
+            dependent_triggers_.push_back(dependent);
         }
 
         //Use sets of dependent triggers to guarantee uniqueness -
         //there is no valid use case for notifying the exact same
         //dependent expression more than once that we ('this') have
         //triggered / evaluated to TRUE
-        typedef std::set<ExpressionTrigger*> DependentTriggers;
+        typedef std::vector<ExpressionTrigger*> DependentTriggers;
 
         void stayActive()
         {
diff --git a/sparta/src/ExpressionTrigger.cpp b/sparta/src/ExpressionTrigger.cpp
index 875df41..9bfeffa 100644
--- a/sparta/src/ExpressionTrigger.cpp
+++ b/sparta/src/ExpressionTrigger.cpp
@@ -82,7 +82,11 @@ bool ExpressionTrigger::tryAddReferencedTrigger_(const std::string & expression)
             if (found != refs.end()) {
                 //Attach ourselves to other expression triggers without their knowledge!
                 ExpressionTrigger * referenced_trigger = found->second;
-                referenced_trigger->dependent_triggers_.insert(this);
+                // Notified in this order, once each
+                auto & dependents = referenced_trigger->dependent_triggers_;
+                if (std::find(dependents.begin(), dependents.end(), this) == dependents.end()) {
+                    dependents.push_back(this);
+                }
 
                 supports_single_ct_trig_cb_ = false;
                 expression_can_be_negated_ = false;
-- 
2.43.0


From 9e3119f57dba432b5ff0ac1f88ad610465792642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 073/120] fix: keep an expired trigger expression from firing
 when an expression it references fires

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index 3034c66..b216b4a 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -487,6 +487,9 @@ private:
     // effectively dead, but without invoking our destructor. Called by
     // the ExpiringExpressionTrigger class to overcome valgrind failures.
     void deactivateAllInternals_() {
+        // Referenced triggers may still notify us
+        deactivated_ = true;
+
         for (auto & trig : source_counter_triggers_) {
             // CounterTrigger : public SingleTrigger
             trig->deactivate();
@@ -1152,7 +1155,7 @@ private:
      */
     void decrement_()
     {
-        if (has_fired_) {
+        if (has_fired_ || deactivated_) {
             return;
         }
 
@@ -1415,6 +1418,7 @@ private:
     Policy policy_ = Policy::ALL;
     size_t waiting_on_ = 0;
     bool has_fired_ = false;
+    bool deactivated_ = false;
     friend class ExpiringExpressionTrigger;
 
     //... ==, <, >= ...
-- 
2.43.0


From a12a5a71038a31b98c9f80969c7b95b62726b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 074/120] fix: let observers of the virtual global node observe
 the sources below it exactly once

---
 sparta/sparta/log/NotificationSource.hpp           | 9 ++++++---
 sparta/sparta/simulation/VirtualGlobalTreeNode.hpp | 6 ++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/log/NotificationSource.hpp b/sparta/sparta/log/NotificationSource.hpp
index e68ff32..c74416d 100644
--- a/sparta/sparta/log/NotificationSource.hpp
+++ b/sparta/sparta/log/NotificationSource.hpp
@@ -622,10 +622,13 @@ namespace sparta
                 node = node->getParent();
             }
 
+            // Already visited as an ancestor of the global sources
             node = getVirtualGlobalNode();
-            node->getDelegatesRegisteredForNotification(noti_tinfo_, noti_id_, dels_);
-            if(node->hasObserversRegisteredForNotification(noti_tinfo_, noti_id_)){
-                obs_nodes_.push_back(node);
+            if(getRoot() != node){
+                node->getDelegatesRegisteredForNotification(noti_tinfo_, noti_id_, dels_);
+                if(node->hasObserversRegisteredForNotification(noti_tinfo_, noti_id_)){
+                    obs_nodes_.push_back(node);
+                }
             }
 
             // Update observed flag
diff --git a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
index 8f64739..012141e 100644
--- a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
+++ b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
@@ -204,6 +204,9 @@ namespace sparta
                     child.lock()->broadcastRegistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
                 }
             }
+
+            // Global sources are children of this node
+            TreeNode::broadcastRegistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
         }
 
         // Override from TreeNode
@@ -220,6 +223,9 @@ namespace sparta
                     child.lock()->broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
                 }
             }
+
+            // Global sources are children of this node
+            TreeNode::broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
         }
 
         // Override from TreeNode
-- 
2.43.0


From fa4bd188da8ecfc777adc87c46aa9f773c802fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 075/120] fix: match each name of a list against notification
 sources added after the registration

---
 sparta/sparta/simulation/TreeNode.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/simulation/TreeNode.hpp b/sparta/sparta/simulation/TreeNode.hpp
index fe79f05..363b41c 100644
--- a/sparta/sparta/simulation/TreeNode.hpp
+++ b/sparta/sparta/simulation/TreeNode.hpp
@@ -3068,15 +3068,23 @@ namespace sparta
              * all notification names of a given data type)
              * \return true if both:
              * \li This delegate has the same observation point as obs_pt
-             * \li This delegate has either a name matching the name argument or
+             * \li This delegate has either a name (or a name in its
+             * comma-separated list of names) matching the name argument or
              * the delegate name StringManager::EMPTY (empty string) (this
              * implies that the delegate observes all notification names for the
              * given data type)
              */
             bool observes(const TreeNode& obs_pt, const std::string* name) const
             {
-                return (&obs_pt == obs_point)
-                       && TreeNode::notificationCategoryMatch(name_ptr, name);
+                if(&obs_pt != obs_point){
+                    return false;
+                }
+                for(const std::string* observed : TreeNode::parseNotificationNameString(*name_ptr)){
+                    if(TreeNode::notificationCategoryMatch(observed, name)){
+                        return true;
+                    }
+                }
+                return false;
             }
 
             /*!
@@ -4333,6 +4341,8 @@ namespace sparta
                     << "It is possible the node generating the desired notification is in a private sub tree.";
             }
 
+            parseNotificationNameString(name); // Refuse a malformed list before observing anything
+
             DelegateVector& observers = obs_local_[data_type]; // Create notification map
             if(findDelegate_<DataT, T, TMethod>(observers, obj, name) != observers.end()){
                 throw SpartaException("Already observing a notification for data type \"")
@@ -4364,6 +4374,8 @@ namespace sparta
                     << "It is possible the node generating the desired notification is in a private sub tree.";
             }
 
+            parseNotificationNameString(name); // Refuse a malformed list before observing anything
+
             DelegateVector& observers = obs_local_[data_type]; // Create notification map
             if(findDelegate_<DataT, T, TMethod>(observers, obj, name) != observers.end()){
                 throw SpartaException("Already observing a notification for data type \"")
-- 
2.43.0


From 77c8cd405a1673ec9ac36b83d3ebc6f0e332368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 076/120] fix: emit a moved log message once and with
 everything inserted after the move

---
 sparta/sparta/log/MessageSource.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/log/MessageSource.hpp b/sparta/sparta/log/MessageSource.hpp
index 1368226..70c009d 100644
--- a/sparta/sparta/log/MessageSource.hpp
+++ b/sparta/sparta/log/MessageSource.hpp
@@ -149,8 +149,10 @@ namespace sparta
                 //! Move constructor
                 LogObject(LogObject&& rhp) :
                     src_(rhp.src_),
-                    s_(rhp.s_.str()) // May unfortunately involve a copy
-                { }
+                    s_(std::move(rhp.s_))
+                {
+                    rhp.cancel(); // Only the new object emits the message
+                }
 
                 //! \brief Not Copy-constructable
                 LogObject(const LogObject& rhp) = delete;
-- 
2.43.0


From b00e9293d354a17c684f135cb92c8a90de5d881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 077/120] fix: tell the node a tap was reset to as its observed
 node

---
 sparta/sparta/log/Tap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/log/Tap.hpp b/sparta/sparta/log/Tap.hpp
index 7bc3d56..d88cc2e 100644
--- a/sparta/sparta/log/Tap.hpp
+++ b/sparta/sparta/log/Tap.hpp
@@ -128,6 +128,7 @@ namespace sparta
             void reset(TreeNode* node) {
                 detach();
 
+                node_ = node;
                 if(nullptr != node){
                     node_wptr_ = node->getWeakPtr();
 
-- 
2.43.0


From d60ed2cada37c1da5a8c671eaf1e4d80e5bb9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 078/120] fix: restore the fill character of a stream after
 writing a log message

---
 sparta/src/Destination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/src/Destination.cpp b/sparta/src/Destination.cpp
index cb3b3cd..6d5f18a 100644
--- a/sparta/src/Destination.cpp
+++ b/sparta/src/Destination.cpp
@@ -50,6 +50,7 @@ const Formatter::Info* Formatter::FORMATTERS = FMTLIST;
 void DefaultFormatter::write(const sparta::log::Message& msg)
 {
     std::ios::fmtflags f = stream_.flags();
+    const char fill = stream_.fill();
 
     stream_ << '{';
 
@@ -76,6 +77,7 @@ void DefaultFormatter::write(const sparta::log::Message& msg)
 
     // restore ostream flags
     stream_.flags(f);
+    stream_.fill(fill);
 
     stream_.flush();
 }
-- 
2.43.0


From ff7626f9007a01207b1754af8a86b650705365bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 079/120] fix: choose the log format by the extension at the
 end of the file name

---
 sparta/sparta/log/Destination.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/log/Destination.hpp b/sparta/sparta/log/Destination.hpp
index 9dc4fc2..abfed5d 100644
--- a/sparta/sparta/log/Destination.hpp
+++ b/sparta/sparta/log/Destination.hpp
@@ -480,7 +480,7 @@ namespace sparta
                         break; // End of the list. Use this formatter
                     }
                     std::string ext = fmtinfo_->extension;
-                    size_t pos = filename.find(ext);
+                    size_t pos = filename.rfind(ext);
                     if(pos != std::string::npos && pos == filename.size() - ext.size()){
                         break; // Use this fmtinfo_->factory to construct
                     }
-- 
2.43.0


From c2c4d807d8fe7c1223c70baa71e91d24c70c97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:15 +0000
Subject: [PATCH 080/120] fix: notify every observer when a callback adds or
 removes observers

---
 sparta/sparta/log/NotificationSource.hpp | 29 +++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/log/NotificationSource.hpp b/sparta/sparta/log/NotificationSource.hpp
index c74416d..2f6a302 100644
--- a/sparta/sparta/log/NotificationSource.hpp
+++ b/sparta/sparta/log/NotificationSource.hpp
@@ -490,6 +490,20 @@ namespace sparta
          */
         mutable uint64_t num_posts_;
 
+        /*!
+         * \brief Position of a post in progress within dels_
+         */
+        struct PostCursor {
+            size_t next;       //!< Next observer to notify
+            size_t end;        //!< End of the observers to notify
+            PostCursor* outer; //!< Post (of this same node) during which this one was made
+        };
+
+        /*!
+         * \brief Innermost post in progress. nullptr if there is none
+         */
+        mutable PostCursor* post_cursor_ = nullptr;
+
         // Override from TreeNode
         //! \post Updates observed status
         virtual void notificationObserverAdded_(const std::type_info& tinfo,
@@ -536,6 +550,11 @@ namespace sparta
 
             auto delitr = std::find(dels_.begin(), dels_.end(), *del);
             if(delitr != dels_.end()){
+                const size_t pos = delitr - dels_.begin();
+                for(PostCursor* c = post_cursor_; c != nullptr; c = c->outer){
+                    c->next -= (pos < c->next);
+                    c->end -= (pos < c->end);
+                }
                 dels_.erase(delitr);
             }
 
@@ -970,7 +989,15 @@ namespace sparta
             // Directly invoke all applicable delegates.
             // Note that this works even if ancestors are destroyed because
             // deregistration does not take place.
-            for(const delegate& d : dels_){
+            // Observers may be added and removed by the callbacks
+            PostCursor cursor{0, dels_.size(), post_cursor_};
+            post_cursor_ = &cursor;
+            struct CursorReset {
+                PostCursor*& current;
+                ~CursorReset() { current = current->outer; }
+            } cursor_reset{post_cursor_};
+            while(cursor.next < cursor.end){
+                const delegate d = dels_[cursor.next++];
                 d(*this, data);
             }
         }
-- 
2.43.0


From f6737e6e4d840899df32e4a2c688d3e995ac1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:25 +0000
Subject: [PATCH 081/120] fix: register an observer of the virtual global node
 once with the sources of each tree

---
 sparta/sparta/simulation/VirtualGlobalTreeNode.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
index 012141e..0acb643 100644
--- a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
+++ b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <memory>
 
+#include "sparta/simulation/RootTreeNode.hpp"
 #include "sparta/simulation/TreeNode.hpp"
 #include "sparta/log/MessageSource.hpp"
 
@@ -200,7 +201,7 @@ namespace sparta
             (void)private_only;
             for(auto& n : statics_->parentless_map_){
                 sparta::TreeNode::WeakPtr& child = n.second;
-                if(child.expired() == false){
+                if(child.expired() == false && !isInSearchScope_(n.first)){
                     child.lock()->broadcastRegistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
                 }
             }
@@ -219,7 +220,7 @@ namespace sparta
             (void)private_only;
             for(auto& n : statics_->parentless_map_){
                 sparta::TreeNode::WeakPtr& child = n.second;
-                if(child.expired() == false){
+                if(child.expired() == false && !isInSearchScope_(n.first)){
                     child.lock()->broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
                 }
             }
@@ -228,6 +229,12 @@ namespace sparta
             TreeNode::broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
         }
 
+        // Trees are parentless but also the children of their search scopes,
+        // which are parentless themselves
+        static bool isInSearchScope_(const TreeNode* parentless) {
+            return dynamic_cast<const RootTreeNode*>(parentless) != nullptr;
+        }
+
         // Override from TreeNode
         // Virtual global node cannot generate any notifications!
         virtual bool canGenerateNotification_(const std::type_info&,
-- 
2.43.0


From 1df6449ce6f0ca12caa9afd570cda167a028f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:25 +0000
Subject: [PATCH 082/120] fix: accept a registration for a list of names if one
 of them is possible

---
 sparta/sparta/simulation/TreeNode.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/simulation/TreeNode.hpp b/sparta/sparta/simulation/TreeNode.hpp
index 363b41c..1c6f9ca 100644
--- a/sparta/sparta/simulation/TreeNode.hpp
+++ b/sparta/sparta/simulation/TreeNode.hpp
@@ -4331,7 +4331,8 @@ namespace sparta
         {
             (void)allow_private;
             const std::type_info& data_type = typeid(DataT);
-            if(true == ensure_possible && false == canSubtreeGenerateNotification(data_type, name)){
+            const auto names = parseNotificationNameString(name); // Refuses a malformed list
+            if(true == ensure_possible && false == canSubtreeGenerateNotifications(data_type, names)){
                 throw SpartaException("Cannot registerForNotification for data type \"")
                     << demangle(typeid(DataT).name()) << "\" and name=\"" << name << "\" on node " << getLocation()
                     << " with callback on \"" << demangle(typeid(T).name()) << "\""
@@ -4341,8 +4342,6 @@ namespace sparta
                     << "It is possible the node generating the desired notification is in a private sub tree.";
             }
 
-            parseNotificationNameString(name); // Refuse a malformed list before observing anything
-
             DelegateVector& observers = obs_local_[data_type]; // Create notification map
             if(findDelegate_<DataT, T, TMethod>(observers, obj, name) != observers.end()){
                 throw SpartaException("Already observing a notification for data type \"")
@@ -4364,7 +4363,8 @@ namespace sparta
         {
             (void)allow_private;
             const std::type_info& data_type = typeid(DataT);
-            if(true == ensure_possible && false == canSubtreeGenerateNotification(data_type, name)){
+            const auto names = parseNotificationNameString(name); // Refuses a malformed list
+            if(true == ensure_possible && false == canSubtreeGenerateNotifications(data_type, names)){
                 throw SpartaException("Cannot registerForNotification for data type \"")
                     << demangle(typeid(DataT).name()) << "\" and name=\"" << name << "\" on node " << getLocation()
                     << " with callback on \"" << demangle(typeid(T).name()) << "\""
@@ -4374,8 +4374,6 @@ namespace sparta
                     << "It is possible the node generating the desired notification is in a private sub tree.";
             }
 
-            parseNotificationNameString(name); // Refuse a malformed list before observing anything
-
             DelegateVector& observers = obs_local_[data_type]; // Create notification map
             if(findDelegate_<DataT, T, TMethod>(observers, obj, name) != observers.end()){
                 throw SpartaException("Already observing a notification for data type \"")
-- 
2.43.0


From 08154a946fa08efc582747400216e894dde85131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:30 +0000
Subject: [PATCH 083/120] fix: hide sources added in a private subtree from
 observers that cannot see them

---
 sparta/sparta/log/NotificationSource.hpp | 10 +++++----
 sparta/sparta/simulation/TreeNode.hpp    | 26 +++++++++++++++++++++---
 sparta/src/TreeNode.cpp                  | 12 +++++++++--
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/log/NotificationSource.hpp b/sparta/sparta/log/NotificationSource.hpp
index 2f6a302..3fe3383 100644
--- a/sparta/sparta/log/NotificationSource.hpp
+++ b/sparta/sparta/log/NotificationSource.hpp
@@ -634,8 +634,9 @@ namespace sparta
 
             TreeNode* node = this;
             while(node){
-                node->getDelegatesRegisteredForNotification(noti_tinfo_, noti_id_, dels_);
-                if(node->hasObserversRegisteredForNotification(noti_tinfo_, noti_id_)){
+                const size_t num_dels = dels_.size();
+                node->getDelegatesRegisteredForNotification(noti_tinfo_, noti_id_, dels_, this);
+                if(dels_.size() > num_dels){
                     obs_nodes_.push_back(node);
                 }
                 node = node->getParent();
@@ -644,8 +645,9 @@ namespace sparta
             // Already visited as an ancestor of the global sources
             node = getVirtualGlobalNode();
             if(getRoot() != node){
-                node->getDelegatesRegisteredForNotification(noti_tinfo_, noti_id_, dels_);
-                if(node->hasObserversRegisteredForNotification(noti_tinfo_, noti_id_)){
+                const size_t num_dels = dels_.size();
+                node->getDelegatesRegisteredForNotification(noti_tinfo_, noti_id_, dels_, this);
+                if(dels_.size() > num_dels){
                     obs_nodes_.push_back(node);
                 }
             }
diff --git a/sparta/sparta/simulation/TreeNode.hpp b/sparta/sparta/simulation/TreeNode.hpp
index 1c6f9ca..4a762f2 100644
--- a/sparta/sparta/simulation/TreeNode.hpp
+++ b/sparta/sparta/simulation/TreeNode.hpp
@@ -2983,7 +2983,8 @@ namespace sparta
                 obs_point(d.obs_point),
                 name_ptr(d.name_ptr),
                 stub_ptr(d.stub_ptr),
-                reveals_origin(d.reveals_origin)
+                reveals_origin(d.reveals_origin),
+                sees_private(d.sees_private)
             { }
 
             //! \note This is required for placing delegates in a vector (for
@@ -2995,6 +2996,7 @@ namespace sparta
                 name_ptr = d.name_ptr;
                 stub_ptr = d.stub_ptr;
                 reveals_origin = d.reveals_origin;
+                sees_private = d.sees_private;
 
                 return *this;
             }
@@ -3004,7 +3006,8 @@ namespace sparta
                 obs_point(d.obs_point),
                 name_ptr(d.name_ptr),
                 stub_ptr(d.stub_ptr),
-                reveals_origin(d.reveals_origin)
+                reveals_origin(d.reveals_origin),
+                sees_private(d.sees_private)
             { }
 
 
@@ -3142,6 +3145,12 @@ namespace sparta
 
             bool revealsOrigin() const { return reveals_origin; }
 
+            //! Does this delegate observe the private subtrees below its observation point
+            bool seesPrivate() const { return sees_private; }
+
+            //! Sets whether this delegate observes private subtrees
+            void setSeesPrivate(bool sees) { sees_private = sees; }
+
         private:
 
             /*!
@@ -3235,6 +3244,12 @@ namespace sparta
              *        parameters.
              */
             bool reveals_origin = true;
+
+            /*!
+             * Does this delegate observe the private subtrees below its
+             * observation point
+             */
+            bool sees_private = false;
         };
 
         /*!
@@ -3931,10 +3946,13 @@ namespace sparta
          * ignore name)
          * \param dels Vector to which all found delegates matching search
          * parameters will be appended. This vector is not cleared
+         * \param source If not nullptr, only the delegates that can see this
+         * node are appended (see makeSubtreePrivate)
          */
         void getDelegatesRegisteredForNotification(const std::type_info& tinfo,
                                                    const std::string* name,
-                                                   std::vector<delegate>& dels) noexcept;
+                                                   std::vector<delegate>& dels,
+                                                   const TreeNode* source=nullptr) noexcept;
 
         /*!
          * \brief Checks if two notification categories match where one is an actual category
@@ -4351,6 +4369,7 @@ namespace sparta
             }
 
             delegate d = delegate::from_method<DataT, T, TMethod>(obj, *this, name);
+            d.setSeesPrivate(allow_private);
             observers.push_back(std::move(d));
 
             // Let children know
@@ -4383,6 +4402,7 @@ namespace sparta
             }
 
             delegate d = delegate::from_method<DataT, T, TMethod>(obj, *this, name);
+            d.setSeesPrivate(allow_private);
             observers.push_back(std::move(d));
 
             // Let children know
diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index d3d3c6f..a5f7f70 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -2649,18 +2649,26 @@ bool TreeNode::hasObserversRegisteredForNotification(const std::type_info& tinfo
 
 void TreeNode::getDelegatesRegisteredForNotification(const std::type_info& tinfo,
                                                      const std::string* name,
-                                                     std::vector<TreeNode::delegate>& dels) noexcept {
+                                                     std::vector<TreeNode::delegate>& dels,
+                                                     const TreeNode* source) noexcept {
     auto itr = obs_local_.find(tinfo);
     if(itr == obs_local_.end()){
         return; // No observers on DataT at all
     }
 
+    // The virtual global node sees what the top of each tree sees
+    const TreeNode* scope = this;
+    if(source != nullptr && this == getVirtualGlobalNode()){
+        scope = source->getRoot();
+    }
+    const bool visible = (source == nullptr) || scope->canSeeChild_(source);
+
     // Check all observers for named match
     DelegateVector& dvec = itr->second;
     const DelegateVector::iterator dend = dvec.end();
     DelegateVector::iterator d;
     for(d=dvec.begin(); d!=dend; ++d){
-        if(d->observes(*this, name)){
+        if(d->observes(*this, name) && (visible || d->seesPrivate())){
             dels.push_back(*d);
         }
     }
-- 
2.43.0


From 44fab43eab51ec36c03f087d04d2e3dfcd673c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:29 +0000
Subject: [PATCH 084/120] fix: do not list a node constructed with a parent as
 parentless

---
 sparta/src/TreeNode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index a5f7f70..75f8148 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -148,7 +148,9 @@ TreeNode::TreeNode(TreeNode* parent,
 
     // Track this node in global parentless list immediately so that
     // logging works
-    sparta::TreeNode::trackParentlessNode_(this);
+    if(parent == nullptr){
+        sparta::TreeNode::trackParentlessNode_(this);
+    }
 }
 
 TreeNode::TreeNode(TreeNode&& rhp) :
-- 
2.43.0


From 3076343c4d61bcc28ee2771766f304e71a13375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:38 +0000
Subject: [PATCH 085/120] fix: walk parentless nodes in the order of their
 creation, not of their addresses

---
 sparta/sparta/simulation/TreeNode.hpp | 16 ++++++++++++++--
 sparta/src/TreeNode.cpp               |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/simulation/TreeNode.hpp b/sparta/sparta/simulation/TreeNode.hpp
index 4a762f2..06098a2 100644
--- a/sparta/sparta/simulation/TreeNode.hpp
+++ b/sparta/sparta/simulation/TreeNode.hpp
@@ -436,7 +436,19 @@ namespace sparta
             lockdownParametersUtil_();
         }
 
-        static const std::map<const TreeNode*, WeakPtr>& getParentlessNodes();
+        /*!
+         * \brief Orders nodes by their creation, so that walking a container
+         * of nodes does not depend on their addresses
+         */
+        struct CreationOrder {
+            bool operator()(const TreeNode* a, const TreeNode* b) const {
+                // A moved node has the same ID as the node it was moved to
+                return (a->getNodeUID() != b->getNodeUID()) ?
+                    (a->getNodeUID() < b->getNodeUID()) : std::less<const TreeNode*>()(a, b);
+            }
+        };
+
+        static const std::map<const TreeNode*, WeakPtr, CreationOrder>& getParentlessNodes();
 
         /*!
          * \brief Gets the vector of all TreeNodes currently known to be
@@ -4740,7 +4752,7 @@ namespace sparta
              * \brief Vector of nodes having no parent so that the virtual global
              * node can notify them of observation if needed
              */
-            std::map<const TreeNode*, WeakPtr> parentless_map_;
+            std::map<const TreeNode*, WeakPtr, CreationOrder> parentless_map_;
 
             /*!
              * \brief Map of node pointers (which may be deleted) to weak
diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 75f8148..2ae9e5e 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -50,7 +50,7 @@ TreeNode* TreeNode::getVirtualGlobalNode() {
     return VirtualGlobalTreeNode::getInstance();
 }
 
-const std::map<const TreeNode*, TreeNode::WeakPtr>& TreeNode::getParentlessNodes()
+const std::map<const TreeNode*, TreeNode::WeakPtr, TreeNode::CreationOrder>& TreeNode::getParentlessNodes()
 {
     return statics_->parentless_map_;
 }
-- 
2.43.0


From 279c66cde14e4bc336ffedd0103a049a02d13bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:02 +0000
Subject: [PATCH 086/120] fix: DelayedCollectable::collect() with a delay must
 prepare its payload (it did not compile)

---
 sparta/sparta/collection/DelayedCollectable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/collection/DelayedCollectable.hpp b/sparta/sparta/collection/DelayedCollectable.hpp
index 3cae60d..96f06ed 100644
--- a/sparta/sparta/collection/DelayedCollectable.hpp
+++ b/sparta/sparta/collection/DelayedCollectable.hpp
@@ -121,7 +121,7 @@ namespace collection
             if(SPARTA_EXPECT_FALSE(isCollected()))
             {
                 if(delay != 0) {
-                    ev_collect_.schedule(val, delay);
+                    ev_collect_.preparePayload(val)->schedule(delay);
                 }
                 else {
                     Collectable<DataT>::collect(val);
-- 
2.43.0


From 886f60d035d715377cbfa546c82cbb6a539f11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 087/120] fix: the heartbeat of the pipeline collector is an
 interval of ticks, not of root clock cycles

---
 sparta/sparta/collection/PipelineCollector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/collection/PipelineCollector.hpp b/sparta/sparta/collection/PipelineCollector.hpp
index 8995789..67d38fb 100644
--- a/sparta/sparta/collection/PipelineCollector.hpp
+++ b/sparta/sparta/collection/PipelineCollector.hpp
@@ -611,7 +611,7 @@ namespace collection
                 last_heartbeat_ = scheduler_->getCurrentTick();
 
                 // Schedule another heartbeat
-                ev_heartbeat_.schedule(heartbeat_interval_);
+                ev_heartbeat_.scheduleRelativeTick(heartbeat_interval_, scheduler_);
             }
         }
 
-- 
2.43.0


From 9e23985598054188f726e7e5eb6ba49488b8d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 088/120] fix: collect in the order in which collectables were
 created, not of their addresses

---
 sparta/sparta/collection/PipelineCollector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/collection/PipelineCollector.hpp b/sparta/sparta/collection/PipelineCollector.hpp
index 67d38fb..a06c13e 100644
--- a/sparta/sparta/collection/PipelineCollector.hpp
+++ b/sparta/sparta/collection/PipelineCollector.hpp
@@ -159,7 +159,7 @@ namespace collection
             EventSet ev_set_;
 
             std::unique_ptr<sparta::Scheduleable> ev_collect_;
-            std::set<CollectableTreeNode*> enabled_ctns_;
+            std::set<CollectableTreeNode*, TreeNode::CreationOrder> enabled_ctns_;
         };
 
         // A map of the clock pointer and the structures that
@@ -169,7 +169,7 @@ namespace collection
                             sparta::NUM_SCHEDULING_PHASES>> clock_ctn_map_;
 
         // Registered collectables
-        std::set<CollectableTreeNode*> registered_collectables_;
+        std::set<CollectableTreeNode*, TreeNode::CreationOrder> registered_collectables_;
 
     public:
 
-- 
2.43.0


From 87bc49d47ed3b666f9b0ec248d96cb5fc11e6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:21 +0000
Subject: [PATCH 089/120] fix: starting the collection again must not drop the
 beginning of an open transaction

---
 sparta/sparta/collection/Collectable.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/collection/Collectable.hpp b/sparta/sparta/collection/Collectable.hpp
index 0e34713..6526940 100644
--- a/sparta/sparta/collection/Collectable.hpp
+++ b/sparta/sparta/collection/Collectable.hpp
@@ -315,7 +315,8 @@ namespace sparta{
                 sparta_assert(pipeline_col_ != nullptr,
                             "Collectables can only added to PipelineCollectors... for now");
 
-                if(collect && !prev_annot_.empty()) {
+                // (a transaction that is already open keeps its start time)
+                if(collect && record_closed_ && !prev_annot_.empty()) {
                     // Set the start time for this transaction to be
                     // moment collection is enabled.
                     startNewRecord_();
@@ -840,7 +841,8 @@ namespace sparta{
                     argos_record_.delimVector.emplace_back(formatter);
                 }
 
-                if(collect && hasData_()){
+                // (a transaction that is already open keeps its start time)
+                if(collect && record_closed_ && hasData_()){
 
                     // Set the start time for this transaction to be
                     // moment collection is enabled.
-- 
2.43.0


From f6c5304b81bc7744653c2c934ed187e9b64fb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:21 +0000
Subject: [PATCH 090/120] fix: a pair collectable must not repeat its formats
 each time it is started or stopped

---
 sparta/sparta/collection/Collectable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/collection/Collectable.hpp b/sparta/sparta/collection/Collectable.hpp
index 6526940..683d876 100644
--- a/sparta/sparta/collection/Collectable.hpp
+++ b/sparta/sparta/collection/Collectable.hpp
@@ -837,6 +837,7 @@ namespace sparta{
                 argos_record_.nameVector = getNameStrings();
                 argos_record_.length = argos_record_.nameVector.size();
                 has_display_id_field_ = (argos_record_.nameVector[0] == "DID");
+                argos_record_.delimVector.clear();
                 for(const auto formatter: getFormatVector()) {
                     argos_record_.delimVector.emplace_back(formatter);
                 }
-- 
2.43.0


From ca13a3f9c234481d8a687a95d7bc52fe87af9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:21 +0000
Subject: [PATCH 091/120] fix: a pair collectable must write its open
 transaction when it is stopped

---
 sparta/sparta/collection/Collectable.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparta/sparta/collection/Collectable.hpp b/sparta/sparta/collection/Collectable.hpp
index 683d876..73088d3 100644
--- a/sparta/sparta/collection/Collectable.hpp
+++ b/sparta/sparta/collection/Collectable.hpp
@@ -867,6 +867,11 @@ namespace sparta{
                         pipeline_col_->removeFromAutoCollection(this);
                     }
                 }
+
+                if(!collect && !record_closed_) {
+                    // Force the record to be written
+                    closeRecord();
+                }
             }
             // The pair collectable object to be collected
             const DataT * collected_object_ = nullptr;
-- 
2.43.0


From f9804117cdac65621b6d4197c79efc5fd05729fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:41 +0000
Subject: [PATCH 092/120] fix: a pair collectable that is not collected must
 ignore collect()

---
 sparta/sparta/collection/Collectable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/collection/Collectable.hpp b/sparta/sparta/collection/Collectable.hpp
index 73088d3..d708c5a 100644
--- a/sparta/sparta/collection/Collectable.hpp
+++ b/sparta/sparta/collection/Collectable.hpp
@@ -576,6 +576,10 @@ namespace sparta{
             MetaStruct::enable_if_t<!MetaStruct::is_any_pointer<T>::value, void>
             collect(const T & val)
             {
+                if(SPARTA_EXPECT_TRUE(!isCollected())) {
+                    return;
+                }
+
                 collect_(val);
 
                 // if the value pairs are not the same as the
-- 
2.43.0


From 38468edfbe589ea135158fdcc0670669a5e40b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:41 +0000
Subject: [PATCH 093/120] fix: every pipeline database describes its own pairs,
 also the second one of a process

---
 sparta/sparta/pipeViewer/Outputter.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/pipeViewer/Outputter.hpp b/sparta/sparta/pipeViewer/Outputter.hpp
index 6d40210..d84bfc8 100644
--- a/sparta/sparta/pipeViewer/Outputter.hpp
+++ b/sparta/sparta/pipeViewer/Outputter.hpp
@@ -114,6 +114,12 @@ namespace sparta::pipeViewer
         std::ofstream display_format_file_;
 
         uint64_t last_record_pos_; /*!< A pointer to the last record written */
+
+        //! What this database already describes in its map, data and string files
+        using multiIndex = std::tuple<uint64_t, uint64_t, uint64_t>;
+        std::unordered_set<uint32_t> loc_id_set_;
+        std::unordered_set<uint16_t> pair_id_set_;
+        std::unordered_map<multiIndex, std::string, hashtuple::hash<multiIndex>> string_map_;
     };
 
     /*!
@@ -137,21 +143,19 @@ namespace sparta::pipeViewer
     template<>
     inline void Outputter::writeTransaction(const pair_t & dat){
 
-        // A static Unordered Set which contains unique location id of the records.
-        static std::unordered_set<uint32_t> locIDSet;
+        // An Unordered Set which contains unique location id of the records.
+        auto & locIDSet = loc_id_set_;
 
-        // A static Unordered Set which contains unique pair id of the records.
-        static std::unordered_set<uint16_t> pairIDSet;
-
-        using multiIndex = std::tuple<uint64_t, uint64_t, uint64_t>;
+        // An Unordered Set which contains unique pair id of the records.
+        auto & pairIDSet = pair_id_set_;
 
-        // A static Unordered Map with a Tuple of 3 Integers as Key and a String as Value.
+        // An Unordered Map with a Tuple of 3 Integers as Key and a String as Value.
         // This map is used to store the String mappings from the Intermediate Integer values.
         // We use integers as this makes the database smaller and also very fast to write to Binary File.
         // The first Integer in the May Key is the unique Pair they bleong to.
         // The Second Integer is the Field number they belong to.
         // The Third Integer is the actual Integral value which corresponds to the String value.
-        static std::unordered_map<multiIndex, std::string, hashtuple::hash<multiIndex>> stringMap;
+        auto & stringMap = string_map_;
 
         // If we find a Location ID that we have not seen before, we store it in the Location ID set.
         if(locIDSet.emplace(dat.location_ID).second) {
-- 
2.43.0


From fc11d98c41ccd31d187fb102327f42b28341a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:07 +0000
Subject: [PATCH 094/120] fix: a transaction that starts in the last tick of
 the simulation must be written too

---
 sparta/sparta/collection/Collectable.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/collection/Collectable.hpp b/sparta/sparta/collection/Collectable.hpp
index d708c5a..d5ed93d 100644
--- a/sparta/sparta/collection/Collectable.hpp
+++ b/sparta/sparta/collection/Collectable.hpp
@@ -270,8 +270,10 @@ namespace sparta{
                             "Must startCollecting_ on this Collectable "
                             << getLocation() << " before a record can be written");
 
-                // This record hasn't changed, don't write it
-                if(SPARTA_EXPECT_FALSE(argos_record_.time_Start == pipeline_col_->getScheduler()->getCurrentTick())) {
+                // This record hasn't changed, don't write it (unless this
+                // is the last chance to do so)
+                if(SPARTA_EXPECT_FALSE(!simulation_ending &&
+                                       argos_record_.time_Start == pipeline_col_->getScheduler()->getCurrentTick())) {
                     return false;
                 }
 
@@ -798,8 +800,10 @@ namespace sparta{
                             "Must startCollecting_ on this Collectable "
                             << getLocation() << " before a record can be written");
 
-                // This record hasn't changed, don't write it
-                if(SPARTA_EXPECT_FALSE(argos_record_.time_Start == pipeline_col_->getScheduler()->getCurrentTick())) {
+                // This record hasn't changed, don't write it (unless this
+                // is the last chance to do so)
+                if(SPARTA_EXPECT_FALSE(!simulation_ending &&
+                                       argos_record_.time_Start == pipeline_col_->getScheduler()->getCurrentTick())) {
                     return false;
                 }
 
-- 
2.43.0


From 7bb4e92324d38692d851e0f3e5476a6f936c9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:07 +0000
Subject: [PATCH 095/120] fix: the pipeline collector can be torn down on a
 heartbeat that was not reached

---
 sparta/sparta/collection/PipelineCollector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/collection/PipelineCollector.hpp b/sparta/sparta/collection/PipelineCollector.hpp
index a06c13e..7688d57 100644
--- a/sparta/sparta/collection/PipelineCollector.hpp
+++ b/sparta/sparta/collection/PipelineCollector.hpp
@@ -310,6 +310,10 @@ namespace collection
         {
             if(collection_active_) {
                 sparta_assert(writer_ != nullptr, "Somehow collection is active, but we have a null writer");
+                if(scheduler_->getCurrentTick() >= last_heartbeat_ + heartbeat_interval_) {
+                    // The simulation ends on a heartbeat that it did not get to
+                    performHeartBeat_();
+                }
                 for(auto & ctn : registered_collectables_) {
                     if(ctn->isCollected()) {
                         ctn->closeRecord(true); // set true for simulation termination
-- 
2.43.0


From c2988e46e3f58f528315dcbe716b423d0bdbdf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:07 +0000
Subject: [PATCH 096/120] fix: collectables must not be collected any more once
 the pipeline collector was destroyed

---
 sparta/sparta/collection/PipelineCollector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/collection/PipelineCollector.hpp b/sparta/sparta/collection/PipelineCollector.hpp
index 7688d57..50274b7 100644
--- a/sparta/sparta/collection/PipelineCollector.hpp
+++ b/sparta/sparta/collection/PipelineCollector.hpp
@@ -317,6 +317,7 @@ namespace collection
                 for(auto & ctn : registered_collectables_) {
                     if(ctn->isCollected()) {
                         ctn->closeRecord(true); // set true for simulation termination
+                        ctn->stopCollecting(this);
                     }
                 }
             }
-- 
2.43.0


From 9e9ddd1241201959fded6ba82b24c542d0230b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:07 +0000
Subject: [PATCH 097/120] fix: an iterable collector that is stopped must leave
 the automatic collection

---
 sparta/sparta/collection/IterableCollector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/sparta/collection/IterableCollector.hpp b/sparta/sparta/collection/IterableCollector.hpp
index bb8b96f..2707882 100644
--- a/sparta/sparta/collection/IterableCollector.hpp
+++ b/sparta/sparta/collection/IterableCollector.hpp
@@ -332,6 +332,9 @@ private:
             pipeline_col->addToAutoCollection(this, collection_phase);
         }
         else {
+            if(auto_collect_) {
+                pipeline_col->removeFromAutoCollection(this);
+            }
             closeRecord();
         }
     }
-- 
2.43.0


From 69c7ca75ef974b7901a7df0f10f2c74e12610dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:37 +0000
Subject: [PATCH 098/120] fix: a heartbeat left over from an earlier collection
 must not count for the next one

---
 sparta/sparta/collection/PipelineCollector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/collection/PipelineCollector.hpp b/sparta/sparta/collection/PipelineCollector.hpp
index 50274b7..d86285c 100644
--- a/sparta/sparta/collection/PipelineCollector.hpp
+++ b/sparta/sparta/collection/PipelineCollector.hpp
@@ -378,7 +378,9 @@ namespace collection
                 // Schedule a heartbeat at the next interval, offset from
                 // the current tick.  For example, if the scheduler is at
                 // 6,600,456, then we want to schedule at 7,000,000 if the
-                // interval is 1M and the num_hb is 6
+                // interval is 1M and the num_hb is 6.  (A heartbeat left
+                // over from an earlier collection is not this one's.)
+                ev_heartbeat_.cancel();
                 ev_heartbeat_.scheduleRelativeTick(((num_hb + 1) * heartbeat_interval_) -
                                                    scheduler_->getCurrentTick(), scheduler_);
 
-- 
2.43.0


From 713b4de687b4e2db75c53e1f271f875259d44a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:43 +0000
Subject: [PATCH 099/120] fix: a cumulative report without a start trigger must
 accumulate, too

---
 sparta/src/ReportRepository.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sparta/src/ReportRepository.cpp b/sparta/src/ReportRepository.cpp
index 98c399d..274b4ec 100644
--- a/sparta/src/ReportRepository.cpp
+++ b/sparta/src/ReportRepository.cpp
@@ -320,6 +320,7 @@ private:
 
             if (report_start_trigger_ == nullptr) {
                 this->initializeReportInstantiations_();
+                this->accumulateStatsIfCumulative_();
             }
         } else {
             this->startReports_();
@@ -539,11 +540,7 @@ private:
         const bool first = formatters_.empty();
         this->initializeReportInstantiations_();
 
-        if (is_cumulative_) {
-            for (auto & r : reports_) {
-                r->accumulateStats();
-            }
-        }
+        this->accumulateStatsIfCumulative_();
 
         #if SIMDB_ENABLED
             if (first && collector_) {
@@ -554,6 +551,17 @@ private:
         #endif
     }
 
+    // The values of a cumulative report are always relative to its
+    // very first start, not to the latest update
+    void accumulateStatsIfCumulative_()
+    {
+        if (is_cumulative_) {
+            for (auto & r : reports_) {
+                r->accumulateStats();
+            }
+        }
+    }
+
     void stopReports_()
     {
         if (formatters_.empty()) {
-- 
2.43.0


From 122d17598d4e405991c6df4425344c9650761e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:43 +0000
Subject: [PATCH 100/120] fix: a start trigger that hits after the stop trigger
 must not end the simulation

---
 sparta/src/ReportRepository.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sparta/src/ReportRepository.cpp b/sparta/src/ReportRepository.cpp
index 274b4ec..e958e1e 100644
--- a/sparta/src/ReportRepository.cpp
+++ b/sparta/src/ReportRepository.cpp
@@ -525,6 +525,11 @@ private:
 
     void startReports_()
     {
+        // A report that was stopped before its start trigger hit is complete
+        if (reports_have_stopped_) {
+            return;
+        }
+
         for (auto & r : reports_) {
             r->start();
         }
@@ -582,6 +587,7 @@ private:
 
         desc_.updateOutput();
         desc_.ignoreFurtherUpdates();
+        reports_have_stopped_ = true;
 
         #if SIMDB_ENABLED
             if (collector_ && desc_.format != "csv" && desc_.format != "csv_cumulative") {
@@ -941,6 +947,7 @@ private:
     bool enabled_ = true;
     bool update_reports_when_enabled_ = false;
     bool reports_have_started_ = false;
+    bool reports_have_stopped_ = false;
     bool update_descriptor_when_asked_ = true;
     bool is_cumulative_ = false;
 
-- 
2.43.0


From 3753a7b0d6ebec16a0ef82c4c70481a2ed35fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:42 +0000
Subject: [PATCH 101/120] fix: an expression trigger that cannot be built must
 not stay a dependent of others

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 14 +++++++++++++-
 sparta/src/ExpressionTrigger.cpp            | 13 +++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index b216b4a..2b5b57a 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -162,7 +162,12 @@ public:
         report_container_(report_container)
     {
         this->pruneExpression_(original_expression_);
-        this->parseExpression_(name, original_expression_, context);
+        try {
+            this->parseExpression_(name, original_expression_, context);
+        } catch (...) {
+            this->detachFromReferencedTriggers_();
+            throw;
+        }
     }
 
     typedef std::function<void(const std::string &)> StringPayloadTrigCallback;
@@ -891,6 +896,12 @@ private:
      */
     bool tryAddReferencedTrigger_(const std::string & expression);
 
+    /*!
+     * \brief Referenced triggers must not notify this trigger, nor the ones
+     * it is made of, anymore. Used when the expression turns out to be invalid.
+     */
+    void detachFromReferencedTriggers_();
+
     /*!
      * \brief Given an expression such as "core0.rob.stats.total_number_retired >= 900"
      * parse this into a CounterTrigger object with:
@@ -1383,6 +1394,7 @@ private:
     std::vector<std::unique_ptr<SingleTrigger>> source_subclass_triggers_;
     std::vector<std::unique_ptr<ExpressionTrigger>> internal_expression_triggers_;
     NotificationTrigger::DependentTriggers dependent_triggers_;
+    NotificationTrigger::DependentTriggers referenced_triggers_;
     utils::ValidValue<ExpressionTriggerInternals> trigger_internals_;
 
     std::string name_;
diff --git a/sparta/src/ExpressionTrigger.cpp b/sparta/src/ExpressionTrigger.cpp
index 9bfeffa..f141856 100644
--- a/sparta/src/ExpressionTrigger.cpp
+++ b/sparta/src/ExpressionTrigger.cpp
@@ -86,6 +86,7 @@ bool ExpressionTrigger::tryAddReferencedTrigger_(const std::string & expression)
                 auto & dependents = referenced_trigger->dependent_triggers_;
                 if (std::find(dependents.begin(), dependents.end(), this) == dependents.end()) {
                     dependents.push_back(this);
+                    referenced_triggers_.push_back(referenced_trigger);
                 }
 
                 supports_single_ct_trig_cb_ = false;
@@ -97,6 +98,18 @@ bool ExpressionTrigger::tryAddReferencedTrigger_(const std::string & expression)
     return false;
 }
 
+void ExpressionTrigger::detachFromReferencedTriggers_()
+{
+    for (auto & internal_exp_trigger : internal_expression_triggers_) {
+        internal_exp_trigger->detachFromReferencedTriggers_();
+    }
+    for (auto referenced_trigger : referenced_triggers_) {
+        auto & dependents = referenced_trigger->dependent_triggers_;
+        dependents.erase(std::remove(dependents.begin(), dependents.end(), this), dependents.end());
+    }
+    referenced_triggers_.clear();
+}
+
 void ExpressionTrigger::setReferenceEvent(const std::string & tag,
                                           const std::string & event)
 {
-- 
2.43.0


From c0020e148b50da35341be6eb0cc9f3e9f325a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:44 +0000
Subject: [PATCH 102/120] fix: locking an expired weak pointer must give a null
 pointer

---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index fcdc796..7df255f 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -514,6 +514,9 @@ namespace sparta
          * \return nullptr if the SpartaSharedPointer has expired; otherwise a locked version
          */
         SpartaSharedPointer<PointerT> lock() const noexcept {
+            if(expired()) {
+                return SpartaSharedPointer<PointerT>();
+            }
             return SpartaSharedPointer<PointerT>(wp_ref_cnt_, true);
         }
 
-- 
2.43.0


From 7d13ae96eb8faf2b14bd8346419bcad523484c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:44 +0000
Subject: [PATCH 103/120] fix: assigning to a shared pointer must let go of the
 old object last

---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index 7df255f..9f16c2c 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -11,6 +11,7 @@
 #include <cinttypes>
 #include <cassert>
 #include <type_traits>
+#include <utility>
 
 #include "sparta/utils/Utils.hpp"
 #include "sparta/utils/MetaStructs.hpp"
@@ -195,11 +196,9 @@ namespace sparta
         SpartaSharedPointer & operator=(const SpartaSharedPointer & orig)
         {
             sparta_assert(&orig != this);
-            unlink_();
-            ref_count_ = orig.ref_count_;
-            if(SPARTA_EXPECT_TRUE(ref_count_ != nullptr)) {
-                ++ref_count_->count;
-            }
+            // The old object goes last: it might contain orig, or use this pointer
+            SpartaSharedPointer tmp(orig);
+            std::swap(ref_count_, tmp.ref_count_);
             return *this;
         }
 
@@ -214,9 +213,9 @@ namespace sparta
         SpartaSharedPointer & operator=(SpartaSharedPointer && orig)
         {
             sparta_assert(&orig != this);
-            unlink_();
-            ref_count_ = orig.ref_count_;
-            orig.ref_count_ = nullptr;
+            // The old object goes last: it might contain orig, or use this pointer
+            SpartaSharedPointer tmp(std::move(orig));
+            std::swap(ref_count_, tmp.ref_count_);
             return *this;
         }
 
@@ -277,8 +276,10 @@ namespace sparta
          * \param p The new pointer
          */
         void reset(PointerT * p = nullptr) {
-            unlink_();
-            ref_count_ = p == nullptr ? nullptr : new RefCount(p);
+            // The old object goes last: it might use this pointer
+            SpartaSharedPointer tmp;
+            tmp.ref_count_ = p == nullptr ? nullptr : new RefCount(p);
+            std::swap(ref_count_, tmp.ref_count_);
         }
 
         /**
-- 
2.43.0


From dc9488085246dad068c37af5f83026a52f80f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:44 +0000
Subject: [PATCH 104/120] fix: an allocator must survive constructors that
 throw or that allocate from it

---
 .../utils/SpartaSharedPointerAllocator.hpp    | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
index 851caab..da8f787 100644
--- a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
@@ -300,14 +300,13 @@ namespace sparta
 
             using PointerTAlignedStorage = AlignedStorage<PointerT>;
 
-            template<typename ...ObjArgs>
-            MemBlock(SpartaSharedPointerAllocator * alloc_in, ObjArgs&&...obj_args) :
+            explicit MemBlock(SpartaSharedPointerAllocator * alloc_in) :
                 MemBlockBase(alloc_in)
             {
-                // Build the new object using the inplacement new.
-                object = new (&object_storage) PointerT(std::forward<ObjArgs>(obj_args)...);
+                // The object is built here by allocate_
+                object = reinterpret_cast<PointerT *>(&object_storage);
 
-                // Build the reference count using that object
+                // Build the reference count for that object
                 ref_count = new (&ref_count_storage) RefCountType(object, (void*)this);
             }
 
@@ -339,15 +338,14 @@ namespace sparta
                 data_(num_blocks)
             {}
 
-            // Allocate an object in aligned storage
-            template<typename ...Args>
-            MemBlock * allocate(SpartaSharedPointerAllocator * alloc, Args&&... args)
+            // Allocate a block in aligned storage
+            MemBlock * allocate(SpartaSharedPointerAllocator * alloc)
             {
                 sparta_assert(size_ < data_.size(), "Out of memory");
 
                 // construct value in memory of aligned storage
                 // using inplace operator new
-                auto block = new(&data_[size_]) MemBlock(alloc, std::forward<Args>(args)...);
+                auto block = new(&data_[size_]) MemBlock(alloc);
                 ++size_;
 
                 return block;
@@ -397,9 +395,6 @@ namespace sparta
                 block = free_blocks_[free_idx_];
                 sparta_assert(block->ref_count->p != nullptr);
                 block->ref_count->mem_block = (void*)block;
-                block->ref_count->count = 1;
-                // perform an in place new on the reused pointer
-                new (block->ref_count->p) PointerT(std::forward<PointerTArgs>(args)...);
             }
             else {
                 if(SPARTA_EXPECT_FALSE(allocated_ > water_mark_)) {
@@ -420,9 +415,22 @@ namespace sparta
                         throw ex;
                     }
                 }
-                block = memory_blocks_.allocate(this, std::forward<PointerTArgs>(args)...);
+                block = memory_blocks_.allocate(this);
                 ++allocated_;
             }
+
+            // The block is taken, even if the constructor allocates
+            // from this allocator, but there's no object in it yet
+            block->ref_count->count = 0;
+            try {
+                // perform an in place new on the block's storage
+                new (block->object) PointerT(std::forward<PointerTArgs>(args)...);
+            }
+            catch(...) {
+                releaseBlock_(block);
+                throw;
+            }
+            block->ref_count->count = 1;
             return block->ref_count;
         }
 
-- 
2.43.0


From 800168c95ed321ad62fae672472c36ee9cccf321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:44 +0000
Subject: [PATCH 105/120] fix: over allocation must be announced when the
 watermark is the maximum

---
 .../utils/SpartaSharedPointerAllocator.hpp    | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
index da8f787..7899e8b 100644
--- a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
@@ -402,18 +402,17 @@ namespace sparta
                         watermark_warning_callback_(*this);
                         water_mark_warning_ = true;
                     }
-
-                    // Only need to check for overallocation if we've passed the watermark
-                    if(SPARTA_EXPECT_FALSE(allocated_ >= memory_blocks_.capacity())) {
-                        over_allocation_callback_(*this);
-                        SpartaException ex;
-                        ex << "This allocator has run out of memory: \n\n\t"
-                           << __PRETTY_FUNCTION__
-                           << "\n\n"
-                           << "\t\tNumber blocks preallocated: " << memory_blocks_.capacity()
-                           << "\n\t\tWatermark                 : " << water_mark_;
-                        throw ex;
-                    }
+                }
+                // The watermark might be the maximum itself
+                if(SPARTA_EXPECT_FALSE(allocated_ >= memory_blocks_.capacity())) {
+                    over_allocation_callback_(*this);
+                    SpartaException ex;
+                    ex << "This allocator has run out of memory: \n\n\t"
+                       << __PRETTY_FUNCTION__
+                       << "\n\n"
+                       << "\t\tNumber blocks preallocated: " << memory_blocks_.capacity()
+                       << "\n\t\tWatermark                 : " << water_mark_;
+                    throw ex;
                 }
                 block = memory_blocks_.allocate(this);
                 ++allocated_;
-- 
2.43.0


From d1ec9e6108097f0e61e73f468c621a8fd17159c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 106/120] fix: markers and reset() must move the residency
 tracking of a State too

---
 sparta/sparta/simulation/State.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/simulation/State.hpp b/sparta/sparta/simulation/State.hpp
index be1cc0c..4181767 100644
--- a/sparta/sparta/simulation/State.hpp
+++ b/sparta/sparta/simulation/State.hpp
@@ -398,6 +398,12 @@ namespace sparta
 
         //! Internal method to set the value -- called by State and MarkerSet
         void setValue_(const EnumTValueType & val) {
+            //! If tracking is disabled, this internal
+            // tracker unit will be nullptr. In that case,
+            // we do not track anything.
+            if(state_tracker_unit_) {
+                state_tracker_unit_->startState(val);
+            }
             current_state_ = val;
         }
 
@@ -516,13 +522,6 @@ namespace sparta
          * \param val The value to set
          */
         void setValue(const EnumTValueType & val) {
-
-            //! If tracking is disabled, this internal
-            // tracker unit will be nullptr. In that case,
-            // we do not track anything.
-            if(state_tracker_unit_) {
-                state_tracker_unit_->startState(val);
-            }
             setValue_(val);
 
             // Notify audience members of state change.  The observers
@@ -538,7 +537,7 @@ namespace sparta
          * initial_value given in the constructor
          */
         void reset() {
-            current_state_ = static_cast<EnumTValueType>(initial_value_);
+            setValue_(static_cast<EnumTValueType>(initial_value_));
             for(auto & ms : marker_set_) {
                 ms.reset();
             }
@@ -553,7 +552,7 @@ namespace sparta
          * value
          */
         void reset(const EnumTValueType & val) {
-            current_state_ = val;
+            setValue_(val);
             for(auto & ms : marker_set_) {
                 ms.reset();
             }
-- 
2.43.0


From 79864e2d6286c42f509585065a12a04ce02997c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 107/120] fix: a State Monitor must be able to detach, attach
 and clear the marker when signalled

---
 sparta/sparta/simulation/State.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/simulation/State.hpp b/sparta/sparta/simulation/State.hpp
index 4181767..9255413 100644
--- a/sparta/sparta/simulation/State.hpp
+++ b/sparta/sparta/simulation/State.hpp
@@ -173,8 +173,9 @@ namespace sparta
             //! Set the marker
             void set(MetaDataTPtr ptr = nullptr) {
                 if(!marked_) {
-                    marker_set_->jointSet_(ptr);
+                    // Marked before anybody is told about it
                     marked_ = true;
+                    marker_set_->jointSet_(ptr);
                 }
             }
 
@@ -361,8 +362,12 @@ namespace sparta
             void jointSet_(MetaDataTPtr ptr = nullptr) {
                 ++marked_count_;
                 if (SPARTA_EXPECT_FALSE(!monitors_.empty())) {
-                    for (auto& i : monitors_) {
-                        i->signalSet(transition_val_, ptr);
+                    // Monitors may attach and detach while being signalled
+                    const auto monitors = monitors_;
+                    for (auto i : monitors) {
+                        if (std::find(monitors_.begin(), monitors_.end(), i) != monitors_.end()) {
+                            i->signalSet(transition_val_, ptr);
+                        }
                     }
                     //} else if ((markers_.size() - marked_count_) <= marked_thresh_) {
                 } else if ((marker_cnt_ - marked_count_) <= marked_thresh_) {
-- 
2.43.0


From 2409fcbec70a7287a6015a15b2213af7bd8b4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 108/120] fix: state tracking must not use the pools of an
 earlier simulation

---
 sparta/sparta/simulation/StateTracker.hpp | 31 +++++++----------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/sparta/sparta/simulation/StateTracker.hpp b/sparta/sparta/simulation/StateTracker.hpp
index 961bb69..458ac83 100644
--- a/sparta/sparta/simulation/StateTracker.hpp
+++ b/sparta/sparta/simulation/StateTracker.hpp
@@ -521,27 +521,16 @@ namespace sparta {
             //  new or recycled State Tracker Units.
             template<typename T>
             inline StatePool<T> * getStatePool_() {
-                static StatePool<T> * state_pool {nullptr};
-
-                //! If state_pool is not null, that means we
-                //  have seen this enum type T before and hence,
-                //  we do not need to create a new state pool to
-                //  handle this enum type. We just return the
-                //  state_pool pointer which is already pointing
-                //  to the valid state pool for this enum type T.
-                if(__builtin_expect(state_pool != nullptr, 1)) {
-                    return state_pool;
-                }
+                auto & pool_ptr = unique_pool_type_map_[StatePool<T>::id()];
 
-                //! If state_pool is null, that means we are seeing
-                //  this enum type T for the first time. So, we must
+                //! If the pool is null, that means we are seeing
+                //  this enum type T for the first time (since the
+                //  pools were last flushed). So, we must
                 //  instantiate a new, valid State Pool to handle
-                //  enums of this type. We then make state_pool
-                //  point to this pool and return it.
-                const size_t identifier = StatePool<T>::id();
-
-                unique_pool_type_map_[identifier].reset(
-                    new StatePool<T>(tracking_filename_));
+                //  enums of this type.
+                if(__builtin_expect(pool_ptr == nullptr, 0)) {
+                    pool_ptr.reset(new StatePool<T>(tracking_filename_));
+                }
 
                 //! Note that static_cast has been used instead of
                 //  dynamic_cast. This is done because we already know
@@ -549,9 +538,7 @@ namespace sparta {
                 //  pointed by the base pointer is. So, it is much more
                 //  efficient to not use the C++ runtime to perform the
                 //  cast and let the compiler handle this.
-                state_pool = static_cast<StatePool<T> *>(
-                    unique_pool_type_map_[identifier].get());
-                return state_pool;
+                return static_cast<StatePool<T> *>(pool_ptr.get());
             }
         };
 
-- 
2.43.0


From 76295f46322280bcf87a95745cf8d900d503bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 109/120] fix: a StateTimer must be able to leave a state
 entered in cycle 0

---
 sparta/sparta/simulation/StateTimerUnit.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/simulation/StateTimerUnit.hpp b/sparta/sparta/simulation/StateTimerUnit.hpp
index 35b3752..10dd1ee 100644
--- a/sparta/sparta/simulation/StateTimerUnit.hpp
+++ b/sparta/sparta/simulation/StateTimerUnit.hpp
@@ -76,21 +76,20 @@ public:
                     "Can not find state enum class in timer.");
             state_set = it->second;
 
+            sparta_assert(state_index < state_set->state_set_delta_.size(),
+                    "State enum out of range.")
+
             if (state_set->active_state_index_.isValid())
             {
                 active_state_in_set = state_set->active_state_index_.getValue();
                 sparta_assert(active_state_in_set != state_index ,
                         "State aleady started");
-                sparta_assert(state_set->active_state_starting_time_ > 0,
-                        "Wrong active state starting time.");
 
                 // implicitly update the time delta of the active state in the set, if there is one.
                 endTimerState_(state_set);
             }
 
             // set the new state to the active state in set.
-            sparta_assert(state_index < state_set->state_set_delta_.size(),
-                    "State enum out of range.")
             state_set->active_state_index_ = state_index;
             state_set->active_state_starting_time_ = clk_->currentCycle();
         }
-- 
2.43.0


From be3da3a25ef9f34c41153875a0b46e1c91938f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:48 +0000
Subject: [PATCH 110/120] fix: refuse a TreeNode name that ends, not one that
 ends but one, in two underscores

---
 sparta/src/TreeNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 2ae9e5e..c52f5b1 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -529,7 +529,7 @@ void TreeNode::validateName(const std::string& nm)
     }
 
     std::string::size_type pos = nm.find("__");
-    if(pos != std::string::npos && (pos == 0 || pos == (nm.size() - 3))) {
+    if(pos != std::string::npos && (pos == 0 || pos == (nm.size() - 2))) {
         throw SpartaException(" TreeNode name \"")
             << nm << "\" contains two adjacent underscores (at the beginning or end) which is not permitted. "
             "Expected location was " << getLocation();
-- 
2.43.0


From 60e8667972119483f9165721c70a873017259aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:48 +0000
Subject: [PATCH 111/120] fix: a destroyed TreeNode must leave no identifier
 behind in its parent, which must be told of it

---
 sparta/src/TreeNode.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index c52f5b1..edbf367 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -2395,7 +2395,7 @@ void TreeNode::removeChildForTeardown_(TreeNode* child) {
                   "Cannot removeChildForTeardown_ from " << getLocation()
                   << " with a null child pointer");
 
-    onDestroyingChild_(this);
+    onDestroyingChild_(child);
 
     auto erase_child = [this, child] (ChildrenVector& list, bool ignore_missing) {
                            // Remove child from children_ list
@@ -2414,9 +2414,14 @@ void TreeNode::removeChildForTeardown_(TreeNode* child) {
     erase_child(children_, false);
 
     // Remove child from child identifier mapping
-    for(const std::string* ident : child->getIdentifiers()){
-        sparta_assert(ident != nullptr);
-        names_.erase(*ident); // Does not fail if key not found
+    // (including the one made of its group and index). Other children may
+    // be mapped by the same identifier
+    for(auto itr = names_.begin(); itr != names_.end(); ){
+        if(itr->second == child){
+            itr = names_.erase(itr);
+        }else{
+            ++itr;
+        }
     }
 }
 
-- 
2.43.0


From b290b9e166af92ce8055742dbc3d452cfd54347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:48 +0000
Subject: [PATCH 112/120] fix: refuse a child that has another parent, or is in
 a later phase, before anything is changed

---
 sparta/src/TreeNode.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index edbf367..a347e8a 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -1783,6 +1783,20 @@ void TreeNode::addChild_(TreeNode* child, bool inherit_phase) {
     }
     verifyUniqueChildIdentifier_(child->getName());
 
+    if(child->getParent() != nullptr){
+        throw SpartaException("Cannot add device tree node \"")
+            << child->getName() << "\" as child to device tree node \""
+            << getLocation() << "\" because it already has a parent \""
+            << child->getParent()->getLocation() << "\"";
+    }
+
+    if(child->getPhase() > getPhase()){
+        throw SpartaException("Cannot add device tree node \"")
+            << child->getName() << "\" as child to device tree node \""
+            << getLocation() << "\" because its phase " << child->getPhase()
+            << " is later than the phase of the parent, " << getPhase();
+    }
+
     // Child has been fully validated.
     // Invoke hooks for performing additional add actions (or to reject
     // the child/parent). At this point it is safe to throw an exception
-- 
2.43.0


From c4059a324a3a17617ef7acfbbbbdb02574693086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:34 +0000
Subject: [PATCH 113/120] fix: TreeNode::findChildren must give the
 replacements of all wildcards in the order of the pattern

---
 sparta/src/TreeNode.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index a347e8a..133be09 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -944,8 +944,7 @@ uint32_t TreeNode::findChildren_(const std::string& pattern,
                     results.push_back(subchild);
                     replacements.push_back(immediate_replacements.at(idx));
                     std::vector<std::string>& added = descendent_replacements.at(subidx);
-                    replacements.back().resize(added.size() + replacements.back().size());
-                    std::copy(added.begin(), added.end(), replacements.back().rbegin());
+                    replacements.back().insert(replacements.back().end(), added.begin(), added.end());
                     ++subidx;
                 }
             }
-- 
2.43.0


From f22518377c14e852878f2c4c27f467e09f37e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 114/120] fix: %1 in a report definition must refer to the most
 recent wildcard replacement

---
 sparta/sparta/parsers/YAMLTreeEventHandler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/parsers/YAMLTreeEventHandler.hpp b/sparta/sparta/parsers/YAMLTreeEventHandler.hpp
index 80069ca..6982373 100644
--- a/sparta/sparta/parsers/YAMLTreeEventHandler.hpp
+++ b/sparta/sparta/parsers/YAMLTreeEventHandler.hpp
@@ -555,8 +555,8 @@ protected:
             for(TreeNode* child : children){
                 std::vector<std::string> all_replacements(nvp->second);
                 std::vector<std::string>& added = replacements.at(idx);
-                all_replacements.resize(all_replacements.size() + added.size());
-                std::copy(added.begin(), added.end(), all_replacements.rbegin());
+                // The most recent replacement is the first
+                all_replacements.insert(all_replacements.begin(), added.rbegin(), added.rend());
                 auto next_id = getNextNodeID_(nvp.get(), child, all_replacements);
                 next.emplace_back(new NavNode({nvp.get(), child, all_replacements, next_id}));
                 verbose() << indent_() << "Got new ID (" << next.back()->uid
-- 
2.43.0


From 2848bf2a8d0df507d3f4f1ced76aa74f2bcf32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:49 +0000
Subject: [PATCH 115/120] fix: %1 in a report definition must refer to the most
 recent wildcard replacement, also in a field

---
 sparta/src/YAMLTreeEventHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/src/YAMLTreeEventHandler.cpp b/sparta/src/YAMLTreeEventHandler.cpp
index 972ddec..6e1f8f0 100644
--- a/sparta/src/YAMLTreeEventHandler.cpp
+++ b/sparta/src/YAMLTreeEventHandler.cpp
@@ -102,8 +102,8 @@ namespace sparta
                                 found = true;
                                 std::vector<std::string> all_replacements(nvp->second);
                                 std::vector<std::string>& added = replacements.at(idx);
-                                all_replacements.resize(all_replacements.size() + added.size());
-                                std::copy(added.begin(), added.end(), all_replacements.rbegin());
+                                // The most recent replacement is the first
+                                all_replacements.insert(all_replacements.begin(), added.rbegin(), added.rend());
                                 handleLeafScalar_(n,
                                                   value,
                                                   last_val_,
-- 
2.43.0


From 7559a54da2e3c0a81932b6ef05c9a82439a58b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:09 +0000
Subject: [PATCH 116/120] fix: a TreeNode name with two underscores before its
 last character must still be refused

---
 sparta/src/TreeNode.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 133be09..ed984bb 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -528,8 +528,9 @@ void TreeNode::validateName(const std::string& nm)
         }
     }
 
-    std::string::size_type pos = nm.find("__");
-    if(pos != std::string::npos && (pos == 0 || pos == (nm.size() - 2))) {
+    // Not at the beginning, nor before the last character or at the end
+    std::string::size_type pos = nm.rfind("__");
+    if(pos != std::string::npos && (nm.compare(0, 2, "__") == 0 || pos + 3 >= nm.size())) {
         throw SpartaException(" TreeNode name \"")
             << nm << "\" contains two adjacent underscores (at the beginning or end) which is not permitted. "
             "Expected location was " << getLocation();
-- 
2.43.0


From 09985361bde991674d64f1732f132eb45797c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:56 +0000
Subject: [PATCH 117/120] fix: keep commented maps and sequences of a config
 file out of the parameter tree

---
 sparta/src/ConfigParserYAML.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sparta/src/ConfigParserYAML.cpp b/sparta/src/ConfigParserYAML.cpp
index 4138132..ac83f9e 100644
--- a/sparta/src/ConfigParserYAML.cpp
+++ b/sparta/src/ConfigParserYAML.cpp
@@ -238,8 +238,9 @@ namespace sparta
                 sequence_pos_.push_back(0);
                 seq_params_.push({});
                 std::vector<ParameterBase*>& seq_ps = seq_params_.top();
+                const bool commented = last_val_.find(COMMENT_KEY_START) == 0;
 
-                if(subtree_.size() > 0){
+                if(subtree_.size() > 0 && !commented){
                     // Find next generation based on pattern of scalar (key) last_val_
                     NodeVector nodes;
                     findNextGeneration_(subtree_, last_val_, nodes, mark);
@@ -275,6 +276,9 @@ namespace sparta
                 }
 
                 pt_stack_.push(pt_node_); // Push on first entry
+                if(commented){
+                    pt_node_ = nullptr; // Restored from pt_stack_ at the end of the sequence
+                }
                 if(pt_node_){
                     const bool required = true; // Temporary value. Parameters created this way are always required
                     auto npt_node = pt_node_->create(last_val_, required); // Fails if it contains a parent reference
@@ -402,6 +406,7 @@ namespace sparta
                 verbose() << indent_() << "  COMMENTED MAPPING" << std::endl;
                 ///subtree_
                 subtree_.clear(); // Clear current nodes
+                pt_node_ = nullptr; // Restored from pt_stack_ at the end of the commented map
             }else{
                 // current subtree_ already pushed to stack
                 // Move onto next generation of children
-- 
2.43.0


From 31d84d16f249b113dbd55edf5b56135c7512dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:56 +0000
Subject: [PATCH 118/120] fix: quote the list elements of a config file which
 are not plain scalars

---
 sparta/sparta/parsers/ConfigParserYAML.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/parsers/ConfigParserYAML.hpp b/sparta/sparta/parsers/ConfigParserYAML.hpp
index 74ed9de..78eeb68 100644
--- a/sparta/sparta/parsers/ConfigParserYAML.hpp
+++ b/sparta/sparta/parsers/ConfigParserYAML.hpp
@@ -86,6 +86,16 @@ namespace sparta
                     //! Stack of entries pair<scalar elements, sequence parameter vector>
                     std::stack<std::pair<uint32_t, std::vector<ParameterBase*>>> params_;
 
+                    //! Can this value be written without quotes and be read back unchanged?
+                    static bool isPlain_(const std::string& val) {
+                        if(val.empty() || val == "null" || val == "Null" || val == "NULL" || val == "-"){
+                            return false;
+                        }
+                        return val.find_first_not_of("abcdefghijklmnopqrstuvwxyz"
+                                                     "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                                                     "0123456789_.+-/") == std::string::npos;
+                    }
+
                 public:
 
                     /*!
@@ -118,13 +128,15 @@ namespace sparta
                             }
                             params_.top().first++;
                         }
-                        // Ensure all-whitespace or empty strings are quoted
-                        if(val.find_first_not_of(" \t") == std::string::npos){
-                            sequence_string_ += "\"";
+                        // Quote everything which is not certain to be read back as the
+                        // same plain scalar (e.g. empty or all-whitespace strings, or
+                        // strings containing YAML indicators)
+                        if(isPlain_(val)){
                             sequence_string_ += val;
-                            sequence_string_ += "\"";
                         }else{
-                            sequence_string_ += val;
+                            YP::Emitter quoted;
+                            quoted << YP::DoubleQuoted << val;
+                            sequence_string_ += quoted.c_str();
                         }
                     }
 
-- 
2.43.0


From 62990dec1283304a14a66ba5b429b2009175af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:35 +0000
Subject: [PATCH 119/120] fix: Parameter::isDefault must compare values, also
 for lists of strings

---
 sparta/sparta/simulation/Parameter.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sparta/sparta/simulation/Parameter.hpp b/sparta/sparta/simulation/Parameter.hpp
index b889531..a7ccbeb 100644
--- a/sparta/sparta/simulation/Parameter.hpp
+++ b/sparta/sparta/simulation/Parameter.hpp
@@ -1271,6 +1271,15 @@ namespace sparta
             return Parameter::template getTypeName_<ValueType>();
         }
 
+        /*!
+         * \brief Is the current value of this parameter equal to the default?
+         * \note does not increment read counter
+         * \see sparta::ParameterBase::isDefault
+         */
+        virtual bool isDefault() const override final {
+            return val_ == def_val_;
+        }
+
         /*! \brief Returns the default value
          */
         ValueType getDefault() const {
-- 
2.43.0


From d4629f83d4f73a904c2a1284393080e4bdf5940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:42 +0000
Subject: [PATCH 120/120] fix: a floating point parameter must be printed with
 the digits it takes to read it back

---
 sparta/sparta/utils/Printing.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sparta/sparta/utils/Printing.hpp b/sparta/sparta/utils/Printing.hpp
index 526d537..15e7060 100644
--- a/sparta/sparta/utils/Printing.hpp
+++ b/sparta/sparta/utils/Printing.hpp
@@ -4,10 +4,12 @@
 #pragma once
 
 #include <iostream>
+#include <limits>
 #include <string>
 #include <ostream>
 #include <vector>
 #include <sstream>
+#include <type_traits>
 
 #include "sparta/utils/SpartaException.hpp"
 
@@ -152,6 +154,16 @@ namespace utils
         std::stringstream out;
         std::ios_base::fmtflags old = setIOSFlags(out, base);
         out << o;
+        if constexpr (std::is_floating_point<T>::value){
+            // Use as many digits as it takes to read the same value back
+            T read_back;
+            std::istringstream in(out.str());
+            if(!(in >> read_back) || read_back != o){
+                out.str("");
+                out.precision(std::numeric_limits<T>::max_digits10);
+                out << o;
+            }
+        }
         out.setf(old);
         return out.str();
     }
-- 
2.43.0

