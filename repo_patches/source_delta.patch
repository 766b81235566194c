From 55dd1e781f3c0b016fc4de61d2db425f0173b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 01/10] fix: do not spin while the next deadline is more than
 2^31 ms away

---
 src/timer/global.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 5e183de..3fcc363 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -72,7 +72,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
     } else {
         let _ = set_timeout(
             Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(0),
+            i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
         )
         .unwrap();
     }
@@ -80,7 +80,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
     #[cfg(not(feature = "tokio-test-util"))]
     let _ = set_timeout(
         Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(0),
+        i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
     )
     .unwrap();
 }
-- 
2.43.0


From dff89b31e82e55dc720f55413a878583206d0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 02/10] fix: do not lose timers behind callbacks requested for
 later events

The limit of 20 outstanding callbacks dropped the only callback for a new
and earlier event when all others were waiting for far deadlines. Request a
callback unless one that is early enough is outstanding already.
---
 src/timer/global.rs | 53 +++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 3fcc363..99f5df5 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -12,6 +12,9 @@ use crate::js::set_timeout;
 use crate::std::Instant;
 use crate::timer::{Timer, TimerHandle};
 
+/// When the callbacks that are requested from the host and have not run yet are due.
+static REQUESTED: Mutex<Vec<Instant>> = parking_lot::const_mutex(Vec::new());
+
 /// Starts a background task, creates a `Timer`, and returns a handle to it.
 ///
 /// > **Note**: Contrary to the original `futures-timer` crate, we don't have
@@ -42,14 +45,6 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
         let now = Instant::now();
         timer_lock.advance_to(now);
 
-        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
-        // the possibility for `schedule_callback` to be called in parallel. Since we don't
-        // want too many useless callbacks, we...
-        // TODO: ugh, that's a hack
-        if Arc::strong_count(&timer) > 20 {
-            return;
-        }
-
         // We call `schedule_callback` again for the next event.
         let sleep_dur = timer_lock
             .next_event()
@@ -63,28 +58,54 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
             .unwrap_or(Duration::from_secs(5));
         drop(timer_lock);
 
+        // While the clock is paused no event comes closer. `resume` wakes up the timer again.
+        #[cfg(feature = "tokio-test-util")]
+        if super::clock::clock().paused() {
+            return;
+        }
+
+        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
+        // the possibility for `schedule_callback` to be called in parallel. Since we don't
+        // want too many useless callbacks, we rely on one that is requested already, unless
+        // all of them come after the next event.
+        let next_event = Instant::now_js() + callback_delay(sleep_dur);
+        if REQUESTED.lock().iter().any(|due| *due <= next_event) {
+            return;
+        }
+
         schedule_callback(timer, sleep_dur);
     };
 
     #[cfg(feature = "tokio-test-util")]
     if super::clock::clock().paused() {
         cb();
-    } else {
-        let _ = set_timeout(
-            Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
-        )
-        .unwrap();
+        return;
     }
 
-    #[cfg(not(feature = "tokio-test-util"))]
+    let delay = callback_delay(when);
+    let due = Instant::now_js() + delay;
+    REQUESTED.lock().push(due);
+    let cb = move || {
+        let mut requested = REQUESTED.lock();
+        if let Some(index) = requested.iter().position(|d| *d == due) {
+            requested.swap_remove(index);
+        }
+        drop(requested);
+        cb();
+    };
+
     let _ = set_timeout(
         Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
+        i32::try_from(delay.as_millis()).unwrap_or(i32::MAX),
     )
     .unwrap();
 }
 
+/// The whole number of milliseconds, not more than `setTimeout` supports, to wait for `when`.
+fn callback_delay(when: Duration) -> Duration {
+    Duration::from_millis(i32::try_from(when.as_millis()).unwrap_or(i32::MAX) as u64)
+}
+
 struct Waker {
     timer: Arc<Mutex<Timer>>,
 }
-- 
2.43.0


From 05a7171c1d7e9703906810c36b8443372d2adf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 03/10] fix: do not return delay queue entries early with
 tokio-test-util

---
 src/tokio_util/delay_queue.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index cb680a5..aa3c58e 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -469,18 +469,7 @@ impl<T> DelayQueue<T> {
 
                 let now = super::ms(delay.deadline() - self.start, super::Round::Down);
 
-                #[cfg(feature = "tokio-test-util")]
-                {
-                    // +1 here is a tricky way to avoid infinite loop
-                    // in tokio the auto advance feature will always advances time to next time
-                    // event and prevent the infinite loop. But this crate doesn't support auto
-                    // advancing and it will lead this loop to run till infinity.
-                    self.wheel_now = now + 1;
-                }
-                #[cfg(not(feature = "tokio-test-util"))]
-                {
-                    self.wheel_now = now;
-                }
+                self.wheel_now = now;
             }
 
             // We poll the wheel to get the next value out before finding the next deadline.
-- 
2.43.0


From 0c6ae40e8789f5db3b474dbc5826da3251ff718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 04/10] fix: wake the task of a delay queue when an entry is
 reset to the past

---
 src/tokio_util/delay_queue.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index aa3c58e..fdedb89 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -398,10 +398,18 @@ impl<T> DelayQueue<T> {
 
         self.insert_idx(when, *key);
 
-        let next_deadline = self.next_deadline();
-        if let (Some(ref mut delay), Some(deadline)) = (&mut self.delay, next_deadline) {
-            // This should awaken us if necessary (ie, if already expired)
-            delay.as_mut().reset(deadline);
+        // An entry which is expired already is not on the wheel, and a new delay is not
+        // polled by anyone yet. So neither of them would awaken the task.
+        if self.slab[*key].expired || self.delay.is_none() {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
+
+        match (self.next_deadline(), &mut self.delay) {
+            (None, _) => self.delay = None,
+            (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),
+            (Some(deadline), None) => self.delay = Some(Box::pin(sleep_until(deadline))),
         }
     }
 
-- 
2.43.0


From 538d8577c4444cb102cda9498f3011698c798741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 05/10] fix: wake the task of a delay queue when its last entry
 is removed

---
 src/tokio_util/delay_queue.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index fdedb89..64d1307 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -371,6 +371,13 @@ impl<T> DelayQueue<T> {
             }
         }
 
+        // A task that waits for the next entry has to see the end of the stream
+        if self.slab.is_empty() {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
+
         Expired {
             key: Key::new(key.index),
             data: data.inner,
@@ -437,6 +444,11 @@ impl<T> DelayQueue<T> {
         self.expired = Stack::default();
         self.wheel = Wheel::new();
         self.delay = None;
+
+        // A task that waits for the next entry has to see the end of the stream
+        if let Some(waker) = self.waker.take() {
+            waker.wake();
+        }
     }
 
     pub fn capacity(&self) -> usize {
-- 
2.43.0


From d0b40c772d2641ba8492d2ad28c0932aab1639b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 06/10] fix: accept durations whose deadline is unrepresentable

sleep, timeout and interval panicked for them. As in tokio, they are now
treated as being far in the future.
---
 src/std.rs            |  7 +++++++
 src/tokio/interval.rs | 10 +++++-----
 src/tokio/sleep.rs    |  2 +-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index c63b8c4..0ba87fd 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -89,6 +89,13 @@ impl Instant {
     pub fn checked_sub(&self, duration: Duration) -> Option<Instant> {
         self.0.checked_sub(duration).map(Instant)
     }
+
+    /// Like `checked_add`, but about 30 years from now if the result is unrepresentable.
+    #[cfg(feature = "tokio")]
+    pub(crate) fn add_or_far_future(&self, duration: Duration) -> Instant {
+        self.checked_add(duration)
+            .unwrap_or_else(|| Instant::now() + Duration::from_secs(86400 * 365 * 30))
+    }
 }
 
 impl Add<Duration> for Instant {
diff --git a/src/tokio/interval.rs b/src/tokio/interval.rs
index d872e39..9f766db 100644
--- a/src/tokio/interval.rs
+++ b/src/tokio/interval.rs
@@ -67,7 +67,7 @@ impl Interval {
             self.missed_tick_behavior
                 .next_timeout(timeout, now, self.interval)
         } else {
-            timeout + self.interval
+            timeout.add_or_far_future(self.interval)
         };
 
         Pin::new(&mut self.sleep).reset(next);
@@ -75,7 +75,7 @@ impl Interval {
     }
 
     pub fn reset(&mut self) {
-        Pin::new(&mut self.sleep).reset(Instant::now() + self.interval);
+        Pin::new(&mut self.sleep).reset(Instant::now().add_or_far_future(self.interval));
     }
 
     /// Returns the [`MissedTickBehavior`] strategy currently being used.
@@ -106,10 +106,10 @@ impl MissedTickBehavior {
     /// If a tick is missed, this method is called to determine when the next tick should happen.
     fn next_timeout(&self, timeout: Instant, now: Instant, period: Duration) -> Instant {
         match self {
-            Self::Burst => timeout + period,
-            Self::Delay => now + period,
+            Self::Burst => timeout.add_or_far_future(period),
+            Self::Delay => now.add_or_far_future(period),
             Self::Skip => {
-                now + period
+                now.add_or_far_future(period)
                     - Duration::from_nanos(
                         ((now - timeout).as_nanos() % period.as_nanos())
                             .try_into()
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index a54a039..ff24dee 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -23,7 +23,7 @@ impl Sleep {
     /// The default timer will be spun up in a helper thread on first use.
     #[inline]
     pub(crate) fn new(dur: Duration) -> Sleep {
-        Sleep::new_at(Instant::now() + dur)
+        Sleep::new_at(Instant::now().add_or_far_future(dur))
     }
 
     /// Creates a new future which will fire at the time specified by `at`.
-- 
2.43.0


From c86870947f1a4a9247004ff425c5a23bb9ac9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 07/10] fix: wake the task of a delay queue when an entry is
 filed as expired

A past entry goes to the expired stack, which the delay does not stand for:
when another entry is then removed or reset, the delay is set anew from the
wheel alone (or dropped), and the parked task is woken late or never.
---
 src/tokio_util/delay_queue.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 64d1307..f96af32 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -338,6 +338,12 @@ impl<T> DelayQueue<T> {
                 self.slab[key].expired = true;
                 // The delay is already expired, store it in the expired queue
                 self.expired.push(key, &mut self.slab);
+
+                // The delay does not stand for this entry: it is set anew from the wheel
+                // alone when another entry is removed or reset
+                if let Some(waker) = self.waker.take() {
+                    waker.wake();
+                }
             }
             Err((_, err)) => panic!("invalid deadline; err={err:?}"),
         }
-- 
2.43.0


From a7945c5fb6a413b40387f2f2296a8730ab511438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 08/10] fix: keep delay queue entries beyond the wheel's
 current rotation

---
 src/tokio_util/wheel/level.rs | 18 ++++++++++++++++--
 src/tokio_util/wheel/mod.rs   |  6 +++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 6427440..4e2ae7e 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -140,7 +140,13 @@ impl<T: Stack> Level<T> {
 
         // TODO: This can probably be simplified w/ power of 2 math
         let level_start = now - (now % level_range);
-        let deadline = level_start + slot as u64 * slot_range;
+        let mut deadline = level_start + slot as u64 * slot_range;
+
+        // The slot belongs to the next rotation of this level, which happens
+        // on the top level only.
+        if deadline < now {
+            deadline += level_range;
+        }
 
         debug_assert!(
             deadline >= now,
@@ -165,7 +171,15 @@ impl<T: Stack> Level<T> {
         }
 
         // Get the slot for now using Maths
-        let now_slot = (now / slot_range(self.level)) as usize;
+        let slot_range = slot_range(self.level);
+        let mut now_slot = (now / slot_range) as usize % LEVEL_MULT;
+
+        // Once `now` is past the start of its slot, what that slot holds is
+        // due in the next rotation, after all the other slots.
+        if now % slot_range != 0 {
+            now_slot += 1;
+        }
+
         let occupied = self.occupied.rotate_right(now_slot as u32);
         let zeros = occupied.trailing_zeros() as usize;
         let slot = (zeros + now_slot) % 64;
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 82f59c4..8086b39 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -197,7 +197,11 @@ fn level_for(elapsed: u64, when: u64) -> usize {
 
     let leading_zeros = masked.leading_zeros() as usize;
     let significant = 63 - leading_zeros;
-    significant / 6
+
+    // An entry within `MAX_DURATION` of `elapsed` may still lie beyond the
+    // current rotation of the top level, which then holds it until its next
+    // rotation.
+    (significant / 6).min(NUM_LEVELS - 1)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7e9523166d58b755434c252403638c8563a979a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 09/10] fix: wake the tasks of fired timers once the timer is
 unlocked

---
 src/timer/global.rs |  9 +++++++--
 src/timer/mod.rs    | 16 +++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 99f5df5..0a212de 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -41,9 +41,9 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
         }));
         let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
-        // Notify the timers that are ready.
+        // Fire the timers that are ready.
         let now = Instant::now();
-        timer_lock.advance_to(now);
+        let wakers = timer_lock.advance_to(now);
 
         // We call `schedule_callback` again for the next event.
         let sleep_dur = timer_lock
@@ -58,6 +58,11 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
             .unwrap_or(Duration::from_secs(5));
         drop(timer_lock);
 
+        // Notify their tasks, which may create, reset and drop timers at once.
+        for waker in wakers {
+            waker.wake();
+        }
+
         // While the clock is paused no event comes closer. `resume` wakes up the timer again.
         #[cfg(feature = "tokio-test-util")]
         if super::clock::clock().paused() {
diff --git a/src/timer/mod.rs b/src/timer/mod.rs
index f2a3f30..622cd60 100644
--- a/src/timer/mod.rs
+++ b/src/timer/mod.rs
@@ -236,7 +236,7 @@ use std::pin::Pin;
 use std::sync::atomic::Ordering::SeqCst;
 use std::sync::atomic::{AtomicPtr, AtomicUsize};
 use std::sync::{Arc, Mutex, Weak};
-use std::task::{Context, Poll};
+use std::task::{Context, Poll, Waker};
 
 use futures::prelude::*;
 use futures::task::AtomicWaker;
@@ -348,7 +348,12 @@ impl Timer {
     ///
     /// This method should be called on `Timer` periodically to advance the
     /// internal state and process any pending timers which need to fire.
-    pub fn advance_to(&mut self, now: Instant) {
+    ///
+    /// Returns the wakers of the tasks that are blocked on the timers that fired. What they
+    /// run may use the `Timer` in turn, so they have to be woken once it is unlocked.
+    #[must_use]
+    pub fn advance_to(&mut self, now: Instant) -> Vec<Waker> {
+        let mut wakers = Vec::new();
         loop {
             match self.timer_heap.peek() {
                 Some(head) if head.at <= now => {}
@@ -356,8 +361,8 @@ impl Timer {
                 None => break,
             };
 
-            // Flag the timer as fired and then notify its task, if any, that's
-            // blocked.
+            // Flag the timer as fired and then take the waker of its task, if any,
+            // that's blocked.
             let heap_timer = self.timer_heap.pop().unwrap();
             *heap_timer.node.slot.lock().unwrap() = None;
             let bits = heap_timer.gen << 2;
@@ -366,10 +371,11 @@ impl Timer {
                 .state
                 .compare_exchange(bits, bits | 0b01, SeqCst, SeqCst)
             {
-                Ok(_) => heap_timer.node.waker.wake(),
+                Ok(_) => wakers.extend(heap_timer.node.waker.take()),
                 Err(_b) => {}
             }
         }
+        wakers
     }
 
     /// Either updates the timer at slot `idx` to fire at `at`, or adds a new
-- 
2.43.0


From d047d8ca81a84db04111128fdeafd218b7ed1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 10/10] fix: release dropped timers once the timer is unlocked

Releasing a timer releases the waker of its task. If that is the last one that
keeps the task, the task's own timers are dropped, which needs the timer: with
the clock paused this locked it a second time and panicked.
---
 src/timer/global.rs |  4 ++++
 src/timer/mod.rs    | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 0a212de..0bd0c6d 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -56,8 +56,12 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
                 }
             })
             .unwrap_or(Duration::from_secs(5));
+        let removed = timer_lock.take_removed();
         drop(timer_lock);
 
+        // Release the timers that were dropped, and with them tasks which only they kept alive.
+        drop(removed);
+
         // Notify their tasks, which may create, reset and drop timers at once.
         for waker in wakers {
             waker.wake();
diff --git a/src/timer/mod.rs b/src/timer/mod.rs
index 622cd60..b03d2c8 100644
--- a/src/timer/mod.rs
+++ b/src/timer/mod.rs
@@ -274,6 +274,8 @@ mod heap;
 pub struct Timer {
     inner: Arc<Inner>,
     timer_heap: Heap<HeapTimer>,
+    /// Timers that were dropped by their owners, not yet released. See `take_removed`.
+    removed: Vec<Arc<Node<ScheduledTimer>>>,
 }
 
 /// A handle to a `Timer` which is used to create instances of a `Delay`.
@@ -325,6 +327,7 @@ impl Timer {
                 waker: AtomicWaker::new(),
             }),
             timer_heap: Heap::new(),
+            removed: Vec::new(),
         }
     }
 
@@ -399,12 +402,20 @@ impl Timer {
     fn remove(&mut self, node: Arc<Node<ScheduledTimer>>) {
         // If this `idx` is still around and it's still got a registered timer,
         // then we jettison it form the timer heap.
-        let mut slot = node.slot.lock().unwrap();
-        let heap_slot = match slot.take() {
-            Some(slot) => slot,
-            None => return,
-        };
-        self.timer_heap.remove(heap_slot);
+        let heap_slot = node.slot.lock().unwrap().take();
+        if let Some(heap_slot) = heap_slot {
+            self.timer_heap.remove(heap_slot);
+        }
+        self.removed.push(node);
+    }
+
+    /// Returns the timers that `poll` found to be dropped by their owners.
+    ///
+    /// Releasing them releases the wakers of their tasks, and what those drop may use the
+    /// `Timer` in turn, so they have to be released once it is unlocked.
+    #[must_use]
+    pub(crate) fn take_removed(&mut self) -> Vec<Arc<Node<ScheduledTimer>>> {
+        std::mem::take(&mut self.removed)
     }
 
     fn invalidate(&mut self, node: Arc<Node<ScheduledTimer>>) {
-- 
2.43.0

