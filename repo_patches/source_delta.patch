From d97caf462b6031498e93c2e6c439f964a7d2e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 01/86] fix: keep stream ids unique after StreamManager::clear

A task of an earlier request (a body pump or a stream reader) may still hold a stream id when
the context is reset. With the counter reset, the next request's stream gets the same id, and
the old task writes the previous request's data into it.
---
 src/runtime/stream_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index b8958ca..faac534 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -174,8 +174,8 @@ impl StreamManager {
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
         self.metadata.lock().unwrap().clear();
-        // Reset next_id so stream IDs don't grow unbounded across reuses
-        *self.next_id.lock().unwrap() = 1;
+        // next_id is kept: tasks of the previous request (body pumps, stream readers) may still
+        // hold an old ID, and must not reach a stream of the next request through it.
     }
 
     /// Count active streams
-- 
2.43.0


From 60571da3ad007806c6ea3fece2c7976f5b7f3fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 02/86] fix: do not keep the receiver of a stream that was
 closed while being read

read_chunk put the receiver back after close_stream had removed the stream: later reads still
delivered buffered chunks, and a writer blocked on the full buffer never returned.
---
 src/runtime/stream_manager.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index faac534..5ced4f5 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -137,7 +137,12 @@ impl StreamManager {
                         // Don't put back - stream is finished
                     }
                     StreamChunk::Data(_) => {
-                        self.receivers.lock().unwrap().insert(stream_id, rx);
+                        // Don't put back if the stream was closed during this read
+                        let mut receivers = self.receivers.lock().unwrap();
+
+                        if self.has_sender(stream_id) {
+                            receivers.insert(stream_id, rx);
+                        }
                     }
                 }
             }
-- 
2.43.0


From c3f45ee7adcce871f96ce96ba6f7fed53ab9a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 03/86] fix: a request polled twice while waiting for its turn
 strands the next one

AsyncWaiter::try_lock queued a second waker when a waiting request was polled again (its own
callbacks arrive). After it had finished, unlock() woke it through the stale entry instead of
the next request in line, which then was never woken.
---
 src/async_waiter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index 1ccc28a..8a136c8 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -50,6 +50,13 @@ impl AsyncWaiter {
             .compare_exchange(false, true, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
         {
+            // Drop the entries this request left behind when it was polled more than once while
+            // waiting: unlock() would spend its wake-up on one of them and strand the next waiter.
+            self.queue
+                .lock()
+                .unwrap()
+                .retain(|waker| !waker.will_wake(cx.waker()));
+
             true
         } else {
             self.queue.lock().unwrap().push_back(cx.waker().clone());
-- 
2.43.0


From 1e5bea59d19c71492b0fd9c93d1101a2f55af998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 04/86] fix: report external memory to the isolate that a guard
 belongs to

A guard adjusted or dropped while another isolate's lock was current changed that isolate's
counter, and a guard made before any lock was subtracted from an isolate it was never added to.
---
 src/gc/external_memory.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/gc/external_memory.rs b/src/gc/external_memory.rs
index 606a789..7e354a0 100644
--- a/src/gc/external_memory.rs
+++ b/src/gc/external_memory.rs
@@ -88,14 +88,29 @@ impl ExternalMemoryGuard {
         if delta != 0 {
             self.amount += delta;
 
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(delta);
+            if self.pending_delta.is_some() {
+                self.report(delta);
+            } else if let Some(lock) = JsLock::try_current() {
+                // Belongs to this isolate from now on, with all it tracks
+                self.pending_delta = Some(lock.pending_delta());
+                self.report(self.amount);
+            }
+        }
+    }
 
-                // Capture the pending delta if we didn't have one yet
-                if self.pending_delta.is_none() {
-                    self.pending_delta = Some(lock.pending_delta());
-                }
-            } else if let Some(ref pending) = self.pending_delta {
+    /// Report `delta` to the isolate this guard belongs to: at once while that isolate's lock is
+    /// the current one, deferred otherwise (no lock, or the lock of another isolate).
+    fn report(&self, delta: i64) {
+        let Some(ref pending) = self.pending_delta else {
+            // Created without a JsLock: no isolate knows about this guard.
+            return;
+        };
+
+        match JsLock::try_current() {
+            Some(lock) if Arc::ptr_eq(&lock.pending_delta(), pending) => {
+                lock.adjust_external_memory(delta);
+            }
+            _ => {
                 pending.fetch_add(delta, Ordering::SeqCst);
             }
         }
@@ -118,13 +133,7 @@ impl Drop for ExternalMemoryGuard {
     fn drop(&mut self) {
         if self.amount != 0 {
             // Subtract our tracked memory
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(-self.amount);
-            } else if let Some(ref pending) = self.pending_delta {
-                pending.fetch_add(-self.amount, Ordering::SeqCst);
-            }
-            // else: no lock and no captured isolate — memory tracking lost.
-            // This only happens for guards created without a JsLock (tests).
+            self.report(-self.amount);
         }
     }
 }
-- 
2.43.0


From 6a965e08ab9d945cb9dbf45478d82d6fdade34f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 05/86] fix: count a deferred handle before it can be processed

process_all could take and subtract a handle between its push and its count, which made
pending_count wrap around.
---
 src/gc/deferred_destruction.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/gc/deferred_destruction.rs b/src/gc/deferred_destruction.rs
index eb9a4b2..7bda34f 100644
--- a/src/gc/deferred_destruction.rs
+++ b/src/gc/deferred_destruction.rs
@@ -111,11 +111,17 @@ impl DeferredDestructionQueue {
     /// holding the isolate lock.
     pub fn defer<T: 'static>(&self, handle: v8::Global<T>) {
         let deferred = DeferredHandle::new(handle);
-        self.queue
-            .lock()
-            .expect("deferred destruction queue poisoned")
-            .push_back(deferred);
-        self.pending_count.fetch_add(1, Ordering::Release);
+        {
+            let mut queue = self
+                .queue
+                .lock()
+                .expect("deferred destruction queue poisoned");
+
+            queue.push_back(deferred);
+
+            // Under the lock: process_all() must not take the handle before it is counted
+            self.pending_count.fetch_add(1, Ordering::Release);
+        }
 
         tracing::trace!("Deferred V8 handle destruction (pending: {})", self.len());
     }
-- 
2.43.0


From e6c1a8a026684f68c1fd3c6dd5afc96ccef1bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 06/86] fix: install the SIGALRM handler before the first CPU
 timer is armed

A first limit that expired while the handler thread was still starting
killed the process.
---
 src/security/cpu_enforcer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 4eebb9e..f38e243 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -202,14 +202,21 @@ mod linux {
         static SIGNAL_THREAD_SPAWNED: Once = Once::new();
 
         SIGNAL_THREAD_SPAWNED.call_once(|| {
+            let (ready_tx, ready_rx) = std::sync::mpsc::channel();
+
             std::thread::Builder::new()
                 .name("cpu-enforcer".into())
-                .spawn(signal_handler_thread)
+                .spawn(move || signal_handler_thread(ready_tx))
                 .expect("Failed to spawn CPU enforcer signal handler thread");
+
+            // A SIGALRM that arrives before the handler is installed kills the process.
+            ready_rx
+                .recv()
+                .expect("CPU enforcer signal handler thread died");
         });
     }
 
-    fn signal_handler_thread() {
+    fn signal_handler_thread(ready: std::sync::mpsc::Sender<()>) {
         use futures::StreamExt;
         use signal_hook::consts::signal;
         use signal_hook::iterator::exfiltrator::raw::WithRawSiginfo;
@@ -226,6 +233,8 @@ mod linux {
             let mut signals = SignalsInfo::with_exfiltrator([signal::SIGALRM], WithRawSiginfo)
                 .expect("Failed to register SIGALRM handler");
 
+            let _ = ready.send(());
+
             while let Some(siginfo) = signals.next().await {
                 // Extract enforcer_id from signal value (set in timer_create)
                 let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
-- 
2.43.0


From 70b42e5028fb99c8b973efeb964781168045c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 07/86] fix: decide by its timer whether a CPU limit was
 reached, not by a signal

With several limits reached at once the handler thread lost signals (the
queue of signal-hook holds five), so a worker could run on for ever. And a
signal from before reset() or the drop of an enforcer ended the next request.
---
 src/security/cpu_enforcer.rs | 76 ++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index f38e243..710fb89 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -97,8 +97,7 @@ mod linux {
             timer_spec.it_value.tv_sec = timeout_secs as i64;
             timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
 
-            let ret =
-                unsafe { libc::timer_settime(timer_id, 0, &timer_spec, std::ptr::null_mut()) };
+            let ret = arm_timer(enforcer_id, timer_id, &timer_spec);
 
             if ret != 0 {
                 eprintln!(
@@ -127,9 +126,6 @@ mod linux {
         /// This rearms the CPU timer with the given timeout, allowing the same
         /// worker to handle multiple requests with fresh CPU budgets.
         pub fn reset(&self, timeout_ms: u64) -> Result<(), std::io::Error> {
-            // Reset terminated flag
-            self.terminated.store(false, Ordering::SeqCst);
-
             // Rearm the timer
             let timeout_secs = timeout_ms / 1000;
             let timeout_nsecs = (timeout_ms % 1000) * 1_000_000;
@@ -139,8 +135,7 @@ mod linux {
             timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
             // it_interval stays 0 = one-shot timer
 
-            let ret =
-                unsafe { libc::timer_settime(self.timer_id, 0, &timer_spec, std::ptr::null_mut()) };
+            let ret = arm_timer(self.enforcer_id, self.timer_id, &timer_spec);
 
             if ret != 0 {
                 return Err(std::io::Error::last_os_error());
@@ -152,8 +147,10 @@ mod linux {
 
     impl Drop for CpuEnforcer {
         fn drop(&mut self) {
-            unsafe { libc::timer_delete(self.timer_id) };
+            // Unregister first: afterwards the handler neither terminates the isolate
+            // nor looks at the timer.
             unregister_enforcer(self.enforcer_id);
+            unsafe { libc::timer_delete(self.timer_id) };
         }
     }
 
@@ -161,14 +158,19 @@ mod linux {
     struct EnforcerData {
         isolate_handle: v8::IsolateHandle,
         terminated: Arc<AtomicBool>,
+        /// The timer, while it is armed or has expired.
+        armed: Option<usize>,
     }
 
-    impl Clone for EnforcerData {
-        fn clone(&self) -> Self {
-            Self {
-                isolate_handle: self.isolate_handle.clone(),
-                terminated: self.terminated.clone(),
-            }
+    impl EnforcerData {
+        fn has_expired(&self) -> bool {
+            let Some(timer_id) = self.armed else {
+                return false;
+            };
+
+            let mut left: libc::itimerspec = unsafe { std::mem::zeroed() };
+            let ret = unsafe { libc::timer_gettime(timer_id as libc::timer_t, &mut left) };
+            ret == 0 && left.it_value.tv_sec == 0 && left.it_value.tv_nsec == 0
         }
     }
 
@@ -189,10 +191,32 @@ mod linux {
             EnforcerData {
                 isolate_handle,
                 terminated,
+                armed: None,
             },
         );
     }
 
+    /// Starts (or, with a time of zero, stops) the timer of an enforcer.
+    fn arm_timer(
+        enforcer_id: usize,
+        timer_id: libc::timer_t,
+        timer_spec: &libc::itimerspec,
+    ) -> libc::c_int {
+        // The handler looks at timers under the same lock.
+        let mut map = ENFORCER_REGISTRY.lock().unwrap();
+        let ret = unsafe { libc::timer_settime(timer_id, 0, timer_spec, std::ptr::null_mut()) };
+
+        if ret == 0 {
+            if let Some(data) = map.get_mut(&enforcer_id) {
+                let on = timer_spec.it_value.tv_sec != 0 || timer_spec.it_value.tv_nsec != 0;
+                data.armed = on.then_some(timer_id as usize);
+                data.terminated.store(false, Ordering::SeqCst);
+            }
+        }
+
+        ret
+    }
+
     fn unregister_enforcer(enforcer_id: usize) {
         let mut map = ENFORCER_REGISTRY.lock().unwrap();
         map.remove(&enforcer_id);
@@ -235,17 +259,17 @@ mod linux {
 
             let _ = ready.send(());
 
-            while let Some(siginfo) = signals.next().await {
-                // Extract enforcer_id from signal value (set in timer_create)
-                let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
+            while signals.next().await.is_some() {
+                // A SIGALRM only says that some timer has expired: several may come as one
+                // when the handler is behind, and one may be from before its timer was
+                // rearmed. What counts is which timers have expired by now.
+                let map = ENFORCER_REGISTRY.lock().unwrap();
 
-                // Lookup ONLY this specific enforcer in registry
-                let data = {
-                    let map = ENFORCER_REGISTRY.lock().unwrap();
-                    map.get(&enforcer_id).cloned()
-                };
+                for (enforcer_id, enforcer_data) in map.iter() {
+                    if !enforcer_data.has_expired() {
+                        continue;
+                    }
 
-                if let Some(enforcer_data) = data {
                     if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
                         eprintln!(
                             "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
@@ -253,12 +277,6 @@ mod linux {
                         );
                         enforcer_data.isolate_handle.terminate_execution();
                     }
-                } else {
-                    // Timer fired but enforcer was already dropped (normal race condition)
-                    eprintln!(
-                        "[openworkers-runtime-v8] SIGALRM for unknown enforcer #{} (already dropped?)",
-                        enforcer_id
-                    );
                 }
             }
         });
-- 
2.43.0


From 9f1591b5a3d7d4e84fa3066366661eb09f84d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 08/86] fix: give V8 room for a growing array or table when the
 heap limit is reached

2 MB of headroom are not enough to copy a big backing store: the process was
ended by a worker that kept adding keys to an object.
---
 src/security/heap_limit.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index acaad8c..8653517 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -7,8 +7,8 @@
 //! ## How it works
 //!
 //! When V8's heap approaches the configured limit, it calls our callback.
-//! The callback calls `terminate_execution()` and returns a slightly increased
-//! limit (+2 MB headroom). The headroom is critical: V8 only checks the
+//! The callback calls `terminate_execution()` and returns an increased limit
+//! (doubled, +2 MB at least). The headroom is critical: V8 only checks the
 //! termination flag when returning to JS execution, not during GC. Without it,
 //! V8 sees "no room given" and calls `FatalProcessOutOfMemory` (process crash).
 //!
@@ -61,8 +61,11 @@ impl HeapLimitState {
 /// V8 only checks the termination flag when returning to JS execution.
 /// If we return the same `current_heap_limit`, V8 considers the allocation
 /// failed and goes straight to `FatalProcessOutOfMemory` (process crash).
-/// By returning a slightly higher limit, V8 can complete the pending
+/// By returning a higher limit, V8 can complete the pending
 /// allocation, return to JS, and see the termination flag.
+///
+/// The pending allocation may itself be as big as what the worker has so far
+/// (a growing array or hash table is copied), so this is only the minimum.
 const TERMINATION_HEADROOM: usize = 2 * 1024 * 1024; // 2 MB
 
 /// Near-heap-limit callback for V8.
@@ -108,7 +111,7 @@ pub unsafe extern "C" fn near_heap_limit_callback(
     // to JS. If we return <= current_heap_limit, V8 sees "no room given" and
     // calls FatalProcessOutOfMemory, crashing the entire process.
     // The headroom lets V8 complete the pending allocation and unwind to JS.
-    current_heap_limit + TERMINATION_HEADROOM
+    current_heap_limit + TERMINATION_HEADROOM.max(current_heap_limit)
 }
 
 /// OOM error handler for V8 isolates.
-- 
2.43.0


From e4bf32fa0d6efbff64acc769880910f1a9d913e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 09/86] fix: importKey copies the key bytes

The key kept the caller's buffer, so a write to it after importKey changed
the key.
---
 src/runtime/crypto/ecdsa.rs  | 4 ++--
 src/runtime/crypto/hmac.rs   | 4 ++--
 src/runtime/crypto/pbkdf2.rs | 4 ++--
 src/runtime/crypto/rsa.rs    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index b85a682..758f253 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -247,9 +247,9 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                     if (algoName === 'ECDSA') {
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = keyData.slice();
                         } else {
                             reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                             return;
diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index 09aab2b..51a2955 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -165,9 +165,9 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
 
                     let keyBytes;
                     if (keyData instanceof ArrayBuffer) {
-                        keyBytes = new Uint8Array(keyData);
+                        keyBytes = new Uint8Array(keyData.slice(0));
                     } else if (keyData instanceof Uint8Array) {
-                        keyBytes = keyData;
+                        keyBytes = keyData.slice();
                     } else {
                         reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                         return;
diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 51252c3..6541e40 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -101,9 +101,9 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
 
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = keyData.slice();
                         } else if (typeof keyData === 'string') {
                             keyBytes = new TextEncoder().encode(keyData);
                         } else {
diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index bceb9b2..27ebae8 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -169,9 +169,9 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                     if (algoName === 'RSASSA-PKCS1-v1_5') {
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = keyData.slice();
                         } else {
                             reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                             return;
-- 
2.43.0


From fcd296940d3cc6f2b14dacd69be2c6359dc4a8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 10/86] fix: HMAC sign and verify refuse keys of other
 algorithms

The bytes of any key were taken for an HMAC secret, a public RSA or ECDSA
key's too.
---
 src/runtime/crypto/hmac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index 51a2955..05dd98f 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -199,7 +199,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
@@ -238,7 +238,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
-- 
2.43.0


From a0e96ccd04f51289a370f97fd93a0f48d176e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 11/86] fix: deriveBits refuses lengths and iteration counts it
 cannot honour

A length that is no multiple of 8 was rounded down, a negative, missing or
NaN one gave no bits, and an iteration count that is no 32-bit integer was
truncated, rounded or clamped.
---
 src/runtime/crypto/pbkdf2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 6541e40..164a8e7 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -153,11 +153,16 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
                     }
 
                     const iterations = algorithm.iterations;
-                    if (!iterations || iterations < 1) {
+                    if (!Number.isInteger(iterations) || iterations < 1 || iterations > 0xffffffff) {
                         reject(new Error('Iterations must be a positive number'));
                         return;
                     }
 
+                    if (!Number.isInteger(length) || length <= 0 || length > 0xffffffff || length % 8 !== 0) {
+                        reject(new Error('Length must be a positive multiple of 8'));
+                        return;
+                    }
+
                     const hashName = typeof algorithm.hash === 'string'
                         ? algorithm.hash
                         : algorithm.hash.name;
-- 
2.43.0


From cb42d9fd628268a0d5118f9bf723413c3d1944fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 12/86] fix: ECDSA refuses a hash other than SHA-256

The hash that was asked for was ignored: the signature was one with SHA-256.
---
 src/runtime/crypto/ecdsa.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index 758f253..93338f7 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -300,6 +300,12 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                     const algoName = typeof algorithm === 'string' ? algorithm : algorithm.name;
 
                     if (algoName === 'ECDSA') {
+                        const hash = algorithm.hash && (algorithm.hash.name || algorithm.hash);
+                        if (hash && String(hash).toUpperCase() !== 'SHA-256') {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         if (key.type !== 'private' || key.algorithm.name !== 'ECDSA') {
                             reject(new Error('Invalid key for ECDSA signing'));
                             return;
@@ -343,6 +349,12 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                     const algoName = typeof algorithm === 'string' ? algorithm : algorithm.name;
 
                     if (algoName === 'ECDSA') {
+                        const hash = algorithm.hash && (algorithm.hash.name || algorithm.hash);
+                        if (hash && String(hash).toUpperCase() !== 'SHA-256') {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         if (key.algorithm.name !== 'ECDSA') {
                             reject(new Error('Invalid key for ECDSA verification'));
                             return;
-- 
2.43.0


From aa2e5b56985b36c07ff687bce94790db4f1abfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 13/86] fix: RSA keys are accepted in the formats importKey
 names

A PKCS#8 private key and an SPKI public key were imported and then failed to
sign or verify: only bare PKCS#1 structures worked. These still do.
---
 src/runtime/crypto/rsa.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index 27ebae8..43534c1 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -53,7 +53,9 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
             };
 
             // Load RSA key pair from DER
-            let key_pair = match rsa::KeyPair::from_der(&private_key_data) {
+            let key_pair = match rsa::KeyPair::from_pkcs8(&private_key_data)
+                .or_else(|_| rsa::KeyPair::from_der(&private_key_data))
+            {
                 Ok(kp) => kp,
                 Err(_) => {
                     retval.set(v8::undefined(scope).into());
@@ -142,7 +144,8 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                     }
                 };
 
-            let public_key = signature::UnparsedPublicKey::new(algorithm, &public_key_data);
+            let public_key =
+                signature::UnparsedPublicKey::new(algorithm, strip_spki(&public_key_data));
             let is_valid = public_key.verify(&data, &sig_data).is_ok();
 
             retval.set(v8::Boolean::new(scope, is_valid).into());
@@ -303,3 +306,30 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
     let script = v8::Script::compile(scope, code_str, None).unwrap();
     script.run(scope).unwrap();
 }
+
+/// The RSAPublicKey (PKCS#1) inside a SubjectPublicKeyInfo, or `der` itself if it is not one.
+fn strip_spki(der: &[u8]) -> &[u8] {
+    // The contents of the DER element with this tag at the start of `der`.
+    fn element(der: &[u8], tag: u8) -> Option<&[u8]> {
+        let (&first, rest) = der.strip_prefix(&[tag])?.split_first()?;
+        if first < 0x80 {
+            return rest.get(..first as usize);
+        }
+        let (len, rest) = rest.split_at_checked((first & 0x7f) as usize)?;
+        let len = len
+            .iter()
+            .try_fold(0usize, |n, b| n.checked_mul(256)?.checked_add(*b as usize))?;
+        rest.get(..len)
+    }
+
+    // AlgorithmIdentifier { rsaEncryption, NULL }
+    const RSA_ENCRYPTION: &[u8] = &[
+        0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00,
+    ];
+
+    element(der, 0x30)
+        .and_then(|info| info.strip_prefix(RSA_ENCRYPTION))
+        .and_then(|key| element(key, 0x03))
+        .and_then(|bits| bits.strip_prefix(&[0x00]))
+        .unwrap_or(der)
+}
-- 
2.43.0


From 5b974b5ff9d574ce478b9cd3d72e9e168b08d8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 14/86] fix: getRandomValues fills every integer typed array

All but Uint8Array were left as they were and undefined came back; what is
no integer typed array is now a TypeError.
---
 src/runtime/crypto/random.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 882821d..2b21fe1 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -13,7 +13,21 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
 
             let array = args.get(0);
 
-            if let Ok(uint8_array) = v8::Local::<v8::Uint8Array>::try_from(array) {
+            // Every integer typed array, as on the Web
+            let integers = array.is_uint8_array()
+                || array.is_int8_array()
+                || array.is_uint8_clamped_array()
+                || array.is_uint16_array()
+                || array.is_int16_array()
+                || array.is_uint32_array()
+                || array.is_int32_array()
+                || array.is_big_uint64_array()
+                || array.is_big_int64_array();
+
+            if let Some(uint8_array) = v8::Local::<v8::ArrayBufferView>::try_from(array)
+                .ok()
+                .filter(|_| integers)
+            {
                 let len = uint8_array.byte_length();
                 let mut bytes = vec![0u8; len];
 
@@ -22,7 +36,9 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
 
                 if rand::SecureRandom::fill(&rng, &mut bytes).is_ok() {
                     // Copy back to the typed array
-                    if let Some(buffer) = uint8_array.buffer(scope) {
+                    if len > 0
+                        && let Some(buffer) = uint8_array.buffer(scope)
+                    {
                         let backing_store = buffer.get_backing_store();
                         let offset = uint8_array.byte_offset();
 
@@ -37,6 +53,11 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                 }
 
                 retval.set(array);
+            } else {
+                let message =
+                    v8::String::new(scope, "getRandomValues needs an integer typed array").unwrap();
+                let error = v8::Exception::type_error(scope, message);
+                scope.throw_exception(error);
             }
         },
     )
-- 
2.43.0


From 88156963d948a1a347c998712d9557aeb36978ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 15/86] fix: TextEncoder.encode without an argument gives no
 bytes

It gave the bytes of "undefined".
---
 src/runtime/text_encoding.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index d278535..37a4b71 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -9,7 +9,9 @@ fn text_encode(
     args: v8::FunctionCallbackArguments,
     mut rv: v8::ReturnValue,
 ) {
-    let input = if let Some(arg) = args.get(0).to_string(scope) {
+    let input = if args.get(0).is_undefined() {
+        String::new()
+    } else if let Some(arg) = args.get(0).to_string(scope) {
         arg.to_rust_string_lossy(scope)
     } else {
         String::new()
-- 
2.43.0


From e925772479751adbf9c2f3838bec25eeb362133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 16/86] fix: TextEncoder.encodeInto writes whole characters and
 says how many it read

A character was cut in two at the end of the destination, and read counted
bytes instead of UTF-16 code units.
---
 src/runtime/text_encoding.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index 37a4b71..93007bc 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -154,10 +154,16 @@ pub const TEXT_ENCODING_JS: &str = r#"
         }
 
         encodeInto(source, destination) {
-            const encoded = __text_encode(source);
-            const len = Math.min(encoded.length, destination.length);
-            destination.set(encoded.subarray(0, len));
-            return { read: len, written: len };
+            const encoded = __text_encode(`${source}`);
+            let written = Math.min(encoded.length, destination.length);
+            // Only whole characters
+            while (written < encoded.length && (encoded[written] & 0xc0) === 0x80) written--;
+            destination.set(encoded.subarray(0, written));
+            let read = 0;
+            for (let i = 0; i < written; i++) {
+                if ((encoded[i] & 0xc0) !== 0x80) read += encoded[i] >= 0xf0 ? 2 : 1;
+            }
+            return { read, written };
         }
     };
 
-- 
2.43.0


From 948cbd92d2529c555d3075c00f9554b4bf5638f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 17/86] fix: TextDecoder removes a byte order mark unless
 ignoreBOM is set

It was kept always, so JSON with one could not be parsed.
---
 src/runtime/text_encoding.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index 93007bc..739df6b 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -38,6 +38,7 @@ fn text_decode(
     // arg0: Uint8Array or ArrayBuffer
     // arg1: encoding label (string)
     // arg2: fatal (bool) — if true, throw on invalid sequences instead of replacing
+    // arg3: ignoreBOM (bool) — if true, keep a byte order mark at the start
 
     let input = args.get(0);
 
@@ -101,9 +102,14 @@ fn text_decode(
         }
     };
 
+    let (decoded, had_errors) = if args.get(3).boolean_value(scope) {
+        encoding.decode_without_bom_handling(&bytes)
+    } else {
+        encoding.decode_with_bom_removal(&bytes)
+    };
+
     let result = if fatal {
         // Fatal mode: return error on invalid sequences
-        let (decoded, had_errors) = encoding.decode_without_bom_handling(&bytes);
 
         if had_errors {
             let msg = v8::String::new(scope, "TextDecoder: invalid byte sequence").unwrap();
@@ -115,7 +121,6 @@ fn text_decode(
         decoded.into_owned()
     } else {
         // Replacement mode: replace invalid sequences with U+FFFD
-        let (decoded, _) = encoding.decode_without_bom_handling(&bytes);
         decoded.into_owned()
     };
 
@@ -212,7 +217,7 @@ pub const TEXT_ENCODING_JS: &str = r#"
                         ? new Uint8Array(input)
                         : input;
 
-            return __text_decode(bytes, this.#encoding, this.#fatal);
+            return __text_decode(bytes, this.#encoding, this.#fatal, this.#ignoreBOM);
         }
     };
 "#;
-- 
2.43.0


From c7245800fc8d758de6c088a42781b971f94a2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 18/86] fix: TextDecoder.encoding is the name of the encoding

It was the label it was made with; "replacement", which decodes nothing, was
accepted.
---
 src/runtime/text_encoding.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index 739df6b..a80925e 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -128,6 +128,25 @@ fn text_decode(
     rv.set(v8_str.into());
 }
 
+/// Native TextDecoder.encoding: label → lowercase name of the encoding
+fn text_encoding_name(
+    scope: &mut v8::PinScope,
+    args: v8::FunctionCallbackArguments,
+    mut rv: v8::ReturnValue,
+) {
+    let label = args.get(0).to_rust_string_lossy(scope);
+
+    if let Some(encoding) = encoding_rs::Encoding::for_label_no_replacement(label.as_bytes()) {
+        let name = v8::String::new(scope, &encoding.name().to_ascii_lowercase()).unwrap();
+        rv.set(name.into());
+    } else {
+        let msg = format!("TextDecoder: '{}' is not a supported encoding", label);
+        let msg = v8::String::new(scope, &msg).unwrap();
+        let exc = v8::Exception::range_error(scope, msg);
+        scope.throw_exception(exc);
+    }
+}
+
 /// Register native __text_encode and __text_decode functions on globalThis.
 ///
 /// Must be called at runtime (not in snapshot) because native functions
@@ -142,6 +161,10 @@ pub fn setup_text_encoding_natives(scope: &mut v8::PinScope) {
     let decode_fn = v8::Function::new(scope, text_decode).unwrap();
     let key = v8::String::new(scope, "__text_decode").unwrap();
     global.set(scope, key.into(), decode_fn.into());
+
+    let name_fn = v8::Function::new(scope, text_encoding_name).unwrap();
+    let key = v8::String::new(scope, "__text_encoding_name").unwrap();
+    global.set(scope, key.into(), name_fn.into());
 }
 
 /// JS source for TextEncoder/TextDecoder class wrappers.
@@ -178,23 +201,12 @@ pub const TEXT_ENCODING_JS: &str = r#"
         #ignoreBOM;
 
         constructor(label = 'utf-8', options = {}) {
-            this.#encoding = label.toLowerCase().trim();
+            this.#encoding = __text_encoding_name(label);
             this.#fatal = !!options.fatal;
             this.#ignoreBOM = !!options.ignoreBOM;
-
-            // Validate encoding by attempting a decode
-            // encoding_rs will reject invalid labels
-            try {
-                __text_decode(new Uint8Array(0), this.#encoding, this.#fatal);
-            } catch (e) {
-                if (e instanceof RangeError) throw e;
-                throw e;
-            }
         }
 
         get encoding() {
-            // encoding_rs normalizes labels, but we store the canonical name
-            // The spec says to return the lowercase name
             return this.#encoding;
         }
 
-- 
2.43.0


From 2cf5870b1886826b7a56f1ebc7adafc7e7366cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 19/86] fix: TextDecoder.decode keeps the start of a character
 with stream set

The option was ignored: a character cut in two by a chunk boundary came out
as replacement characters.
---
 src/runtime/text_encoding.rs | 71 ++++++++++++++++++++++++++++++++++--
 1 file changed, 68 insertions(+), 3 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index a80925e..56de577 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -147,6 +147,52 @@ fn text_encoding_name(
     }
 }
 
+/// How many bytes at the end of (Uint8Array, encoding) wait for the rest of a character.
+fn text_incomplete(
+    scope: &mut v8::PinScope,
+    args: v8::FunctionCallbackArguments,
+    mut rv: v8::ReturnValue,
+) {
+    let Ok(bytes) = v8::Local::<v8::Uint8Array>::try_from(args.get(0)) else {
+        return;
+    };
+    let mut src = vec![0u8; bytes.byte_length()];
+    bytes.copy_contents(&mut src);
+
+    let label = args.get(1).to_rust_string_lossy(scope);
+    let Some(encoding) = encoding_rs::Encoding::for_label(label.as_bytes()) else {
+        return;
+    };
+
+    // The escape sequences of ISO-2022-JP have effect up to the end
+    let incomplete = if encoding == encoding_rs::ISO_2022_JP {
+        src.len()
+    } else {
+        let mut decoder = encoding.new_decoder_without_bom_handling();
+        let mut out = [0u8; 4096];
+        let mut at = 0;
+        loop {
+            let (result, read, _, _) = decoder.decode_to_utf8(&src[at..], &mut out, false);
+            at += read;
+
+            if result == encoding_rs::CoderResult::InputEmpty {
+                break;
+            }
+        }
+
+        // What the end of the input would make malformed
+        match decoder
+            .decode_to_utf8_without_replacement(&[], &mut out, true)
+            .0
+        {
+            encoding_rs::DecoderResult::Malformed(len, _) => len as usize,
+            _ => 0,
+        }
+    };
+
+    rv.set_uint32(incomplete as u32);
+}
+
 /// Register native __text_encode and __text_decode functions on globalThis.
 ///
 /// Must be called at runtime (not in snapshot) because native functions
@@ -165,6 +211,10 @@ pub fn setup_text_encoding_natives(scope: &mut v8::PinScope) {
     let name_fn = v8::Function::new(scope, text_encoding_name).unwrap();
     let key = v8::String::new(scope, "__text_encoding_name").unwrap();
     global.set(scope, key.into(), name_fn.into());
+
+    let incomplete_fn = v8::Function::new(scope, text_incomplete).unwrap();
+    let key = v8::String::new(scope, "__text_incomplete").unwrap();
+    global.set(scope, key.into(), incomplete_fn.into());
 }
 
 /// JS source for TextEncoder/TextDecoder class wrappers.
@@ -199,6 +249,8 @@ pub const TEXT_ENCODING_JS: &str = r#"
         #encoding;
         #fatal;
         #ignoreBOM;
+        #pending = new Uint8Array(0);
+        #started = false;
 
         constructor(label = 'utf-8', options = {}) {
             this.#encoding = __text_encoding_name(label);
@@ -219,9 +271,9 @@ pub const TEXT_ENCODING_JS: &str = r#"
         }
 
         decode(input, options) {
-            if (!input) return '';
+            if (!input) input = new Uint8Array(0);
 
-            const bytes = input instanceof Uint8Array
+            let bytes = input instanceof Uint8Array
                 ? input
                 : ArrayBuffer.isView(input)
                     ? new Uint8Array(input.buffer, input.byteOffset, input.byteLength)
@@ -229,7 +281,20 @@ pub const TEXT_ENCODING_JS: &str = r#"
                         ? new Uint8Array(input)
                         : input;
 
-            return __text_decode(bytes, this.#encoding, this.#fatal, this.#ignoreBOM);
+            // With stream set, the start of a character waits for the next call
+            const stream = !!options?.stream;
+            if (bytes instanceof Uint8Array && (stream || this.#pending.length > 0)) {
+                const joined = new Uint8Array(this.#pending.length + bytes.length);
+                joined.set(this.#pending);
+                joined.set(bytes, this.#pending.length);
+                const end = joined.length - (stream ? __text_incomplete(joined, this.#encoding) : 0);
+                this.#pending = joined.slice(end);
+                bytes = joined.subarray(0, end);
+            }
+
+            const keepBOM = this.#ignoreBOM || this.#started;
+            this.#started = stream && (this.#started || bytes.length > 0);
+            return __text_decode(bytes, this.#encoding, this.#fatal, keepBOM);
         }
     };
 "#;
-- 
2.43.0


From b41977a30c3020b32f3850d87d08b89c6c973453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 20/86] fix: cancelling a stream ends its pending reads and
 drops its queue

Pending reads stayed pending for ever (and made the reader's cancel throw),
and a new reader was still given the chunks that were queued.
---
 src/runtime/streams.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index a3e69e3..22802ce 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -43,6 +43,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 }
 
                 this._state = 'closed';
+                this._controller._queue = [];
 
                 // Abort the controller's signal to notify user code
                 if (this._controller && this._controller._abortController) {
@@ -51,13 +52,18 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                 // Clear reader
                 if (this._reader) {
+                    this._reader._processQueue();
                     this._reader._closePending();
                     this._reader = null;
                 }
 
                 // Call underlying source cancel
                 if (this._underlyingSource.cancel) {
-                    return Promise.resolve(this._underlyingSource.cancel(reason));
+                    try {
+                        return Promise.resolve(this._underlyingSource.cancel(reason));
+                    } catch (e) {
+                        return Promise.reject(e);
+                    }
                 }
 
                 return Promise.resolve();
-- 
2.43.0


From dda2cd6eb34924b98a199131cf076d06c01b5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 21/86] fix: a stream is closed when its last chunk was read

It was closed by one more read only, so the reader's closed promise did not
settle, nor did that of a reader made after the end or an error.
---
 src/runtime/streams.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 22802ce..40caf39 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -261,6 +261,16 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 if (this._stream._reader) {
                     this._stream._reader._processQueue();
                 }
+
+                // Closed once everything before the close was read
+                if (this._queue.length > 0 && this._queue[0].type === 'close') {
+                    this._queue = [];
+                    this._stream._state = 'closed';
+
+                    if (this._stream._reader) {
+                        this._stream._reader._closePending();
+                    }
+                }
             }
 
             get desiredSize() {
@@ -293,6 +303,13 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._closedPromiseResolve = resolve;
                     this._closedPromiseReject = reject;
                 });
+                this._closedPromise.catch(() => {});
+
+                if (stream._state === 'closed') {
+                    this._closePending();
+                } else if (stream._state === 'errored') {
+                    this._errorPending(stream._storedError);
+                }
             }
 
             read() {
@@ -316,6 +333,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                         return Promise.resolve({ done: true, value: undefined });
                     }
 
+                    controller._processQueue();
                     return Promise.resolve({ done: false, value: item.value });
                 }
 
-- 
2.43.0


From 3987c0566d5c8df2b58d7efe7bd54bf9ac7b9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 22/86] fix: a stream's pull is called once at a time, and its
 exceptions are errors

Reads made while a pull was running called it again, which a tee and the
native bodies cannot serve: the second read never ended or failed. An
exception left a dead read in front of the others.
---
 src/runtime/streams.rs | 44 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 40caf39..a6c8d71 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -193,6 +193,8 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._stream = stream;
                 this._queue = [];
                 this._closeRequested = false;
+                this._pulling = false;
+                this._pullAgain = false;
                 // AbortController for signaling cancellation to user code
                 this._abortController = new AbortController();
             }
@@ -223,6 +225,12 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                 this._queue.push({ type: 'chunk', value: chunk });
                 this._processQueue();
+
+                // Reads that still wait need another pull
+                const reader = this._stream._reader;
+                if (reader && reader._readRequests.length > 0 && this._stream._underlyingSource.pull) {
+                    this._pull();
+                }
             }
 
             close() {
@@ -257,6 +265,35 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._queue = [];
             }
 
+            // One pull at a time; another one follows if a read asked for it meanwhile
+            _pull() {
+                if (this._pulling) {
+                    this._pullAgain = true;
+                    return;
+                }
+
+                this._pulling = true;
+                this._pullAgain = false;
+
+                let pulled;
+                try {
+                    pulled = Promise.resolve(this._stream._underlyingSource.pull(this));
+                } catch (e) {
+                    pulled = Promise.reject(e);
+                }
+
+                pulled.then(() => {
+                    this._pulling = false;
+                    const reader = this._stream._reader;
+
+                    if (this._pullAgain && reader && reader._readRequests.length > 0) {
+                        this._pull();
+                    }
+                }, e => {
+                    this.error(e);
+                });
+            }
+
             _processQueue() {
                 if (this._stream._reader) {
                     this._stream._reader._processQueue();
@@ -351,12 +388,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                         // Call pull to request more data
                         // pull() should enqueue data or close/error the stream
-                        const pullPromise = underlyingSource.pull(controller);
-                        if (pullPromise && typeof pullPromise.then === 'function') {
-                            pullPromise.catch(e => {
-                                controller.error(e);
-                            });
-                        }
+                        controller._pull();
                     });
                 }
 
-- 
2.43.0


From 299b918bc763fbed4a6475365d302e9be825bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 23/86] fix: Headers takes its initial values from any iterable
 of pairs

---
 src/runtime/bindings/web_api.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index e8d5ac2..46d045e 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -667,8 +667,8 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
                         for (const [key, value] of init.entries()) {
                             this.append(key, value);
                         }
-                    } else if (Array.isArray(init)) {
-                        // Array of [key, value] pairs
+                    } else if (typeof init[Symbol.iterator] === 'function') {
+                        // [key, value] pairs (array, Map, ...)
                         for (const [key, value] of init) {
                             this.append(key, value);
                         }
-- 
2.43.0


From 738812486cd32a6b44f9d4a03a6f2613335a0ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 24/86] fix: Headers.getSetCookie returns a copy, and empty
 cookies too

---
 src/runtime/bindings/web_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 46d045e..5a01acc 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -789,10 +789,10 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
             // getSetCookie returns all Set-Cookie headers as array
             getSetCookie() {
                 const value = this._map.get('set-cookie');
-                if (!value) return [];
-                // If it's already an array (multiple set-cookie headers), return it
+                if (value === undefined) return [];
+                // If it's an array (multiple set-cookie headers), return a copy of it
                 // Otherwise wrap single value in array
-                return Array.isArray(value) ? value : [value];
+                return Array.isArray(value) ? [...value] : [value];
             }
         };
     "#;
-- 
2.43.0


From 755d0b13c6d3f2f029ae351719993d9fb7439176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 25/86] fix: a Response has headers of its own

---
 src/runtime/bindings/web_api.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 5a01acc..4617185 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1084,12 +1084,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 this.type = init.type || 'default';
                 this.redirected = init.redirected || false;
 
-                // Convert headers to Headers instance
-                if (init.headers instanceof Headers) {
-                    this.headers = init.headers;
-                } else {
-                    this.headers = new Headers(init.headers);
-                }
+                // Convert headers to a Headers instance of its own
+                this.headers = new Headers(init.headers);
 
                 // Support different body types - all wrapped in ReadableStream
                 // _isBuffered marks responses where body data is already fully available
-- 
2.43.0


From 0185f5bee94b259e92e88d2e8154962b1cb2207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 26/86] fix: URLSearchParams reads '+', '=' in values, empty
 and malformed parts as the URL standard says

---
 src/runtime/bindings/web_api.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 4617185..3dcf0e0 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -457,11 +457,12 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                 if (typeof init === 'string') {
                     // Parse query string
                     const str = init.startsWith('?') ? init.slice(1) : init;
-                    if (str) {
-                        for (const pair of str.split('&')) {
-                            const [key, value = ''] = pair.split('=').map(decodeURIComponent);
-                            this._entries.push([key, value]);
-                        }
+                    for (const pair of str.split('&')) {
+                        if (!pair) continue;
+                        const eq = pair.indexOf('=');
+                        const key = eq >= 0 ? pair.slice(0, eq) : pair;
+                        const value = eq >= 0 ? pair.slice(eq + 1) : '';
+                        this._entries.push([this._decode(key), this._decode(value)]);
                     }
                 } else if (init instanceof URLSearchParams) {
                     this._entries = init._entries.map(e => [...e]);
@@ -476,6 +477,27 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                 }
             }
 
+            // Percent-decode; sequences that are malformed stay as they are
+            _decode(str) {
+                const bytes = new TextEncoder().encode(str.replace(/\+/g, ' '));
+                const out = [];
+                const hex = (b) => (b === undefined ? NaN : parseInt(String.fromCharCode(b), 16));
+
+                for (let i = 0; i < bytes.length; i++) {
+                    const high = hex(bytes[i + 1]);
+                    const low = hex(bytes[i + 2]);
+
+                    if (bytes[i] === 0x25 && high >= 0 && low >= 0) {
+                        out.push(high * 16 + low);
+                        i += 2;
+                    } else {
+                        out.push(bytes[i]);
+                    }
+                }
+
+                return new TextDecoder('utf-8', { ignoreBOM: true }).decode(new Uint8Array(out));
+            }
+
             _update() {
                 if (this._url) {
                     const qs = this.toString();
-- 
2.43.0


From 61c989dfcd3ded839bd75610e8f997e0054a47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 27/86] fix: URLSearchParams takes its initial values from any
 iterable of pairs

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 3dcf0e0..299585d 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -466,7 +466,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                     }
                 } else if (init instanceof URLSearchParams) {
                     this._entries = init._entries.map(e => [...e]);
-                } else if (Array.isArray(init)) {
+                } else if (typeof init[Symbol.iterator] === 'function') {
                     for (const [key, value] of init) {
                         this._entries.push([String(key), String(value)]);
                     }
-- 
2.43.0


From b7c2ae39d66b45c6517dd83e783fbec8782c49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 28/86] fix: URLSearchParams looks names up as strings

---
 src/runtime/bindings/web_api.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 299585d..4df040b 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -512,21 +512,25 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             delete(name) {
-                this._entries = this._entries.filter(([k]) => k !== name);
+                const strName = String(name);
+                this._entries = this._entries.filter(([k]) => k !== strName);
                 this._update();
             }
 
             get(name) {
-                const entry = this._entries.find(([k]) => k === name);
+                const strName = String(name);
+                const entry = this._entries.find(([k]) => k === strName);
                 return entry ? entry[1] : null;
             }
 
             getAll(name) {
-                return this._entries.filter(([k]) => k === name).map(([, v]) => v);
+                const strName = String(name);
+                return this._entries.filter(([k]) => k === strName).map(([, v]) => v);
             }
 
             has(name) {
-                return this._entries.some(([k]) => k === name);
+                const strName = String(name);
+                return this._entries.some(([k]) => k === strName);
             }
 
             set(name, value) {
-- 
2.43.0


From 6586abe4e300c1e7dbb208da09098bc3debc7974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 29/86] fix: URLSearchParams.sort orders by code units

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 4df040b..a1ab5d2 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -560,7 +560,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             sort() {
-                this._entries.sort((a, b) => a[0].localeCompare(b[0]));
+                this._entries.sort((a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0));
                 this._update();
             }
 
-- 
2.43.0


From 54a6e757f6fca8335ea63df631c77b70e9d2e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 30/86] fix: iterating URLSearchParams does not hand out its
 own entries

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index a1ab5d2..79f07a4 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -571,7 +571,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             *entries() {
-                yield* this._entries;
+                for (const [k, v] of this._entries) yield [k, v];
             }
 
             *keys() {
-- 
2.43.0


From ad6922abcb3d31532c87fece87314dfc95846a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 31/86] fix: URL resolves references by RFC 3986, knows IPv6
 hosts, is in normal form and refuses what is no URL

---
 src/runtime/bindings/web_api.rs | 116 ++++++++++++++++++++++----------
 1 file changed, 82 insertions(+), 34 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 79f07a4..40f26fd 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -608,51 +608,38 @@ pub fn setup_url(scope: &mut v8::PinScope) {
         globalThis.URL = class URL {
             constructor(url, base) {
                 // Handle URL object input - convert to string
-                if (url instanceof URL) {
-                    url = url.href;
-                } else {
-                    url = String(url);
-                }
-
-                if (base) {
-                    // Handle relative URLs
-                    const baseUrl = typeof base === 'string' ? base : base.href;
-
-                    if (url.startsWith('/')) {
-                        // Absolute path - use origin from base
-                        const match = baseUrl.match(/^([a-z][a-z0-9+\-.]*:\/\/[^\/]+)/i);
-                        url = match ? match[1] + url : url;
-                    } else if (!url.match(/^[a-z][a-z0-9+\-.]*:\/\//i)) {
-                        // Relative path - append to base directory
-                        const hasPath = baseUrl.match(/^[a-z][a-z0-9+\-.]*:\/\/[^\/]+\//i);
-                        if (hasPath) {
-                            url = baseUrl.replace(/\/[^\/]*$/, '/') + url;
-                        } else {
-                            url = baseUrl + '/' + url;
-                        }
-                    }
-                }
+                url = url instanceof URL ? url.href : String(url).trim();
 
-                this.href = url;
+                if (base !== undefined) {
+                    url = this._resolve(url, new URL(base).href);
+                }
 
                 // scheme://[userinfo@]host[:port][/path][?query][#hash]
-                const match = url.match(/^([a-z][a-z0-9+\-.]*):\/\/(?:([^@\/\?#]*)@)?([^:\/?#]*)(?::(\d+))?(\/[^\?#]*)?(\?[^#]*)?(#.*)?$/i);
+                const match = url.match(/^([a-z][a-z0-9+\-.]*):\/\/(?:([^@\/\?#]*)@)?(\[[0-9a-f:.]+\]|[^:\/?#]*)(?::(\d*))?(\/[^\?#]*)?(\?[^#]*)?(#.*)?$/i);
 
                 if (match) {
-                    this.protocol = match[1] + ':';
+                    this.protocol = match[1].toLowerCase() + ':';
+                    const special = /^(?:https?|wss?):$/.test(this.protocol);
                     const userinfo = match[2] || '';
                     const colonIdx = userinfo.indexOf(':');
-                    this.username = decodeURIComponent(colonIdx >= 0 ? userinfo.slice(0, colonIdx) : userinfo);
-                    this.password = decodeURIComponent(colonIdx >= 0 ? userinfo.slice(colonIdx + 1) : '');
-                    this.hostname = match[3];
-                    this.port = match[4] || '';
+                    this.username = colonIdx >= 0 ? userinfo.slice(0, colonIdx) : userinfo;
+                    this.password = colonIdx >= 0 ? userinfo.slice(colonIdx + 1) : '';
+                    this.hostname = special ? match[3].toLowerCase() : match[3];
+                    this.port = this._port(match[4]);
                     this.host = this.hostname + (this.port ? ':' + this.port : '');
-                    this.pathname = match[5] || '/';
-                    this.search = match[6] || '';
-                    this.hash = match[7] || '';
+                    this.pathname = this._withoutDots(match[5] || '/');
+                    this.search = match[6] && match[6] !== '?' ? match[6] : '';
+                    this.hash = match[7] && match[7] !== '#' ? match[7] : '';
                     this.origin = this.protocol + '//' + this.host;
+                    this.href = this._serialize();
                     this.searchParams = new URLSearchParams(this.search);
                 } else {
+                    // Not hierarchical (data:, mailto:, ...); anything else is no URL
+                    if (!url.match(/^(?!(?:https?|wss?):)[a-z][a-z0-9+\-.]*:/i)) {
+                        throw new TypeError('Invalid URL: ' + url);
+                    }
+
+                    this.href = url;
                     this.protocol = '';
                     this.username = '';
                     this.password = '';
@@ -670,6 +657,67 @@ pub fn setup_url(scope: &mut v8::PinScope) {
                 this.searchParams._url = this;
             }
 
+            // Resolve a reference against an absolute URL (RFC 3986, 5.2)
+            _resolve(url, base) {
+                const match = base.match(/^([a-z][a-z0-9+\-.]*:)(\/\/[^\/?#]*)([^?#]*)(\?[^#]*)?/i);
+
+                if (!match || url.match(/^[a-z][a-z0-9+\-.]*:/i)) return url;
+
+                const [, scheme, authority, path, query = ''] = match;
+                const root = scheme + authority;
+
+                if (url.startsWith('//')) return scheme + url;
+                if (url.startsWith('/')) return root + url;
+                if (url.startsWith('?')) return root + path + url;
+                if (url === '' || url.startsWith('#')) return root + path + query + url;
+
+                return root + path.replace(/[^\/]*$/, '') + url;
+            }
+
+            // Remove "." and ".." segments from a path
+            _withoutDots(path) {
+                const out = [];
+                const segments = path.split('/').slice(1);
+
+                segments.forEach((segment, i) => {
+                    const last = i === segments.length - 1;
+
+                    if (segment === '..') {
+                        out.pop();
+                        if (last) out.push('');
+                    } else if (segment === '.') {
+                        if (last) out.push('');
+                    } else {
+                        out.push(segment);
+                    }
+                });
+
+                return '/' + out.join('/');
+            }
+
+            // Port without leading zeros, empty if it is the scheme's own
+            _port(digits) {
+                const defaults = { 'http:': 80, 'ws:': 80, 'https:': 443, 'wss:': 443 };
+
+                if (!digits) return '';
+
+                const port = Number(digits);
+
+                if (port > 65535) {
+                    throw new TypeError('Invalid port: ' + digits);
+                }
+
+                return port === defaults[this.protocol] ? '' : String(port);
+            }
+
+            _serialize() {
+                const userinfo = this.username || this.password
+                    ? this.username + (this.password ? ':' + this.password : '') + '@'
+                    : '';
+
+                return this.protocol + '//' + userinfo + this.host + this.pathname + this.search + this.hash;
+            }
+
             toString() {
                 return this.href;
             }
-- 
2.43.0


From 9ecdacc5fb8d31dbe536eb5e8325768a0e1d74f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 32/86] fix: a change of URL.searchParams keeps the user and
 password

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 40f26fd..6b58266 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -502,7 +502,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                 if (this._url) {
                     const qs = this.toString();
                     this._url.search = qs ? '?' + qs : '';
-                    this._url.href = this._url.origin + this._url.pathname + this._url.search + this._url.hash;
+                    this._url.href = this._url._serialize();
                 }
             }
 
-- 
2.43.0


From f5e5664e6460b304945a88549b821030565b449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 33/86] fix: URL has toJSON, so it is a string in JSON

---
 src/runtime/bindings/web_api.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 6b58266..ad560f4 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -721,6 +721,10 @@ pub fn setup_url(scope: &mut v8::PinScope) {
             toString() {
                 return this.href;
             }
+
+            toJSON() {
+                return this.href;
+            }
         };
     "#;
 
-- 
2.43.0


From 6ebd30507a4ccd8f41ff5a1da8db8f4246c8fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 34/86] fix: URL refuses an empty host

---
 src/runtime/bindings/web_api.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index ad560f4..02be55c 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -625,6 +625,11 @@ pub fn setup_url(scope: &mut v8::PinScope) {
                     this.username = colonIdx >= 0 ? userinfo.slice(0, colonIdx) : userinfo;
                     this.password = colonIdx >= 0 ? userinfo.slice(colonIdx + 1) : '';
                     this.hostname = special ? match[3].toLowerCase() : match[3];
+
+                    if (special && !this.hostname) {
+                        throw new TypeError('Invalid URL: ' + url);
+                    }
+
                     this.port = this._port(match[4]);
                     this.host = this.hostname + (this.port ? ':' + this.port : '');
                     this.pathname = this._withoutDots(match[5] || '/');
-- 
2.43.0


From 917417e9fd1ace8f0bb4298e5826bb44463ed9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 35/86] fix: btoa and atob take any value as a string, and atob
 refuses what is no base64

---
 src/runtime/bindings/web_api.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 02be55c..7746d30 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -388,6 +388,7 @@ pub fn setup_base64(scope: &mut v8::PinScope) {
         // btoa: binary string → base64
         // Each char is treated as a single byte (charCodeAt), NOT UTF-8.
         globalThis.btoa = function(str) {
+            str = String(str);
             const len = str.length;
             let result = '';
 
@@ -419,7 +420,16 @@ pub fn setup_base64(scope: &mut v8::PinScope) {
         // atob: base64 → binary string
         // Returns a string where each char is one byte (latin-1), NOT UTF-8.
         globalThis.atob = function(base64) {
-            base64 = base64.replace(/[\s=]/g, '');
+            base64 = String(base64).replace(/[\t\n\f\r ]/g, '');
+
+            if (base64.length % 4 === 0) {
+                base64 = base64.replace(/==?$/, '');
+            }
+
+            if (base64.length % 4 === 1 || /[^A-Za-z0-9+\/_-]/.test(base64)) {
+                throw new DOMException('Invalid character', 'InvalidCharacterError');
+            }
+
             const len = base64.length;
             const outLen = (len * 3) >>> 2;
             let result = '';
-- 
2.43.0


From a01a23d10536176a3538469078b6cccc472edcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 36/86] fix: structuredClone keeps shared buffers, dates and
 patterns shared, and the bounds of views

---
 src/runtime/bindings/web_api.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 7746d30..6ccdf1a 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -303,25 +303,33 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
 
                 // Date
                 if (obj instanceof Date) {
-                    return new Date(obj.getTime());
+                    const copy = new Date(obj.getTime());
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // RegExp
                 if (obj instanceof RegExp) {
-                    return new RegExp(obj.source, obj.flags);
+                    const copy = new RegExp(obj.source, obj.flags);
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // ArrayBuffer
                 if (obj instanceof ArrayBuffer) {
                     const copy = new ArrayBuffer(obj.byteLength);
                     new Uint8Array(copy).set(new Uint8Array(obj));
+                    seen.set(obj, copy);
                     return copy;
                 }
 
-                // TypedArrays
+                // TypedArrays and DataView
                 if (ArrayBuffer.isView(obj)) {
-                    const TypedArrayConstructor = obj.constructor;
-                    return new TypedArrayConstructor(clone(obj.buffer, seen), obj.byteOffset, obj.length);
+                    const ViewConstructor = obj.constructor;
+                    const length = obj instanceof DataView ? obj.byteLength : obj.length;
+                    const copy = new ViewConstructor(clone(obj.buffer, seen), obj.byteOffset, length);
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // Map
-- 
2.43.0


From 00968de288bd063191df5dd02280feb4cb5349dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 37/86] fix: structuredClone keeps holes and properties of
 arrays, and a property named __proto__

---
 src/runtime/bindings/web_api.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 6ccdf1a..d304363 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -354,10 +354,10 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
 
                 // Array
                 if (Array.isArray(obj)) {
-                    const copy = [];
+                    const copy = new Array(obj.length);
                     seen.set(obj, copy);
-                    for (let i = 0; i < obj.length; i++) {
-                        copy[i] = clone(obj[i], seen);
+                    for (const key of Object.keys(obj)) {
+                        copy[key] = clone(obj[key], seen);
                     }
                     return copy;
                 }
@@ -366,7 +366,13 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
                 const copy = {};
                 seen.set(obj, copy);
                 for (const key of Object.keys(obj)) {
-                    copy[key] = clone(obj[key], seen);
+                    // Not an assignment, which would set the prototype for "__proto__"
+                    Object.defineProperty(copy, key, {
+                        value: clone(obj[key], seen),
+                        writable: true,
+                        enumerable: true,
+                        configurable: true
+                    });
                 }
                 return copy;
             }
-- 
2.43.0


From 65c8fce47898eec11cbee62c213c3939af78ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 38/86] fix: structuredClone clones errors and boxed
 primitives, and refuses what cannot be cloned

---
 src/runtime/bindings/web_api.rs | 34 +++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index d304363..449213f 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -291,6 +291,14 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
 
             // Use JSON for simple cases, but handle more types
             function clone(obj, seen = new Map()) {
+                if (
+                    typeof obj === 'function' ||
+                    typeof obj === 'symbol' ||
+                    [WeakMap, WeakSet, WeakRef, Promise, Symbol].some(type => obj instanceof type)
+                ) {
+                    throw new DOMException('The value could not be cloned', 'DataCloneError');
+                }
+
                 // Primitives
                 if (obj === null || typeof obj !== 'object') {
                     return obj;
@@ -301,6 +309,32 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
                     return seen.get(obj);
                 }
 
+                // Boxed primitives
+                if ([Number, String, Boolean, BigInt].some(type => obj instanceof type)) {
+                    const copy = Object(obj.valueOf());
+                    seen.set(obj, copy);
+                    return copy;
+                }
+
+                // Errors
+                if (obj instanceof Error) {
+                    const types = [EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError];
+                    const ErrorConstructor = types.find(type => type.name === obj.name) || Error;
+                    const copy = new ErrorConstructor();
+                    seen.set(obj, copy);
+                    for (const key of ['message', 'stack']) {
+                        if (Object.hasOwn(obj, key)) {
+                            Object.defineProperty(copy, key, {
+                                value: String(obj[key]),
+                                writable: true,
+                                enumerable: false,
+                                configurable: true
+                            });
+                        }
+                    }
+                    return copy;
+                }
+
                 // Date
                 if (obj instanceof Date) {
                     const copy = new Date(obj.getTime());
-- 
2.43.0


From 452f6f4b63e73aa7ce1cb0e0200994058675cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 39/86] fix: a Blob keeps its own copy of its parts, and hands
 out copies

---
 src/runtime/bindings/web_api.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 449213f..b265f3d 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -58,9 +58,9 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
                     if (part instanceof Blob) {
                         this._parts.push(...part._parts);
                     } else if (part instanceof ArrayBuffer) {
-                        this._parts.push(new Uint8Array(part));
+                        this._parts.push(new Uint8Array(part.slice(0)));
                     } else if (ArrayBuffer.isView(part)) {
-                        this._parts.push(new Uint8Array(part.buffer, part.byteOffset, part.byteLength));
+                        this._parts.push(new Uint8Array(part.buffer, part.byteOffset, part.byteLength).slice());
                     } else {
                         this._parts.push(new TextEncoder().encode(String(part)));
                     }
@@ -78,7 +78,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             }
 
             async arrayBuffer() {
-                return this._getBytes().buffer;
+                return this._getBytes().slice().buffer;
             }
 
             async text() {
@@ -86,7 +86,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             }
 
             stream() {
-                const bytes = this._getBytes();
+                const bytes = this._getBytes().slice();
                 return new ReadableStream({
                     start(controller) {
                         controller.enqueue(bytes);
-- 
2.43.0


From 94021518c56046002330bbcb58bfc60cf10e711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 40/86] fix: a File may be last modified at 0

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index b265f3d..5ae64f5 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -114,7 +114,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             constructor(fileBits, fileName, options = {}) {
                 super(fileBits, options);
                 this.name = fileName;
-                this.lastModified = options.lastModified || Date.now();
+                this.lastModified = options.lastModified ?? Date.now();
             }
         };
     "#;
-- 
2.43.0


From c9b1075b618d2cba475b0126cd90365d73fbe544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 41/86] fix: FormData holds strings and Files only, and set
 keeps the place of an entry

---
 src/runtime/bindings/web_api.rs | 37 +++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 5ae64f5..3afefd5 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -131,11 +131,23 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 this._entries = [];
             }
 
-            append(name, value, filename) {
-                if (value instanceof Blob && filename === undefined && value instanceof File) {
-                    filename = value.name;
+            // An entry's value is a File (from any Blob) or a string
+            _entry(name, value, filename) {
+                if (!(value instanceof Blob)) {
+                    return [String(name), String(value)];
+                }
+
+                if (!(value instanceof File) || filename !== undefined) {
+                    const fileName = filename === undefined ? 'blob' : String(filename);
+                    const { type, lastModified } = value;
+                    value = new File([value], fileName, { type, lastModified });
                 }
-                this._entries.push([String(name), value, filename]);
+
+                return [String(name), value];
+            }
+
+            append(name, value, filename) {
+                this._entries.push(this._entry(name, value, filename));
             }
 
             delete(name) {
@@ -160,14 +172,17 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
             }
 
             set(name, value, filename) {
-                const strName = String(name);
-                if (value instanceof Blob && filename === undefined && value instanceof File) {
-                    filename = value.name;
+                const entry = this._entry(name, value, filename);
+                const index = this._entries.findIndex(([k]) => k === entry[0]);
+
+                if (index === -1) {
+                    this._entries.push(entry);
+                    return;
                 }
-                // Remove all existing entries with this name
-                this._entries = this._entries.filter(([k]) => k !== strName);
-                // Add the new entry
-                this._entries.push([strName, value, filename]);
+
+                // Take the place of the first entry with this name, remove the others
+                this._entries[index] = entry;
+                this._entries = this._entries.filter(([k], i) => i <= index || k !== entry[0]);
             }
 
             *entries() {
-- 
2.43.0


From e7e5e47b6bfd4ebaa922521daf6ea9778297dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 42/86] fix: multipart parts end at a boundary on a line of its
 own, and names are told from file names

---
 src/runtime/bindings/web_api.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 3afefd5..3b0cdc8 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1086,6 +1086,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     }
                     const boundary = '--' + (boundaryMatch[1] || boundaryMatch[2]);
                     const boundaryBytes = new TextEncoder().encode(boundary);
+                    const delimiterBytes = new TextEncoder().encode('\r\n' + boundary);
                     const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
                     const crlf = new Uint8Array([13, 10]); // \r\n
 
@@ -1122,20 +1123,21 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                         const headerText = new TextDecoder().decode(headerBytes);
 
                         // Find next boundary for body end
-                        const nextBoundary = findPattern(data, boundaryBytes, headerEnd + 4);
-                        const bodyEnd = nextBoundary !== -1 ? nextBoundary - 2 : data.length; // -2 for CRLF before boundary
+                        const bodyBoundary = findPattern(data, delimiterBytes, headerEnd + 4);
+                        const nextBoundary = bodyBoundary !== -1 ? bodyBoundary + 2 : -1; // +2 for CRLF before boundary
+                        const bodyEnd = bodyBoundary !== -1 ? bodyBoundary : data.length;
 
                         // Extract body as bytes
                         const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
 
-                        const nameMatch = headerText.match(/name="([^"]+)"/);
+                        const nameMatch = headerText.match(/[;\s]name="([^"]*)"/i);
                         if (!nameMatch) {
                             pos = nextBoundary;
                             continue;
                         }
 
                         const name = nameMatch[1];
-                        const filenameMatch = headerText.match(/filename="([^"]+)"/);
+                        const filenameMatch = headerText.match(/[;\s]filename="([^"]*)"/i);
 
                         if (filenameMatch) {
                             const filename = filenameMatch[1];
@@ -1363,6 +1365,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 
                     const boundary = '--' + (boundaryMatch[1] || boundaryMatch[2]);
                     const boundaryBytes = new TextEncoder().encode(boundary);
+                    const delimiterBytes = new TextEncoder().encode('\r\n' + boundary);
                     const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
 
                     const buffer = await this.arrayBuffer();
@@ -1399,13 +1402,14 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                         const headerText = new TextDecoder().decode(headerBytes);
 
                         // Find next boundary for body end
-                        const nextBoundary = findPattern(data, boundaryBytes, headerEnd + 4);
-                        const bodyEnd = nextBoundary !== -1 ? nextBoundary - 2 : data.length; // -2 for CRLF before boundary
+                        const bodyBoundary = findPattern(data, delimiterBytes, headerEnd + 4);
+                        const nextBoundary = bodyBoundary !== -1 ? bodyBoundary + 2 : -1; // +2 for CRLF before boundary
+                        const bodyEnd = bodyBoundary !== -1 ? bodyBoundary : data.length;
 
                         // Extract body as bytes
                         const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
 
-                        const nameMatch = headerText.match(/name="([^"]+)"/);
+                        const nameMatch = headerText.match(/[;\s]name="([^"]*)"/i);
 
                         if (!nameMatch) {
                             pos = nextBoundary;
@@ -1413,7 +1417,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                         }
 
                         const name = nameMatch[1];
-                        const filenameMatch = headerText.match(/filename="([^"]+)"/);
+                        const filenameMatch = headerText.match(/[;\s]filename="([^"]*)"/i);
 
                         if (filenameMatch) {
                             const filename = filenameMatch[1];
-- 
2.43.0


From 6f6c020f545882ad353df0fe02b7bfac2ecc3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 43/86] fix: bodies can be Blobs and any view, and are copied

---
 src/runtime/bindings/web_api.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 3b0cdc8..90c6389 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1006,8 +1006,13 @@ pub fn setup_request(scope: &mut v8::PinScope) {
             _initBody(body) {
                 if (body instanceof ReadableStream) {
                     this.body = body;
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
+                } else if (body instanceof Blob || ArrayBuffer.isView(body) || body instanceof ArrayBuffer) {
+                    // A copy, so that later writes to the source do not change the body
+                    const bytes = new Uint8Array(
+                        body instanceof Blob ? body._getBytes()
+                            : ArrayBuffer.isView(body) ? new Uint8Array(body.buffer, body.byteOffset, body.byteLength)
+                            : new Uint8Array(body)
+                    );
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
@@ -1254,8 +1259,13 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     if (body._nativeStreamId !== undefined) {
                         this._nativeStreamId = body._nativeStreamId;
                     }
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
+                } else if (body instanceof Blob || ArrayBuffer.isView(body) || body instanceof ArrayBuffer) {
+                    // A copy, so that later writes to the source do not change the body
+                    const bytes = new Uint8Array(
+                        body instanceof Blob ? body._getBytes()
+                            : ArrayBuffer.isView(body) ? new Uint8Array(body.buffer, body.byteOffset, body.byteLength)
+                            : new Uint8Array(body)
+                    );
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
-- 
2.43.0


From aba0418a84ecdb6444c7e6e56ebcbde6d0e2cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 44/86] fix: a Response without a body reads as empty

---
 src/runtime/bindings/web_api.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 90c6389..3da95cc 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1295,6 +1295,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return '';
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
@@ -1326,6 +1330,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return new ArrayBuffer(0);
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
-- 
2.43.0


From f6c73e594fc8cb45c0a64097e39c2777a18c7441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 45/86] fix: Response.error has status 0

---
 src/runtime/bindings/web_api.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 3da95cc..26e2224 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1544,9 +1544,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 
             static error() {
                 const response = new Response(null, {
-                    status: 0,
                     type: 'error'
                 });
+                response.status = 0;
+                response.ok = false;
                 return response;
             }
         };
-- 
2.43.0


From a8432d75f6cd7d473fd5864be374c9d836cede23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 46/86] fix: a copy of a Request has its method in upper case

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 26e2224..0a98e3f 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -968,7 +968,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                 if (input instanceof Request) {
                     // Clone from another Request
                     this.url = input.url;
-                    this.method = init.method || input.method;
+                    this.method = (init.method || input.method).toUpperCase();
                     this.headers = new Headers(init.headers || input.headers);
                     // Body handling for clone
                     if (init.body !== undefined) {
-- 
2.43.0


From d4f89aa5066225b165cb42f7fc52dd3cd123e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 47/86] fix: abort reasons can be any value

---
 src/runtime/bindings/web_api.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 0a98e3f..5761275 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -259,7 +259,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
 
             static abort(reason) {
                 const signal = new AbortSignal();
-                signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                signal._abort(reason !== undefined ? reason : new DOMException('Aborted', 'AbortError'));
                 return signal;
             }
 
@@ -278,7 +278,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             abort(reason) {
-                this.signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                this.signal._abort(reason !== undefined ? reason : new DOMException('Aborted', 'AbortError'));
             }
         };
 
-- 
2.43.0


From 22d07076f9bc2f14649cff8c71f2c2fc49f4ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 48/86] fix: abort listeners are called once, not after their
 removal, and can be objects

---
 src/runtime/bindings/web_api.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 5761275..4785c31 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -230,8 +230,8 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             addEventListener(type, listener) {
-                if (type === 'abort') {
-                    this._listeners.push(listener);
+                if (type === 'abort' && listener && !this._listeners.includes(listener)) {
+                    this._listeners = [...this._listeners, listener];
                 }
             }
 
@@ -253,7 +253,12 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
                 this.reason = reason;
                 const event = { type: 'abort', target: this };
                 for (const listener of this._listeners) {
-                    try { listener(event); } catch (e) { console.error(e); }
+                    // An earlier listener may have removed this one
+                    if (!this._listeners.includes(listener)) continue;
+                    try {
+                        if (typeof listener === 'function') listener.call(this, event);
+                        else listener.handleEvent(event);
+                    } catch (e) { console.error(e); }
                 }
             }
 
-- 
2.43.0


From dbf8f22214806b918363cc1f8abc020797e4837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 49/86] fix: AbortSignal.onabort is called

---
 src/runtime/bindings/web_api.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 4785c31..a39fd19 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -226,6 +226,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             constructor() {
                 this.aborted = false;
                 this.reason = undefined;
+                this.onabort = null;
                 this._listeners = [];
             }
 
@@ -252,6 +253,9 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
                 this.aborted = true;
                 this.reason = reason;
                 const event = { type: 'abort', target: this };
+                if (typeof this.onabort === 'function') {
+                    try { this.onabort(event); } catch (e) { console.error(e); }
+                }
                 for (const listener of this._listeners) {
                     // An earlier listener may have removed this one
                     if (!this._listeners.includes(listener)) continue;
-- 
2.43.0


From 86a87e921e14d8bf0974c53eb5cbf70e77cc5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 50/86] fix: a stream that fails with an empty message fails in
 the worker too

---
 src/runtime/bindings/streams.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 9281eb8..4170e7e 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -82,7 +82,7 @@ pub fn setup_stream_ops(
                 async pull(controller) {
                     return new Promise((resolve) => {
                         __nativeStreamRead(streamId, (result) => {
-                            if (result.error) {
+                            if (result.error !== undefined) {
                                 controller.error(new Error(result.error));
                             } else if (result.done) {
                                 controller.close();
-- 
2.43.0


From 60c357dfb597c787d7169ea25683cc46c95351ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 51/86] fix: an operation that cannot take its arguments is
 rejected, and not pending for ever

---
 src/runtime/bindings/fetch.rs | 43 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 044321a..46e7852 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -67,15 +67,16 @@ struct DatabaseParams {
 fn parse_http_request(
     scope: &mut v8::PinScope,
     options: v8::Local<v8::Value>,
-) -> Option<HttpRequest> {
-    let opts: FetchOptions = serde_v8::from_v8_any(scope, options).ok()?;
+) -> Result<HttpRequest, String> {
+    let opts: FetchOptions =
+        serde_v8::from_v8_any(scope, options).map_err(|e| format!("Invalid request: {}", e))?;
     let method = opts.method.parse().unwrap_or(HttpMethod::Get);
     let body = match opts.body {
         Some(buf) => RequestBody::Bytes(bytes::Bytes::from(buf.to_vec())),
         None => RequestBody::None,
     };
 
-    Some(HttpRequest {
+    Ok(HttpRequest {
         url: opts.url,
         method,
         headers: opts.headers,
@@ -83,6 +84,18 @@ fn parse_http_request(
     })
 }
 
+/// Call an error callback with a TypeError, so that the promise behind it is settled
+fn reject_call(scope: &mut v8::PinScope, error_cb: v8::Local<v8::Value>, message: &str) {
+    let Ok(error_fn) = v8::Local::<v8::Function>::try_from(error_cb) else {
+        return;
+    };
+
+    let message = v8::String::new(scope, message).unwrap();
+    let error = v8::Exception::type_error(scope, message);
+    let recv = v8::undefined(scope);
+    error_fn.call(scope, recv.into(), &[error]);
+}
+
 /// Register success callback and return callback ID
 fn register_callback(
     state: &FetchState,
@@ -146,8 +159,9 @@ where
                 return;
             };
 
-            let Some(request) = parse_http_request(scope, args.get(1)) else {
-                return;
+            let request = match parse_http_request(scope, args.get(1)) {
+                Ok(request) => request,
+                Err(e) => return reject_call(scope, args.get(3), &e),
             };
 
             let (success_cb, error_cb) = (args.get(2), args.get(3));
@@ -203,8 +217,9 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Some(request) = parse_http_request(scope, args.get(0)) else {
-                return;
+            let request = match parse_http_request(scope, args.get(0)) {
+                Ok(request) => request,
+                Err(e) => return reject_call(scope, args.get(2), &e),
             };
 
             let resolve_val = args.get(1);
@@ -257,8 +272,11 @@ pub fn setup_fetch(
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) else {
-                return;
+            let params = match serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) {
+                Ok(params) => params,
+                Err(e) => {
+                    return reject_call(scope, args.get(4), &format!("Invalid arguments: {}", e));
+                }
             };
 
             let storage_op = match operation.as_str() {
@@ -324,8 +342,11 @@ pub fn setup_fetch(
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) else {
-                return;
+            let params = match serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) {
+                Ok(params) => params,
+                Err(e) => {
+                    return reject_call(scope, args.get(4), &format!("Invalid arguments: {}", e));
+                }
             };
 
             let kv_op = match operation.as_str() {
-- 
2.43.0


From 898d478a69e4d901b71abe865683c8a27518c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 52/86] fix: fetch takes headers in every form, leaves the
 caller's alone, and sends no other method than asked

---
 src/runtime/bindings/fetch.rs   |  9 ++++++---
 src/runtime/bindings/web_api.rs | 12 +++---------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 46e7852..b76ec60 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -70,7 +70,10 @@ fn parse_http_request(
 ) -> Result<HttpRequest, String> {
     let opts: FetchOptions =
         serde_v8::from_v8_any(scope, options).map_err(|e| format!("Invalid request: {}", e))?;
-    let method = opts.method.parse().unwrap_or(HttpMethod::Get);
+    let method: HttpMethod = opts
+        .method
+        .parse()
+        .map_err(|_| format!("Unsupported method: {}", opts.method))?;
     let body = match opts.body {
         Some(buf) => RequestBody::Bytes(bytes::Bytes::from(buf.to_vec())),
         None => RequestBody::None,
@@ -579,8 +582,8 @@ pub fn setup_fetch(
             }
 
             // Set Content-Type if not already set (FormData or URLSearchParams)
-            if (contentType && !headers['Content-Type'] && !headers['content-type']) {
-                headers['Content-Type'] = contentType;
+            if (contentType && !('content-type' in headers)) {
+                headers['content-type'] = contentType;
             }
 
             // Check for WebSocket upgrade
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index a39fd19..911993c 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1650,16 +1650,10 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 body = options.body !== undefined ? options.body : null;
             }
 
-            // Normalize Headers instance to plain object
-            if (headers instanceof Headers) {
-                const obj = {};
-                for (const [key, value] of headers) {
-                    obj[key] = value;
-                }
-                headers = obj;
-            }
+            // Normalize headers in any form to a plain object of strings
+            headers = Object.fromEntries(new Headers(headers));
 
-            return { url, method, headers, body };
+            return { url, method: String(method).toUpperCase(), headers, body };
         };
     "#;
 
-- 
2.43.0


From 1087bdd407d42c9e0be8059e71680d816ce05f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 53/86] fix: fetch and bindings send a body of any kind, with
 its type, and mark that of a Request as used

---
 src/runtime/bindings/fetch.rs   | 33 ++------------------
 src/runtime/bindings/web_api.rs | 54 ++++++++++++++++++++++++++++++++-
 src/worker.rs                   | 33 ++++++++------------
 3 files changed, 69 insertions(+), 51 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index b76ec60..bb60256 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -552,39 +552,12 @@ pub fn setup_fetch(
         }
 
         globalThis.fetch = async function(input, options) {
-            // Normalize input (handles Request, URL, string)
-            const normalized = __normalizeFetchInput(input, options);
-            let { url, method, headers, body } = normalized;
-            let contentType = null;
-
-            // Handle ReadableStream body - buffer it first (returns Uint8Array)
-            if (body instanceof ReadableStream) {
+            if ((options?.body ?? input?.body) instanceof ReadableStream) {
                 console.warn('[fetch] ReadableStream body detected - buffering entire stream before sending');
-                body = await __bufferBody(body);
-            }
-
-            // Handle FormData body - serialize to multipart/form-data
-            if (body instanceof FormData) {
-                const serialized = await __serializeFormData(body);
-                body = serialized.body;
-                contentType = 'multipart/form-data; boundary=' + serialized.boundary;
-            }
-
-            // Handle URLSearchParams body - serialize to form-encoded string
-            if (body instanceof URLSearchParams) {
-                body = new TextEncoder().encode(body.toString());
-                if (!contentType) contentType = 'application/x-www-form-urlencoded;charset=UTF-8';
-            }
-
-            // Convert string/primitive body to Uint8Array for native consumption
-            if (body !== null && typeof body !== 'object') {
-                body = new TextEncoder().encode(String(body));
             }
 
-            // Set Content-Type if not already set (FormData or URLSearchParams)
-            if (contentType && !('content-type' in headers)) {
-                headers['content-type'] = contentType;
-            }
+            // Normalize input (handles Request, URL, string) and body
+            const { url, method, headers, body } = await __prepareFetch(input, options);
 
             // Check for WebSocket upgrade
             const upgradeKey = Object.keys(headers).find(
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 911993c..0f52731 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1594,7 +1594,7 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
             while (true) {
                 const { done, value } = await reader.read();
                 if (done) break;
-                chunks.push(value);
+                chunks.push(__chunkBytes(value));
             }
 
             // Concatenate all chunks
@@ -1610,6 +1610,58 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
             return result;
         };
 
+        // The bytes of one chunk of a stream
+        globalThis.__chunkBytes = function(chunk) {
+            if (typeof chunk === 'string') {
+                return new TextEncoder().encode(chunk);
+            }
+
+            if (ArrayBuffer.isView(chunk)) {
+                return new Uint8Array(chunk.buffer, chunk.byteOffset, chunk.byteLength);
+            }
+
+            if (chunk instanceof ArrayBuffer) {
+                return new Uint8Array(chunk);
+            }
+
+            throw new TypeError('A chunk of a body must be bytes or a string');
+        };
+
+        // Turn the arguments of a fetch into { url, method, headers, body }, with a body of bytes or null
+        globalThis.__prepareFetch = async function(input, options) {
+            const request = __normalizeFetchInput(input, options);
+            let contentType = null;
+            let body = request.body;
+
+            if (input instanceof Request && body !== null && body === input.body) {
+                input.bodyUsed = true;
+            }
+
+            if (body instanceof ReadableStream) {
+                body = await __bufferBody(body);
+            } else if (body instanceof FormData) {
+                const serialized = await __serializeFormData(body);
+                body = serialized.body;
+                contentType = 'multipart/form-data; boundary=' + serialized.boundary;
+            } else if (body instanceof URLSearchParams) {
+                body = new TextEncoder().encode(body.toString());
+                contentType = 'application/x-www-form-urlencoded;charset=UTF-8';
+            } else if (body instanceof Blob) {
+                contentType = body.type || null;
+                body = body._getBytes();
+            } else if (ArrayBuffer.isView(body) || body instanceof ArrayBuffer) {
+                body = __chunkBytes(body).slice();
+            } else if (body !== null && body !== undefined) {
+                body = new TextEncoder().encode(String(body));
+            }
+
+            if (contentType !== null && !('content-type' in request.headers)) {
+                request.headers['content-type'] = contentType;
+            }
+
+            return { ...request, body };
+        };
+
         // Generic helper for binding calls with Promise wrapper
         // nativeFn: the native binding function to call (bindingName, method, params, resolve, reject)
         // Returns: Promise that resolves with data or rejects with error
diff --git a/src/worker.rs b/src/worker.rs
index 82cef42..dfab3ca 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1175,18 +1175,18 @@ pub(crate) fn setup_env(
                         r#"{name}: {{
                             fetch: function(input, options) {{
                                 return new Promise((resolve, reject) => {{
-                                    const {{ url, method, headers, body }} = __normalizeFetchInput(input, options);
-                                    const fetchOptions = {{ url, method, headers, body }};
-                                    __nativeBindingFetch({name}, fetchOptions, (meta) => {{
-                                        const stream = __createNativeStream(meta.streamId);
-                                        const response = new Response(stream, {{
-                                            status: meta.status,
-                                            headers: meta.headers
-                                        }});
-                                        response.ok = meta.status >= 200 && meta.status < 300;
-                                        response.statusText = meta.statusText;
-                                        resolve(response);
-                                    }}, reject);
+                                    __prepareFetch(input, options).then((fetchOptions) => {{
+                                        __nativeBindingFetch({name}, fetchOptions, (meta) => {{
+                                            const stream = __createNativeStream(meta.streamId);
+                                            const response = new Response(stream, {{
+                                                status: meta.status,
+                                                headers: meta.headers
+                                            }});
+                                            response.ok = meta.status >= 200 && meta.status < 300;
+                                            response.statusText = meta.statusText;
+                                            resolve(response);
+                                        }}, reject);
+                                    }}).catch(reject);
                                 }});
                             }}
                         }}"#,
@@ -1264,14 +1264,7 @@ pub(crate) fn setup_env(
                         r#"{name}: {{
                             fetch: function(input, options) {{
                                 return new Promise((resolve, reject) => {{
-                                    const processRequest = async () => {{
-                                        const normalized = __normalizeFetchInput(input, options);
-                                        // Buffer ReadableStream body for serialization
-                                        normalized.body = await __bufferBody(normalized.body);
-                                        return normalized;
-                                    }};
-
-                                    processRequest().then((fetchOptions) => {{
+                                    __prepareFetch(input, options).then((fetchOptions) => {{
                                         __nativeBindingWorker({name}, fetchOptions, (meta) => {{
                                             const stream = __createNativeStream(meta.streamId);
                                             const response = new Response(stream, {{
-- 
2.43.0


From 8f6cdacb2069ce7c0ce1387cab3aa4f7d8f183e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 54/86] fix: fetch refuses a Request whose body was used, and
 does not send an empty one

---
 src/runtime/bindings/web_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 0f52731..8f2c2d2 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1683,10 +1683,10 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 // Body: options.body overrides, otherwise use request body if not consumed
                 if (options.body !== undefined) {
                     body = options.body;
-                } else if (input.body && !input.bodyUsed) {
-                    body = input.body;
+                } else if (input.body && input.bodyUsed) {
+                    throw new TypeError('Body has already been consumed');
                 } else {
-                    body = null;
+                    body = input.body;
                 }
             } else if (input instanceof URL) {
                 // URL object - convert to string
-- 
2.43.0


From 533ee70264136b1700d13be3ba6c7940659760f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 55/86] fix: names in a form that is sent cannot end their
 header

---
 src/runtime/bindings/fetch.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index bb60256..cffe00c 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -512,14 +512,15 @@ pub fn setup_fetch(
         async function __serializeFormData(formData) {
             const boundary = '----OpenWorkersBoundary' + Math.random().toString(36).slice(2);
             const CRLF = '\r\n';
+            const escape = (name) => name.replace(/\r\n|\r|\n/g, '%0D%0A').replace(/"/g, '%22');
             const parts = [];
 
-            for (const [name, value, filename] of formData._entries) {
+            for (const [name, value] of formData._entries) {
                 let part = '--' + boundary + CRLF;
 
                 if (value instanceof Blob) {
-                    const fname = filename || (value.name ? value.name : 'blob');
-                    part += 'Content-Disposition: form-data; name="' + name + '"; filename="' + fname + '"' + CRLF;
+                    const fname = value.name;
+                    part += 'Content-Disposition: form-data; name="' + escape(name) + '"; filename="' + escape(fname) + '"' + CRLF;
                     part += 'Content-Type: ' + (value.type || 'application/octet-stream') + CRLF + CRLF;
 
                     const headerBytes = new TextEncoder().encode(part);
@@ -530,7 +531,7 @@ pub fn setup_fetch(
                     parts.push(blobBytes);
                     parts.push(crlfBytes);
                 } else {
-                    part += 'Content-Disposition: form-data; name="' + name + '"' + CRLF + CRLF;
+                    part += 'Content-Disposition: form-data; name="' + escape(name) + '"' + CRLF + CRLF;
                     part += String(value) + CRLF;
                     parts.push(new TextEncoder().encode(part));
                 }
-- 
2.43.0


From 700d60e6ebeda07b988cad8e5806a154264d7791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 56/86] fix: cyclic or deeply nested values given to KV and
 databases no longer end the process

---
 src/runtime/bindings/fetch.rs | 49 +++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index cffe00c..f325ffc 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -99,6 +99,43 @@ fn reject_call(scope: &mut v8::PinScope, error_cb: v8::Local<v8::Value>, message
     error_fn.call(scope, recv.into(), &[error]);
 }
 
+/// Deepest nesting of a value that is handed over to an operation
+const MAX_NESTING: usize = 128;
+
+/// Copy a value as plain JSON data, which has no cycles, getters or proxies and is not nested
+/// too deeply: conversion to Rust values is recursive, and would run out of stack
+///
+/// Returns None if an exception was thrown (cycles, getters)
+fn plain_json<'s>(
+    scope: &mut v8::PinScope<'s, '_>,
+    value: v8::Local<v8::Value>,
+) -> Option<v8::Local<'s, v8::Value>> {
+    let json = v8::json::stringify(scope, value)?;
+    let mut nesting = 0usize;
+    let mut in_string = false;
+    let mut escaped = false;
+
+    for byte in json.to_rust_string_lossy(scope).bytes() {
+        match byte {
+            _ if escaped => escaped = false,
+            b'\\' if in_string => escaped = true,
+            b'"' => in_string = !in_string,
+            b'[' | b'{' if !in_string => nesting += 1,
+            b']' | b'}' if !in_string => nesting -= 1,
+            _ => {}
+        }
+
+        if nesting > MAX_NESTING {
+            let message = v8::String::new(scope, "The value is nested too deeply").unwrap();
+            let error = v8::Exception::range_error(scope, message);
+            scope.throw_exception(error);
+            return None;
+        }
+    }
+
+    v8::json::parse(scope, json)
+}
+
 /// Register success callback and return callback ID
 fn register_callback(
     state: &FetchState,
@@ -345,7 +382,11 @@ pub fn setup_fetch(
                 return;
             };
 
-            let params = match serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) {
+            let Some(params) = plain_json(scope, args.get(2)) else {
+                return;
+            };
+
+            let params = match serde_v8::from_v8_any::<KvParams>(scope, params) {
                 Ok(params) => params,
                 Err(e) => {
                     return reject_call(scope, args.get(4), &format!("Invalid arguments: {}", e));
@@ -451,7 +492,11 @@ pub fn setup_fetch(
                 }
             };
 
-            let params = match serde_v8::from_v8_any::<DatabaseParams>(scope, args.get(2)) {
+            let Some(params) = plain_json(scope, args.get(2)) else {
+                return;
+            };
+
+            let params = match serde_v8::from_v8_any::<DatabaseParams>(scope, params) {
                 Ok(p) => p,
                 Err(e) => {
                     let msg = format!("Failed to parse params: {}", e);
-- 
2.43.0


From 807a8217e9c75f5dcf92edfd35001983ac0f2e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 57/86] fix: a request header named __proto__ is not lost

---
 src/execution_helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 5f522b7..56d8d49 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -289,7 +289,7 @@ pub fn trigger_fetch_handler(
         for (key, value) in headers {
             let k = v8::String::new(scope, key).unwrap();
             let v = v8::String::new(scope, value).unwrap();
-            headers_obj.set(scope, k.into(), v.into());
+            headers_obj.create_data_property(scope, k.into(), v.into());
         }
 
         let headers_key = v8::String::new(scope, "headers").unwrap();
@@ -335,7 +335,7 @@ pub fn trigger_fetch_handler(
         for (key, value) in headers {
             let k = v8::String::new(scope, key).unwrap();
             let v = v8::String::new(scope, value).unwrap();
-            headers_obj.set(scope, k.into(), v.into());
+            headers_obj.create_data_property(scope, k.into(), v.into());
         }
 
         let headers_key = v8::String::new(scope, "headers").unwrap();
-- 
2.43.0


From fba883b27a575ef2fd840db44f36c351ee8f589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 58/86] fix: a Response that was cloned still has its body when
 it is returned

---
 src/runtime/bindings/web_api.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 8f2c2d2..7346c1f 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1512,6 +1512,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 if (this.body) {
                     const [stream1, stream2] = this.body.tee();
                     this.body = stream1;
+                    this._isBuffered = false; // The data is in the other stream now
                     clonedBody = stream2;
                 }
 
-- 
2.43.0


From 12911e9ea65efc9aebdf47f95c615aaabf78fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 59/86] fix: the rest of a fetched body that was read in part
 can be returned

---
 src/runtime/bindings/streams.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 4170e7e..ba84084 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -80,6 +80,8 @@ pub fn setup_stream_ops(
         globalThis.__createNativeStream = function(streamId) {
             const stream = new ReadableStream({
                 async pull(controller) {
+                    // What is read here cannot be forwarded directly any more
+                    stream._nativeStreamId = undefined;
                     return new Promise((resolve) => {
                         __nativeStreamRead(streamId, (result) => {
                             if (result.error !== undefined) {
@@ -94,6 +96,7 @@ pub fn setup_stream_ops(
                     });
                 },
                 cancel(reason) {
+                    stream._nativeStreamId = undefined;
                     __nativeStreamCancel(streamId);
                 }
             });
-- 
2.43.0


From c76871a742cb5bdc0eddd5d87723b8ea4d170182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 60/86] fix: a response stream that fails is not ended as if it
 were whole, and its end is not lost

---
 src/runtime/bindings/streams.rs | 20 ++++++++++++++------
 src/worker.rs                   |  8 +++++++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index ba84084..9f6f34d 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -137,13 +137,21 @@ fn response_stream_write(
         .is_ok()
 }
 
-/// End a response stream
+/// End a response stream, as failed if there is an error - returns false if full
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
-fn response_stream_end(scope: &mut v8::PinScope, state: &Rc<ResponseStreamState>, stream_id: u64) {
-    let _ = scope;
-    let _ = state
-        .manager
-        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done);
+fn response_stream_end(
+    scope: &mut v8::PinScope,
+    state: &Rc<ResponseStreamState>,
+    stream_id: u64,
+    error: v8::Local<v8::Value>,
+) -> bool {
+    let end = if error.is_undefined() {
+        stream_manager::StreamChunk::Done
+    } else {
+        stream_manager::StreamChunk::Error(error.to_rust_string_lossy(scope))
+    };
+
+    state.manager.try_write_chunk(stream_id, end).is_ok() || !state.manager.has_sender(stream_id)
 }
 
 /// Check if a response stream is closed
diff --git a/src/worker.rs b/src/worker.rs
index dfab3ca..cfa94c0 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1386,6 +1386,7 @@ pub(crate) fn setup_event_listener(
             (async () => {
                 let reader = null;
                 let cancelled = false;
+                let failure = undefined;
 
                 try {
                     reader = response.body.getReader();
@@ -1416,6 +1417,7 @@ pub(crate) fn setup_event_listener(
                     }
                 } catch (error) {
                     console.error('[streamResponseBody] Error:', error);
+                    failure = String(error?.message ?? error);
                 } finally {
                     // Cancel the reader to trigger the source's cancel() callback
                     if (reader && cancelled) {
@@ -1426,7 +1428,11 @@ pub(crate) fn setup_event_listener(
                         }
                     }
 
-                    __responseStreamEnd(streamId);
+                    // The end needs room too
+                    while (!__responseStreamEnd(streamId, failure)) {
+                        await new Promise(resolve => setTimeout(resolve, 1));
+                    }
+
                     // Decrement counter when stream is fully consumed
                     globalThis.__activeResponseStreams--;
                 }
-- 
2.43.0


From a2ba31d1e35263def16738d566c05f775b35fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 61/86] fix: chunks of a response stream can be DataViews and
 ArrayBuffers

---
 src/worker.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index cfa94c0..12159b2 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1378,6 +1378,10 @@ pub(crate) fn setup_event_listener(
                     return new Uint8Array(value.buffer, value.byteOffset, value.byteLength);
                 }
 
+                if (value instanceof ArrayBuffer) {
+                    return new Uint8Array(value);
+                }
+
                 // Fallback: convert to string then encode
                 return encoder.encode(String(value));
             }
@@ -1396,9 +1400,9 @@ pub(crate) fn setup_event_listener(
 
                         if (done) break;
 
-                        if (value && value.length > 0) {
-                            const chunk = toUint8Array(value);
+                        const chunk = toUint8Array(value ?? '');
 
+                        if (chunk.length > 0) {
                             // Try to write, with backpressure handling
                             while (!__responseStreamWrite(streamId, chunk)) {
                                 // Check if stream was closed (client disconnected)
-- 
2.43.0


From 416de22ce7fed81a0dc0f834b3c39dfef2dc3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 62/86] fix: a forwarded body is not cut off when the handler
 is done

---
 src/execution_helpers.rs |  5 +++--
 src/worker.rs            | 19 +++++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 56d8d49..4cfca44 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -428,7 +428,6 @@ pub fn read_response_object(
                             match chunk {
                                 Some(StreamChunk::Data(bytes)) => {
                                     if tx.send(Ok(bytes)).await.is_err() {
-                                        stream_manager.close_stream(stream_id);
                                         break;
                                     }
                                 }
@@ -440,17 +439,19 @@ pub fn read_response_object(
                                     break;
                                 }
                                 None => {
+                                    let _ = tx.send(Err("Stream closed unexpectedly".to_string())).await;
                                     break;
                                 }
                             }
                         }
 
                         _ = tx.closed() => {
-                            stream_manager.close_stream(stream_id);
                             break;
                         }
                     }
                 }
+
+                stream_manager.close_stream(stream_id);
             });
 
             ResponseBody::Stream(rx)
diff --git a/src/worker.rs b/src/worker.rs
index 12159b2..e7c2171 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1331,11 +1331,22 @@ pub(crate) fn setup_event_listener(
                 return response;
             }
 
-            // If it's a native stream (fetch forward), just mark it
-            // Native streams are managed by Rust, no need to track here
+            // If it's a native stream (fetch forward), mark it: Rust forwards it,
+            // and the worker must only stay alive until it is closed
             if (response.body._nativeStreamId !== undefined) {
-                response._responseStreamId = response.body._nativeStreamId;
-                globalThis.__lastResponseStreamId = response.body._nativeStreamId;
+                const nativeId = response.body._nativeStreamId;
+                response._responseStreamId = nativeId;
+                globalThis.__lastResponseStreamId = nativeId;
+                globalThis.__activeResponseStreams++;
+
+                (async () => {
+                    while (!__responseStreamIsClosed(nativeId)) {
+                        await new Promise(resolve => setTimeout(resolve, 1));
+                    }
+
+                    globalThis.__activeResponseStreams--;
+                })();
+
                 return response;
             }
 
-- 
2.43.0


From 2fa3f8ce786e095205f1d487193c63458d4c423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 63/86] fix: exec returns at the wall-clock limit, even if
 nothing else happens

---
 src/execution_context.rs | 17 ++++++++++-------
 src/execution_helpers.rs | 33 +++++++++++++++++++++++++++++++++
 src/worker.rs            | 10 ++++++----
 3 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0140b38..03cce88 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -19,7 +19,7 @@ use crate::LockerManagedIsolate;
 use crate::async_waiter::AsyncWaiter;
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    read_response_object, signal_client_disconnect, trigger_fetch_handler, with_wall_clock,
 };
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
@@ -857,19 +857,21 @@ impl ExecutionContext {
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
         // Execute the task
+        let wall_limit_ms = self.limits.max_wall_clock_time_ms;
         let result = match task {
             Event::Fetch(ref mut init) => {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
                 ))?;
-                self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard)
-                    .await
+                let work = self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard);
+                with_wall_clock(work, &wall_guard, wall_limit_ms).await
             }
             Event::Task(ref mut init) => {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                self.trigger_task_event(task_init, &wall_guard, &cpu_guard)
+                let work = self.trigger_task_event(task_init, &wall_guard, &cpu_guard);
+                with_wall_clock(work, &wall_guard, wall_limit_ms)
                     .await
                     .map(|_| HttpResponse {
                         status: 200,
@@ -907,9 +909,10 @@ impl ExecutionContext {
             TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
-        let result = self
-            .await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None)
-            .await;
+        let wall_limit_ms = self.limits.max_wall_clock_time_ms;
+        let work =
+            self.await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None);
+        let result = with_wall_clock(work, &wall_guard, wall_limit_ms).await;
 
         self.check_termination_reason(
             result.map(|_| HttpResponse {
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 4cfca44..eed0ad8 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -4,6 +4,7 @@
 //! ExecutionContext for task execution, event loop management, and response handling.
 
 use crate::runtime::stream_manager::{StreamChunk, StreamManager};
+use crate::security::TimeoutGuard;
 use openworkers_core::{HttpResponse, RequestBody, ResponseBody};
 use std::collections::HashMap;
 use std::sync::Arc;
@@ -48,6 +49,38 @@ impl Default for AbortConfig {
     }
 }
 
+/// Polls `work` once more when the wall-clock limit has been reached.
+///
+/// The watchdog of the guard terminates V8, but nothing else may wake up a task
+/// that waits for callbacks.
+pub async fn with_wall_clock<F: Future>(
+    work: F,
+    wall_guard: &TimeoutGuard,
+    limit_ms: u64,
+) -> F::Output {
+    let mut work = std::pin::pin!(work);
+    let mut expired = std::pin::pin!(async {
+        tokio::time::sleep(tokio::time::Duration::from_millis(limit_ms)).await;
+
+        while !wall_guard.was_triggered() {
+            tokio::time::sleep(tokio::time::Duration::from_millis(1)).await;
+        }
+    });
+    let mut done = limit_ms == 0;
+
+    std::future::poll_fn(|cx| {
+        let result = work.as_mut().poll(cx);
+
+        if result.is_pending() && !done && expired.as_mut().poll(cx).is_ready() {
+            done = true;
+            return work.as_mut().poll(cx);
+        }
+
+        result
+    })
+    .await
+}
+
 /// Check if the specified exit condition is met (free function to avoid borrow conflicts)
 pub fn check_exit_condition(
     scope: &mut v8::ContextScope<v8::HandleScope>,
diff --git a/src/worker.rs b/src/worker.rs
index e7c2171..5ee2b66 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -2,7 +2,7 @@
 
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    read_response_object, signal_client_disconnect, trigger_fetch_handler, with_wall_clock,
 };
 use crate::runtime::{Runtime, run_event_loop};
 use crate::security::{CpuEnforcer, TimeoutGuard};
@@ -632,19 +632,21 @@ impl Worker {
         let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
 
         // Execute the task
+        let wall_limit_ms = self.runtime.limits.max_wall_clock_time_ms;
         let result = match task {
             Event::Fetch(ref mut init) => {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
                 ))?;
-                self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard)
-                    .await
+                let work = self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard);
+                with_wall_clock(work, &wall_guard, wall_limit_ms).await
             }
             Event::Task(ref mut init) => {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                self.trigger_task_event(task_init, &wall_guard, &cpu_guard)
+                let work = self.trigger_task_event(task_init, &wall_guard, &cpu_guard);
+                with_wall_clock(work, &wall_guard, wall_limit_ms)
                     .await
                     .map(|_| HttpResponse {
                         status: 200,
-- 
2.43.0


From 3b14db21e2690b88ecc4dcd848e8dcfdccb70dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 64/86] fix: exec returns when a callback was terminated

---
 src/execution_context.rs | 7 +++++++
 src/worker.rs            | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 03cce88..585f847 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1083,12 +1083,19 @@ impl ExecutionContext {
                 // during processing (e.g., promise chains, microtasks)
             }
 
+            // A callback may have been terminated: nothing would wake us up after it
+            let terminated = self.is_terminated(wall_guard, cpu_guard);
+
             // 6. Not done yet — release fair queue and V8 lock.
             //    V8 mutex released, other requests can run on this isolate.
             if let Some(ref waiter) = async_waiter {
                 waiter.unlock();
             }
 
+            if terminated {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+
             Poll::Pending
         })
         .await
diff --git a/src/worker.rs b/src/worker.rs
index 5ee2b66..9d17681 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -816,6 +816,11 @@ impl Worker {
                 }
             }
 
+            // A callback may have been terminated: nothing would wake us up after it
+            if self.is_terminated(wall_guard, cpu_guard) {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+
             // 6. Not done yet - waker registered via poll_recv
             Poll::Pending
         })
-- 
2.43.0


From 58fa91093d8226e3c28e2579ebc6d0c1d733b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 65/86] fix: a client that leaves is noticed while the source
 of the body waits

---
 src/execution_context.rs      | 10 ++++++--
 src/execution_helpers.rs      | 47 +++++++++++++++++++++++++++++++++++
 src/runtime/stream_manager.rs | 11 +++++++-
 src/worker.rs                 | 29 ++++++++++++---------
 4 files changed, 82 insertions(+), 15 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 585f847..ceac240 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -18,8 +18,9 @@ use v8;
 use crate::LockerManagedIsolate;
 use crate::async_waiter::AsyncWaiter;
 use crate::execution_helpers::{
-    AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler, with_wall_clock,
+    AbortConfig, DisconnectWaker, EventLoopExit, check_exit_condition, get_completion_state,
+    get_response_stream_id, read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    with_wall_clock,
 };
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
@@ -1014,8 +1015,11 @@ impl ExecutionContext {
         let mut pending_callbacks: Vec<crate::runtime::CallbackMessage> = Vec::with_capacity(16);
         let lmi_ptr = self.lmi_ptr; // Copy raw pointer (no persistent borrow on self)
         let async_waiter = self.async_waiter.clone(); // Clone Rc (cheap) to avoid borrow on self
+        let mut waker = DisconnectWaker::new(&self.request.stream_manager);
 
         std::future::poll_fn(|cx| {
+            waker.poll_closed(cx);
+
             // -- Fair queue gate (if multiplexing enabled) --
             // When multiple requests share an isolate, only one can hold the
             // V8 Locker at a time. Others wait in FIFO order.
@@ -1083,6 +1087,8 @@ impl ExecutionContext {
                 // during processing (e.g., promise chains, microtasks)
             }
 
+            waker.poll_grace(cx, &abort_config, abort_signaled_at);
+
             // A callback may have been terminated: nothing would wake us up after it
             let terminated = self.is_terminated(wall_guard, cpu_guard);
 
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index eed0ad8..0f630cb 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -7,7 +7,12 @@ use crate::runtime::stream_manager::{StreamChunk, StreamManager};
 use crate::security::TimeoutGuard;
 use openworkers_core::{HttpResponse, RequestBody, ResponseBody};
 use std::collections::HashMap;
+use std::pin::Pin;
 use std::sync::Arc;
+use std::task::Context;
+use tokio::sync::Notify;
+use tokio::sync::futures::OwnedNotified;
+use tokio::time::{Duration, Instant, Sleep, sleep_until};
 use v8;
 
 /// Condition to check for exiting the event loop
@@ -81,6 +86,48 @@ pub async fn with_wall_clock<F: Future>(
     .await
 }
 
+/// Wakes the event loop up for a client that is gone, and at the end of its grace period.
+pub struct DisconnectWaker {
+    closed: Arc<Notify>,
+    notified: Pin<Box<OwnedNotified>>,
+    grace: Option<Pin<Box<Sleep>>>,
+}
+
+impl DisconnectWaker {
+    pub fn new(stream_manager: &StreamManager) -> Self {
+        let closed = stream_manager.closed();
+
+        Self {
+            notified: Box::pin(closed.clone().notified_owned()),
+            closed,
+            grace: None,
+        }
+    }
+
+    /// Register for the next closed stream. Call it before streams are checked.
+    pub fn poll_closed(&mut self, cx: &mut Context<'_>) {
+        while self.notified.as_mut().poll(cx).is_ready() {
+            self.notified = Box::pin(self.closed.clone().notified_owned());
+        }
+    }
+
+    /// Register for the end of the grace period.
+    pub fn poll_grace(
+        &mut self,
+        cx: &mut Context<'_>,
+        config: &Option<AbortConfig>,
+        abort_signaled_at: Option<Instant>,
+    ) {
+        if let Some(config) = config
+            && let Some(at) = abort_signaled_at
+        {
+            let end = at + config.grace_period + Duration::from_millis(1);
+            let grace = self.grace.get_or_insert_with(|| Box::pin(sleep_until(end)));
+            let _ = grace.as_mut().poll(cx);
+        }
+    }
+}
+
 /// Check if the specified exit condition is met (free function to avoid borrow conflicts)
 pub fn check_exit_condition(
     scope: &mut v8::ContextScope<v8::HandleScope>,
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 5ced4f5..ae89e10 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -1,7 +1,7 @@
 use bytes::Bytes;
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
-use tokio::sync::mpsc;
+use tokio::sync::{Notify, mpsc};
 
 pub type StreamId = u64;
 
@@ -35,6 +35,8 @@ pub struct StreamManager {
     next_id: Arc<Mutex<StreamId>>,
     /// High water mark for new streams
     high_water_mark: usize,
+    /// Notified when a stream is closed
+    closed: Arc<Notify>,
 }
 
 impl StreamManager {
@@ -50,9 +52,15 @@ impl StreamManager {
             metadata: Arc::new(Mutex::new(HashMap::new())),
             next_id: Arc::new(Mutex::new(1)),
             high_water_mark,
+            closed: Arc::new(Notify::new()),
         }
     }
 
+    /// Notified when a stream is closed, as when its consumer is gone
+    pub fn closed(&self) -> Arc<Notify> {
+        self.closed.clone()
+    }
+
     /// Create a new stream and return its ID
     /// The receiver is stored internally and can be read via `read_chunk`
     /// Uses bounded channel with high_water_mark capacity for backpressure
@@ -167,6 +175,7 @@ impl StreamManager {
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
         self.metadata.lock().unwrap().remove(&stream_id);
+        self.closed.notify_one();
     }
 
     /// Get information about a stream (for debugging)
diff --git a/src/worker.rs b/src/worker.rs
index 9d17681..563827f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1,8 +1,9 @@
 //! Per-request isolate execution. Creates a new V8 isolate for each request.
 
 use crate::execution_helpers::{
-    AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler, with_wall_clock,
+    AbortConfig, DisconnectWaker, EventLoopExit, check_exit_condition, get_completion_state,
+    get_response_stream_id, read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    with_wall_clock,
 };
 use crate::runtime::{Runtime, run_event_loop};
 use crate::security::{CpuEnforcer, TimeoutGuard};
@@ -750,8 +751,11 @@ impl Worker {
 
         let mut abort_signaled_at: Option<tokio::time::Instant> = None;
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
+        let mut waker = DisconnectWaker::new(&self.runtime.stream_manager);
 
         std::future::poll_fn(|cx| {
+            waker.poll_closed(cx);
+
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
@@ -816,6 +820,8 @@ impl Worker {
                 }
             }
 
+            waker.poll_grace(cx, &abort_config, abort_signaled_at);
+
             // A callback may have been terminated: nothing would wake us up after it
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
@@ -1324,6 +1330,7 @@ pub(crate) fn setup_event_listener(
         // Called from Rust when consumer disconnects
         globalThis.__signalClientDisconnect = function() {
             const resp = globalThis.__lastResponse;
+            resp?._cancelBody?.();
             if (resp?.body?._controller?._abortController) {
                 const ctrl = resp.body._controller;
                 if (!ctrl.signal.aborted) {
@@ -1407,12 +1414,17 @@ pub(crate) fn setup_event_listener(
             // Read and forward asynchronously
             (async () => {
                 let reader = null;
-                let cancelled = false;
+                let cancelled = null;
                 let failure = undefined;
 
                 try {
                     reader = response.body.getReader();
 
+                    // Ends a read that waits too
+                    response._cancelBody = () => {
+                        cancelled ??= reader.cancel('Client disconnected').catch(() => {});
+                    };
+
                     while (true) {
                         const { value, done } = await reader.read();
 
@@ -1426,7 +1438,7 @@ pub(crate) fn setup_event_listener(
                                 // Check if stream was closed (client disconnected)
                                 if (__responseStreamIsClosed(streamId)) {
                                     console.log('[streamResponseBody] Client disconnected, cancelling stream');
-                                    cancelled = true;
+                                    response._cancelBody();
                                     break;
                                 }
 
@@ -1441,14 +1453,7 @@ pub(crate) fn setup_event_listener(
                     console.error('[streamResponseBody] Error:', error);
                     failure = String(error?.message ?? error);
                 } finally {
-                    // Cancel the reader to trigger the source's cancel() callback
-                    if (reader && cancelled) {
-                        try {
-                            await reader.cancel('Client disconnected');
-                        } catch (e) {
-                            // Ignore cancel errors
-                        }
-                    }
+                    await cancelled;
 
                     // The end needs room too
                     while (!__responseStreamEnd(streamId, failure)) {
-- 
2.43.0


From ac3682c4572b7e89e3a852cdf88a27c89e32d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 66/86] fix: a body whose request was cancelled is not ended as
 if it were whole

---
 src/runtime/scheduler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index b682cbe..eb84c5e 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -467,7 +467,7 @@ fn spawn_stream_reader(
         loop {
             let chunk = tokio::select! {
                 biased;
-                _ = cancel.cancelled() => break,
+                _ = cancel.cancelled() => Some(Err("Request cancelled".to_string())),
                 r = rx.recv() => r,
             };
 
-- 
2.43.0


From 20159677f1a572ffe0882aada43254ee75c37556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 67/86] fix: the client of a worker that was ended does not
 wait for the rest for ever

---
 src/runtime/scheduler.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index eb84c5e..99421a9 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -125,6 +125,15 @@ fn create_timer(id: CallbackId, delay_ms: u64, is_interval: bool) -> Timer {
     }
 }
 
+/// Ends the streams of a worker with its event loop: what is not whole by then never will be.
+struct ClearOnDrop(Arc<StreamManager>);
+
+impl Drop for ClearOnDrop {
+    fn drop(&mut self) {
+        self.0.clear();
+    }
+}
+
 pub async fn run_event_loop(
     mut scheduler_rx: mpsc::UnboundedReceiver<SchedulerMessage>,
     callback_tx: mpsc::UnboundedSender<CallbackMessage>,
@@ -134,6 +143,7 @@ pub async fn run_event_loop(
     cancel: CancellationToken,
 ) {
     let callback_tx = CallbackSender::new(callback_tx, callback_notify);
+    let _streams = ClearOnDrop(stream_manager.clone());
 
     let mut timers: FuturesUnordered<Timer> = FuturesUnordered::new();
     let mut cancelled: HashSet<CallbackId> = HashSet::new();
-- 
2.43.0


From f4b14735bfe21ffde31a51cd5e3bffc5d393e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 68/86] fix: console methods do not throw, whatever they are
 given

---
 src/runtime/bindings/console.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/runtime/bindings/console.rs b/src/runtime/bindings/console.rs
index 5ce6798..eeb9798 100644
--- a/src/runtime/bindings/console.rs
+++ b/src/runtime/bindings/console.rs
@@ -57,19 +57,24 @@ pub fn setup_console(scope: &mut v8::PinScope, log_callback: LogCallback) {
         scope,
         r#"
         function __formatArg(a) {
-            if (a instanceof Error) {
-                return a.stack || (a.name + ': ' + a.message);
-            }
+            try {
+                if (a instanceof Error) {
+                    return String(a.stack || (a.name + ': ' + a.message));
+                }
 
-            if (typeof a === 'object' && a !== null) {
-                try {
-                    return JSON.stringify(a);
-                } catch (e) {
-                    return String(a);
+                if (typeof a === 'object' && a !== null) {
+                    try {
+                        return JSON.stringify(a) ?? String(a);
+                    } catch (e) {
+                        return String(a);
+                    }
                 }
-            }
 
-            return String(a);
+                return String(a);
+            } catch (e) {
+                // Logging a value never throws
+                return '[' + typeof a + ']';
+            }
         }
 
         globalThis.console = {
-- 
2.43.0


From 068fb4b54fbbb00f401a9e6893d87802a8e105ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 69/86] fix: a request is answered whatever its handler throws
 or gives

---
 src/worker.rs | 60 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 563827f..1adaa75 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1339,8 +1339,25 @@ pub(crate) fn setup_event_listener(
             }
         };
 
+        // What an error says, whatever was thrown
+        function __errorText(error) {
+            try {
+                return String(error?.message || error);
+            } catch {
+                return 'Unknown error';
+            }
+        }
+
         // Stream response body to Rust (only for true streaming responses)
         async function __streamResponseBody(response) {
+            if (!(response instanceof Response)) {
+                throw new TypeError('The handler gave no Response');
+            }
+
+            if (response.bodyUsed || response.body?.locked) {
+                throw new TypeError('The body of the Response is already used');
+            }
+
             if (!response.body) {
                 return response;
             }
@@ -1483,25 +1500,18 @@ pub(crate) fn setup_event_listener(
                         },
                         respondWith: function(responseOrPromise) {
                             // Handle both direct Response and Promise<Response>
-                            if (responseOrPromise && typeof responseOrPromise.then === 'function') {
-                                responsePromise = responseOrPromise
-                                    .then(response => __streamResponseBody(response))
-                                    .then(response => {
-                                        globalThis.__lastResponse = response;
-                                    })
-                                    .catch(error => {
-                                        console.error('[respondWith] Promise rejected:', error);
-                                        globalThis.__lastResponse = new Response(
-                                            'Promise rejected: ' + (error.message || error),
-                                            { status: 500 }
-                                        );
-                                    });
-                            } else {
-                                responsePromise = __streamResponseBody(responseOrPromise)
-                                    .then(response => {
-                                        globalThis.__lastResponse = response;
-                                    });
-                            }
+                            responsePromise = Promise.resolve(responseOrPromise)
+                                .then(response => __streamResponseBody(response))
+                                .then(response => {
+                                    globalThis.__lastResponse = response;
+                                })
+                                .catch(error => {
+                                    console.error('[respondWith] Promise rejected:', error);
+                                    globalThis.__lastResponse = new Response(
+                                        'Promise rejected: ' + __errorText(error),
+                                        { status: 500 }
+                                    );
+                                });
                         }
                     };
 
@@ -1521,7 +1531,7 @@ pub(crate) fn setup_event_listener(
                                     });
                             } else if (!responsePromise && result && typeof result.then === 'function') {
                                 // Handler returned a Promise - could be Promise<Response>
-                                responsePromise = result
+                                responsePromise = Promise.resolve(result)
                                     .then(response => {
                                         if (response instanceof Response) {
                                             return __streamResponseBody(response)
@@ -1533,7 +1543,7 @@ pub(crate) fn setup_event_listener(
                                     .catch(error => {
                                         console.error('[addEventListener] Handler promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Handler promise rejected: ' + (error.message || error),
+                                            'Handler promise rejected: ' + __errorText(error),
                                             { status: 500 }
                                         );
                                     });
@@ -1553,7 +1563,7 @@ pub(crate) fn setup_event_listener(
                             // Only set a 500 response if no response was already produced.
                             // A rejected waitUntil promise must NOT overwrite a valid response.
                             if (!globalThis.__lastResponse) {
-                                globalThis.__lastResponse = new Response('Handler exception: ' + (error.message || error), { status: 500 });
+                                globalThis.__lastResponse = new Response('Handler exception: ' + __errorText(error), { status: 500 });
                             }
                         } finally {
                             globalThis.__requestComplete = true;
@@ -1628,7 +1638,7 @@ pub(crate) fn setup_event_listener(
                         console.error('[task] Handler error:', error);
                         globalThis.__taskResult = {
                             success: false,
-                            error: error.message || String(error)
+                            error: __errorText(error)
                         };
                     } finally {
                         globalThis.__requestComplete = true;
@@ -1687,7 +1697,7 @@ pub(crate) fn setup_es_modules_handler(
                         console.error('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
                             globalThis.__lastResponse = new Response(
-                                'Handler exception: ' + (error.message || error),
+                                'Handler exception: ' + __errorText(error),
                                 { status: 500 }
                             );
                         }
@@ -1793,7 +1803,7 @@ pub(crate) fn setup_es_modules_handler(
                 } catch (e) {
                     globalThis.__taskResult = {
                         success: false,
-                        error: e.message || String(e)
+                        error: __errorText(e)
                     };
                 } finally {
                     globalThis.__requestComplete = true;
-- 
2.43.0


From 02c6e4ff59543fa4b6c54843a3257be354911244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 70/86] fix: waitUntil waits for everything it was given, and
 tasks report failures of every handler

---
 src/worker.rs | 121 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 86 insertions(+), 35 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 1adaa75..b3911d8 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1348,6 +1348,23 @@ pub(crate) fn setup_event_listener(
             }
         }
 
+        // Wait for everything given to waitUntil, also while waiting, whatever fails
+        async function __settleAll(promises) {
+            const failed = [];
+
+            for (let i = 0; i < promises.length; i++) {
+                try {
+                    await promises[i];
+                } catch (error) {
+                    failed.push(error);
+                }
+            }
+
+            if (failed.length > 0) {
+                throw failed[0];
+            }
+        }
+
         // Stream response body to Rust (only for true streaming responses)
         async function __streamResponseBody(response) {
             if (!(response instanceof Response)) {
@@ -1554,17 +1571,20 @@ pub(crate) fn setup_event_listener(
                                 await responsePromise;
                             }
 
-                            // Then wait for all waitUntil promises to complete
-                            if (waitUntilPromises.length > 0) {
-                                await Promise.all(waitUntilPromises);
-                            }
                         } catch (error) {
                             console.error('[addEventListener] Error in fetch handler:', error);
                             // Only set a 500 response if no response was already produced.
-                            // A rejected waitUntil promise must NOT overwrite a valid response.
                             if (!globalThis.__lastResponse) {
                                 globalThis.__lastResponse = new Response('Handler exception: ' + __errorText(error), { status: 500 });
                             }
+                        }
+
+                        try {
+                            // Then wait for all waitUntil promises to complete
+                            await __settleAll(waitUntilPromises);
+                        } catch (error) {
+                            // A rejected waitUntil promise must NOT overwrite a valid response.
+                            console.error('[addEventListener] Error in waitUntil:', error);
                         } finally {
                             globalThis.__requestComplete = true;
                         }
@@ -1580,12 +1600,15 @@ pub(crate) fn setup_event_listener(
                     };
 
                     try {
-                        await handler(event);
-
-                        // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
+                        // Wait for the handler and all waitUntil promises to complete
+                        waitUntilPromises.unshift((async () => handler(event))());
+                        await __settleAll(waitUntilPromises);
+                    } catch (error) {
+                        console.error('[scheduled] Handler error:', error);
+                        globalThis.__taskResult = {
+                            success: false,
+                            error: __errorText(error)
+                        };
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1594,6 +1617,7 @@ pub(crate) fn setup_event_listener(
                 globalThis.__taskHandler = async function(event) {
                     // Collect promises passed to waitUntil
                     const waitUntilPromises = [];
+                    let responded = false;
 
                     // Default result (success with no data)
                     globalThis.__taskResult = { success: true };
@@ -1603,6 +1627,8 @@ pub(crate) fn setup_event_listener(
                     };
 
                     event.respondWith = function(result) {
+                        responded = true;
+
                         if (result && typeof result === 'object') {
                             globalThis.__taskResult = {
                                 success: result.success !== false,
@@ -1614,11 +1640,11 @@ pub(crate) fn setup_event_listener(
                         }
                     };
 
-                    try {
+                    const work = async () => {
                         const result = await handler(event);
 
                         // If handler returns a value and respondWith wasn't called, use it
-                        if (result !== undefined && globalThis.__taskResult.data === undefined) {
+                        if (result !== undefined && !responded) {
                             if (result && typeof result === 'object' && 'success' in result) {
                                 globalThis.__taskResult = {
                                     success: result.success !== false,
@@ -1629,11 +1655,12 @@ pub(crate) fn setup_event_listener(
                                 globalThis.__taskResult = { success: true, data: result };
                             }
                         }
+                    };
 
-                        // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
+                    try {
+                        // Wait for the handler and all waitUntil promises to complete
+                        waitUntilPromises.unshift(work());
+                        await __settleAll(waitUntilPromises);
                     } catch (error) {
                         console.error('[task] Handler error:', error);
                         globalThis.__taskResult = {
@@ -1688,11 +1715,6 @@ pub(crate) fn setup_es_modules_handler(
                         // Process response body for streaming
                         const processed = await __streamResponseBody(response);
                         globalThis.__lastResponse = processed;
-
-                        // Wait for all waitUntil promises to complete (after response is set)
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
                     } catch (error) {
                         console.error('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
@@ -1701,6 +1723,13 @@ pub(crate) fn setup_es_modules_handler(
                                 { status: 500 }
                             );
                         }
+                    }
+
+                    try {
+                        // Wait for all waitUntil promises to complete (after response is set)
+                        await __settleAll(waitUntilPromises);
+                    } catch (error) {
+                        console.error('[ES Modules] Error in waitUntil:', error);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1732,12 +1761,15 @@ pub(crate) fn setup_es_modules_handler(
                 };
 
                 try {
-                    await moduleScheduled(event, globalThis.env, ctx);
-
-                    // Wait for all waitUntil promises to complete
-                    if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
-                    }
+                    // Wait for the handler and all waitUntil promises to complete
+                    waitUntilPromises.unshift((async () => moduleScheduled(event, globalThis.env, ctx))());
+                    await __settleAll(waitUntilPromises);
+                } catch (error) {
+                    console.error('[scheduled] Handler error:', error);
+                    globalThis.__taskResult = {
+                        success: false,
+                        error: __errorText(error)
+                    };
                 } finally {
                     globalThis.__requestComplete = true;
                 }
@@ -1747,7 +1779,11 @@ pub(crate) fn setup_es_modules_handler(
         // If export default exists but no scheduled, and no addEventListener handler, create a handler that throws
         if (typeof globalThis.default === 'object' && globalThis.default !== null && typeof globalThis.default.scheduled !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
             globalThis.__scheduledHandler = async function(event) {
-                throw new Error('Worker does not implement scheduled handler');
+                globalThis.__taskResult = {
+                    success: false,
+                    error: 'Worker does not implement scheduled handler'
+                };
+                globalThis.__requestComplete = true;
             };
         }
 
@@ -1758,6 +1794,7 @@ pub(crate) fn setup_es_modules_handler(
             // Wrap to pass env and ctx, and handle return value
             globalThis.__taskHandler = async function(event) {
                 const waitUntilPromises = [];
+                let responded = false;
                 globalThis.__taskResult = { success: true };
 
                 event.waitUntil = function(promise) {
@@ -1765,6 +1802,8 @@ pub(crate) fn setup_es_modules_handler(
                 };
 
                 event.respondWith = function(result) {
+                    responded = true;
+
                     if (result && typeof result === 'object') {
                         globalThis.__taskResult = {
                             success: result.success !== false,
@@ -1780,11 +1819,11 @@ pub(crate) fn setup_es_modules_handler(
                     waitUntil: event.waitUntil
                 };
 
-                try {
+                const work = async () => {
                     const result = await moduleTask(event, globalThis.env, ctx);
 
                     // If handler returns a value and respondWith wasn't called, use it
-                    if (result !== undefined && globalThis.__taskResult.data === undefined) {
+                    if (result !== undefined && !responded) {
                         if (result && typeof result === 'object' && 'success' in result) {
                             globalThis.__taskResult = {
                                 success: result.success !== false,
@@ -1795,11 +1834,12 @@ pub(crate) fn setup_es_modules_handler(
                             globalThis.__taskResult = { success: true, data: result };
                         }
                     }
+                };
 
-                    // Wait for all waitUntil promises
-                    if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
-                    }
+                try {
+                    // Wait for the handler and all waitUntil promises to complete
+                    waitUntilPromises.unshift(work());
+                    await __settleAll(waitUntilPromises);
                 } catch (e) {
                     globalThis.__taskResult = {
                         success: false,
@@ -1819,6 +1859,17 @@ pub(crate) fn setup_es_modules_handler(
             }
         }
 
+        // No task or scheduled handler at all
+        if (typeof globalThis.__taskHandler !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
+            globalThis.__taskHandler = function() {
+                globalThis.__taskResult = {
+                    success: false,
+                    error: 'Worker does not implement task handler'
+                };
+                globalThis.__requestComplete = true;
+            };
+        }
+
         // Final fallback: if __triggerFetch is still not defined (no addEventListener, no valid export default),
         // create a 501 handler. This handles cases like:
         // - globalThis.default = null
-- 
2.43.0


From 63e372eceed4244ce49b2a4848556f149165e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 71/86] fix: a WebSocket that its script closes learns of the
 end, as does one whose connection is lost

---
 src/runtime/bindings/websocket.rs | 42 +++++++++++++++++++++----------
 src/runtime/scheduler.rs          | 14 +++++++++--
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 2607464..6988f47 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -160,11 +160,10 @@ pub fn setup_websocket(
                 WebSocketOutgoing::Binary(buf)
             } else {
                 // Fallback: convert to string
-                let s = data
-                    .to_string(scope)
-                    .map(|s| s.to_rust_string_lossy(scope))
-                    .unwrap_or_default();
-                WebSocketOutgoing::Text(s)
+                let Some(s) = data.to_string(scope) else {
+                    return; // it threw
+                };
+                WebSocketOutgoing::Text(s.to_rust_string_lossy(scope))
             };
 
             let _ = state
@@ -218,11 +217,16 @@ pub fn setup_websocket(
 
                 // Validate per spec: scheme must be ws/wss (http/https are normalized),
                 // and the URL must not contain a fragment. Invalid input throws SyntaxError.
-                const parsed = new URL(String(url));
+                let parsed;
+                try {
+                    parsed = new URL(String(url));
+                } catch (e) {
+                    throw WebSocket.__err('SyntaxError', "Failed to construct 'WebSocket': The URL '" + url + "' is invalid.");
+                }
                 if (parsed.hash) {
                     throw WebSocket.__err('SyntaxError', "Failed to construct 'WebSocket': The URL contains a fragment identifier ('" + parsed.hash + "').");
                 }
-                let target = String(url);
+                let target = parsed.href;
                 if (parsed.protocol === 'http:') {
                     target = 'ws://' + target.slice(7);
                 } else if (parsed.protocol === 'https:') {
@@ -303,7 +307,7 @@ pub fn setup_websocket(
                         self._dispatch('message', { type: 'message', data: arg1 });
                     } else if (eventType === 'close') {
                         self.readyState = WS_CLOSED;
-                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: true });
+                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: arg1 !== 1006 });
                     } else if (eventType === 'error') {
                         self._dispatch('error', { type: 'error', message: arg1 });
                     }
@@ -321,14 +325,24 @@ pub fn setup_websocket(
                 if (this.readyState !== WS_OPEN) {
                     return; // CLOSING/CLOSED: data is silently discarded per spec
                 }
+                if (data instanceof Blob) {
+                    data = data._getBytes();
+                }
                 __nativeWebSocketSend(this._wsId, data);
             }
 
             close(code, reason) {
+                if (code !== undefined) {
+                    // An unsigned short, clamped
+                    code = Math.min(Math.max(Math.round(Number(code)), 0), 65535) || 0;
+                }
+                if (reason !== undefined) {
+                    reason = `${reason}`;
+                }
                 if (code !== undefined && code !== 1000 && (code < 3000 || code > 4999)) {
                     throw WebSocket.__err('InvalidAccessError', "Failed to execute 'close' on 'WebSocket': The code must be 1000 or in the range 3000-4999.");
                 }
-                if (reason !== undefined && new TextEncoder().encode(String(reason)).length > 123) {
+                if (reason !== undefined && new TextEncoder().encode(reason).length > 123) {
                     throw WebSocket.__err('SyntaxError', "Failed to execute 'close' on 'WebSocket': The close reason must not exceed 123 bytes.");
                 }
                 if (this.readyState === WS_CLOSING || this.readyState === WS_CLOSED) return;
@@ -343,13 +357,13 @@ pub fn setup_websocket(
             }
 
             addEventListener(type, listener) {
-                if (this._listeners[type]) {
+                if (Object.hasOwn(this._listeners, type) && !this._listeners[type].includes(listener)) {
                     this._listeners[type].push(listener);
                 }
             }
 
             removeEventListener(type, listener) {
-                if (this._listeners[type]) {
+                if (Object.hasOwn(this._listeners, type)) {
                     this._listeners[type] = this._listeners[type].filter(function(l) { return l !== listener; });
                 }
             }
@@ -360,10 +374,12 @@ pub fn setup_websocket(
                     try { handler.call(this, event); } catch(e) { console.error('WebSocket on' + type + ' error:', e); }
                 }
 
+                // Those that were there when it came, and still are at their turn
                 const listeners = this._listeners[type];
                 if (listeners) {
-                    for (let i = 0; i < listeners.length; i++) {
-                        try { listeners[i].call(this, event); } catch(e) { console.error('WebSocket listener error:', e); }
+                    for (const listener of listeners.slice()) {
+                        if (!this._listeners[type].includes(listener)) continue;
+                        try { listener.call(this, event); } catch(e) { console.error('WebSocket listener error:', e); }
                     }
                 }
             }
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 99421a9..1c9c683 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -379,6 +379,7 @@ pub async fn run_event_loop(
                         // Create command channel BEFORE spawning so we can store the
                         // sender synchronously in the event loop's state.
                         let (cmd_tx, cmd_rx) = mpsc::unbounded_channel();
+                        ws_commands.retain(|_, tx| !tx.is_closed());
                         ws_commands.insert(ws_id, cmd_tx);
 
                         let callback_tx = callback_tx.clone();
@@ -406,7 +407,7 @@ pub async fn run_event_loop(
                     }
 
                     SchedulerMessage::WebSocketClose(ws_id, code, reason) => {
-                        if let Some(tx) = ws_commands.remove(&ws_id) {
+                        if let Some(tx) = ws_commands.get(&ws_id) {
                             let _ = tx.send(WebSocketCommand::Close(code, reason));
                         }
                     }
@@ -654,8 +655,8 @@ async fn run_websocket(
                         let _ = send_tx.send(msg);
                     }
                     WebSocketCommand::Close(code, reason) => {
+                        // What the other side still sends, its own close above all, is awaited.
                         let _ = send_tx.send(WebSocketOutgoing::Close { code, reason });
-                        break;
                     }
                 }
             }
@@ -663,12 +664,21 @@ async fn run_websocket(
             msg = recv_rx.recv(), if accepted => {
                 match msg {
                     Some(incoming) => {
+                        let done = matches!(incoming, WebSocketIncoming::Closed { .. });
                         let _ = callback_tx.send(
                             CallbackMessage::WebSocketEvent(ws_id, incoming),
                         );
+
+                        if done {
+                            break;
+                        }
                     }
                     None => {
                         // Runner dropped the sender — connection is done
+                        let _ = callback_tx.send(CallbackMessage::WebSocketEvent(
+                            ws_id,
+                            WebSocketIncoming::Closed { code: 1006, reason: String::new() },
+                        ));
                         break;
                     }
                 }
-- 
2.43.0


From 5aea1cf88eeebe206a448cec3de1d89e705e187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 72/86] fix: late answers to one request do not go to the next
 one of its context, nor results to the next event of a Worker

---
 src/execution_context.rs |  2 +-
 src/worker.rs            | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index ceac240..99fecfc 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1498,7 +1498,7 @@ impl ExecutionContext {
         self.request.fetch_error_callbacks.borrow_mut().clear();
         self.request.stream_callbacks.borrow_mut().clear();
         self.request.ws_event_callbacks.borrow_mut().clear();
-        *self.request.next_callback_id.borrow_mut() = 1;
+        // The ids go on: what the previous request still waits for may be answered later.
 
         Ok(())
     }
diff --git a/src/worker.rs b/src/worker.rs
index b3911d8..35fba66 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -833,6 +833,19 @@ impl Worker {
         .await
     }
 
+    /// Forget the results of an earlier event, so that they are not taken for those of the next one.
+    fn reset_results(&mut self) -> Result<(), String> {
+        self.runtime.evaluate(&WorkerCode::JavaScript(
+            r#"
+            globalThis.__lastResponse = undefined;
+            globalThis.__requestComplete = false;
+            globalThis.__lastResponseStreamId = undefined;
+            globalThis.__taskResult = undefined;
+            "#
+            .to_string(),
+        ))
+    }
+
     async fn trigger_fetch_event(
         &mut self,
         fetch_init: openworkers_core::FetchInit,
@@ -841,6 +854,8 @@ impl Worker {
     ) -> Result<HttpResponse, String> {
         let mut req = fetch_init.req;
 
+        self.reset_results()?;
+
         // Create channel for response notification (like JSC)
         let (response_tx, _response_rx) = tokio::sync::oneshot::channel::<String>();
 
@@ -926,6 +941,8 @@ impl Worker {
         wall_guard: &TimeoutGuard,
         cpu_guard: &Option<CpuEnforcer>,
     ) -> Result<(), String> {
+        self.reset_results()?;
+
         // Extract scheduled time if this is a schedule-triggered task
         let scheduled_time = match &task_init.source {
             Some(openworkers_core::TaskSource::Schedule { time }) => Some(*time),
-- 
2.43.0


From edb5a985d86e874e5bb35ada26e647430a378092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 73/86] fix: the timers of a request do not tick on in its
 cached context

---
 src/execution_context.rs | 5 +++++
 src/runtime/scheduler.rs | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 99fecfc..0f4d7bc 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -282,6 +282,11 @@ impl ExecutionContext {
     /// without aborting the event loop. The remaining EC fields (raw pointers,
     /// static refs, Arcs) are dropped normally.
     pub(crate) fn into_parts(self) -> (RequestContext, *mut v8::OwnedIsolate) {
+        // No timer of this request is due any more (see `reset`).
+        let _ = self
+            .request
+            .scheduler_tx
+            .send(crate::runtime::SchedulerMessage::ClearAllTimers);
         (self.request, self.isolate)
     }
 
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 1c9c683..d506415 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -55,6 +55,7 @@ pub enum SchedulerMessage {
     ScheduleTimeout(CallbackId, u64),
     ScheduleInterval(CallbackId, u64),
     ClearTimer(CallbackId),
+    ClearAllTimers,
     FetchStreaming(CallbackId, HttpRequest),
     BindingFetch(CallbackId, String, HttpRequest),
     BindingStorage(CallbackId, String, StorageOp),
@@ -177,6 +178,11 @@ pub async fn run_event_loop(
                         cancelled.insert(id);
                     }
 
+                    SchedulerMessage::ClearAllTimers => {
+                        timers.clear();
+                        cancelled.clear();
+                    }
+
                     SchedulerMessage::FetchStreaming(promise_id, request) => {
                         let callback_tx = callback_tx.clone();
                         let manager = stream_manager.clone();
-- 
2.43.0


From fc8a6efef1c3a3be6340fb6edfa5d0c6ae7ddcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 74/86] fix: a worker id of any characters can be logged

---
 src/pool.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 10ce28c..ce6e609 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -586,6 +586,12 @@ fn drop_under_lock<T>(value: T, lmi_ptr: *mut LockerManagedIsolate) {
     }
 }
 
+/// The start of an id, for the log.
+fn short_id(id: &str) -> &str {
+    let end = id.char_indices().nth(8).map_or(id.len(), |(i, _)| i);
+    &id[..end]
+}
+
 /// Execute a worker script using the isolate pool.
 ///
 /// This uses thread-local storage for zero-contention access to isolates.
@@ -699,7 +705,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
 
         tracing::debug!(
             "context WARM: worker={}, version={}, reuse_count={}",
-            &worker_id[..8.min(worker_id.len())],
+            short_id(&worker_id),
             version,
             reuse_cnt,
         );
@@ -727,14 +733,14 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason={:?}",
-                        &worker_id[..8.min(worker_id.len())],
+                        short_id(&worker_id),
                         result.as_ref().err(),
                     );
                     false
                 } else if let Err(reason) = ec.drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
-                        &worker_id[..8.min(worker_id.len())],
+                        short_id(&worker_id),
                         reason,
                     );
                     false
@@ -784,7 +790,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             Err(e) => {
                 tracing::debug!(
                     "context DISCARDED: worker={}, reason=reset_failed: {}",
-                    &worker_id[..8.min(worker_id.len())],
+                    short_id(&worker_id),
                     e,
                 );
                 drop_under_lock(ec, lmi_ptr);
@@ -796,7 +802,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // ── Cold path ──────────────────────────────────────────────────────
     tracing::debug!(
         "context COLD: worker={}, creating new context",
-        &worker_id[..8.min(worker_id.len())],
+        short_id(&worker_id),
     );
 
     // Acquire Locker to enter the unentered isolate, create context
@@ -844,7 +850,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     Err(reason) => {
                         tracing::debug!(
                             "context NOT CACHED: worker={}, reason=drain_waituntil: {:?}",
-                            &worker_id[..8.min(worker_id.len())],
+                            short_id(&worker_id),
                             reason,
                         );
                         drop_under_lock(ctx, lmi_ptr);
@@ -854,7 +860,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             } else {
                 tracing::debug!(
                     "context NOT CACHED: worker={}, reason={:?}",
-                    &worker_id[..8.min(worker_id.len())],
+                    short_id(&worker_id),
                     result.as_ref().err(),
                 );
                 drop_under_lock(ctx, lmi_ptr);
-- 
2.43.0


From bd9d52064c831ee6b717aa76fb29e864cd795911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 75/86] fix: a request of the pool that is given up gives its
 slot back

---
 src/pool.rs | 72 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index ce6e609..33caa7e 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -523,7 +523,7 @@ fn release_to_local_pool(isolate: &TaggedIsolate) {
     isolate.release();
 
     // Reclaim any overcommitted isolates that are now free
-    LOCAL_POOL.with(|pool_cell| {
+    let _ = LOCAL_POOL.try_with(|pool_cell| {
         let mut pool_opt = pool_cell.borrow_mut();
 
         if let Some(pool) = pool_opt.as_mut() {
@@ -586,6 +586,47 @@ fn drop_under_lock<T>(value: T, lmi_ptr: *mut LockerManagedIsolate) {
     }
 }
 
+/// A request's slot of an isolate, given back when it ends or is given up.
+struct Slot(Arc<TaggedIsolate>);
+
+impl Drop for Slot {
+    fn drop(&mut self) {
+        release_to_local_pool(&self.0);
+    }
+}
+
+/// An execution context that is dropped under the lock of its isolate, also when
+/// its request is given up.
+struct Running {
+    ctx: Option<ExecutionContext>,
+    lmi_ptr: *mut LockerManagedIsolate,
+}
+
+impl Running {
+    fn new(ctx: ExecutionContext, lmi_ptr: *mut LockerManagedIsolate) -> Self {
+        Self {
+            ctx: Some(ctx),
+            lmi_ptr,
+        }
+    }
+
+    fn ctx(&mut self) -> &mut ExecutionContext {
+        self.ctx.as_mut().expect("the context was taken")
+    }
+
+    fn into_parts(mut self) -> (RequestContext, *mut v8::OwnedIsolate) {
+        self.ctx.take().expect("the context was taken").into_parts()
+    }
+}
+
+impl Drop for Running {
+    fn drop(&mut self) {
+        if let Some(ctx) = self.ctx.take() {
+            drop_under_lock(ctx, self.lmi_ptr);
+        }
+    }
+}
+
 /// The start of an id, for the log.
 fn short_id(id: &str) -> &str {
     let end = id.char_indices().nth(8).map_or(id.len(), |(i, _)| i);
@@ -626,6 +667,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // Fail-fast: try to acquire an isolate, return error if at capacity
     let (isolate_arc, is_hit) = acquire_from_local_pool(&owner_id)
         .ok_or_else(|| TerminationReason::Other("Pool at capacity".to_string()))?;
+    let _slot = Slot(Arc::clone(&isolate_arc));
 
     if is_hit {
         CACHE_HITS.fetch_add(1, Ordering::Relaxed);
@@ -711,7 +753,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         );
 
         // Reconstruct EC from cached parts
-        let mut ec = ExecutionContext::from_cached(
+        let ec = ExecutionContext::from_cached(
             cached_isolate_ptr,
             lmi_ptr,
             platform,
@@ -720,15 +762,16 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             request,
             async_waiter.clone(),
         );
+        let mut running = Running::new(ec, lmi_ptr);
 
         if let Some(callback) = on_warm_hit {
             callback(&cached_ops);
         }
 
         // reset() acquires its own V8 lock internally
-        match ec.reset() {
+        match running.ctx().reset() {
             Ok(()) => {
-                let result = ec.exec(task).await;
+                let result = running.ctx().exec(task).await;
 
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
@@ -737,7 +780,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         result.as_ref().err(),
                     );
                     false
-                } else if let Err(reason) = ec.drain_waituntil().await {
+                } else if let Err(reason) = running.ctx().drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
                         short_id(&worker_id),
@@ -764,7 +807,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         None
                     };
 
-                    let (request, isolate_ptr) = ec.into_parts();
+                    let (request, isolate_ptr) = running.into_parts();
                     inner.cached_contexts.push(CachedContext {
                         request,
                         isolate_ptr,
@@ -780,11 +823,8 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     if let Some(evicted) = evicted {
                         drop_under_lock(evicted, lmi_ptr);
                     }
-                } else {
-                    drop_under_lock(ec, lmi_ptr);
                 }
 
-                release_to_local_pool(&isolate_arc);
                 return result;
             }
             Err(e) => {
@@ -793,7 +833,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     short_id(&worker_id),
                     e,
                 );
-                drop_under_lock(ec, lmi_ptr);
                 // Fall through to cold path
             }
         }
@@ -827,12 +866,13 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     let (result, new_cached_context) = match ctx_result {
         Ok(mut ctx) => {
             ctx.async_waiter = async_waiter;
-            let result = ctx.exec(task).await;
+            let mut running = Running::new(ctx, lmi_ptr);
+            let result = running.ctx().exec(task).await;
 
             if result.is_ok() {
-                match ctx.drain_waituntil().await {
+                match running.ctx().drain_waituntil().await {
                     Ok(()) => {
-                        let (request, isolate_ptr) = ctx.into_parts();
+                        let (request, isolate_ptr) = running.into_parts();
                         (
                             result,
                             Some(CachedContext {
@@ -853,7 +893,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                             short_id(&worker_id),
                             reason,
                         );
-                        drop_under_lock(ctx, lmi_ptr);
                         (Ok(()), None)
                     }
                 }
@@ -863,7 +902,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     short_id(&worker_id),
                     result.as_ref().err(),
                 );
-                drop_under_lock(ctx, lmi_ptr);
                 (result, None)
             }
         }
@@ -895,9 +933,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         }
     }
 
-    // Release the isolate back to the pool
-    release_to_local_pool(&isolate_arc);
-
+    // The slot goes back to the pool here
     result
 }
 
-- 
2.43.0


From 6727875ed00c62bceee604ef2bcf84d771952fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 76/86] fix: a variable or binding of env named __proto__ is
 not lost

---
 src/worker.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 35fba66..9327f9f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1186,11 +1186,12 @@ pub(crate) fn setup_env(
     env: &Option<std::collections::HashMap<String, String>>,
     bindings: &[openworkers_core::BindingInfo],
 ) -> Result<(), String> {
-    // Build JSON string for env vars
+    // Build JSON string for env vars, parsed in JS: a literal would lose a "__proto__"
     let env_json = env
         .as_ref()
         .map(|m| serde_json::to_string(m).unwrap_or_else(|_| "{}".to_string()))
         .unwrap_or_else(|| "{}".to_string());
+    let env_json = serde_json::to_string(&env_json).unwrap_or_else(|_| "\"{}\"".to_string());
 
     // Build binding object definitions
     let binding_defs: Vec<String> = bindings
@@ -1202,7 +1203,7 @@ pub(crate) fn setup_env(
                     // Assets binding has fetch() only
                     // Supports Request, URL, and string inputs (like standard fetch)
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             fetch: function(input, options) {{
                                 return new Promise((resolve, reject) => {{
                                     __prepareFetch(input, options).then((fetchOptions) => {{
@@ -1225,7 +1226,7 @@ pub(crate) fn setup_env(
                 openworkers_core::BindingType::Storage => {
                     // Storage binding has get/put/head/list/delete/fetch
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             get: (key) => __bindingCall(__nativeBindingStorage, {name}, 'get', {{ key }})
                                 .then(r => r.body ? new TextDecoder().decode(r.body) : null),
                             put: (key, value) => {{
@@ -1255,7 +1256,7 @@ pub(crate) fn setup_env(
                     // KV binding has get/put/delete/list
                     // Use IIFE to capture binding name as a string constant
                     format!(
-                        r#"{name}: (function() {{
+                        r#"[{name}]: (function() {{
                             const __n = {name};
                             return {{
                                 get: (key) => __bindingCall(__nativeBindingKv, __n, 'get', {{ key }}).then(r => r.value),
@@ -1279,7 +1280,7 @@ pub(crate) fn setup_env(
                     // Database binding has query method
                     // Use IIFE to capture binding name as a string constant
                     format!(
-                        r#"{name}: (function() {{
+                        r#"[{name}]: (function() {{
                             const __n = {name};
                             return {{
                                 query: (sql, params) => __bindingCall(__nativeBindingDatabase, __n, 'query', {{ sql, params: params || [] }}).then(r => r.rows)
@@ -1291,7 +1292,7 @@ pub(crate) fn setup_env(
                     // Worker binding has fetch method for worker-to-worker calls
                     // Supports Request, URL, and string inputs (like standard fetch)
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             fetch: function(input, options) {{
                                 return new Promise((resolve, reject) => {{
                                     __prepareFetch(input, options).then((fetchOptions) => {{
@@ -1318,13 +1319,13 @@ pub(crate) fn setup_env(
     let bindings_json = if binding_defs.is_empty() {
         String::new()
     } else {
-        format!(", {{{}}}", binding_defs.join(","))
+        format!(", {}", binding_defs.join(","))
     };
 
     // Set globalThis.env as read-only with both env vars and bindings
     let code = format!(
         r#"Object.defineProperty(globalThis, 'env', {{
-            value: Object.freeze(Object.assign({}{})),
+            value: Object.freeze({{ ...JSON.parse({}){} }}),
             writable: false,
             enumerable: true,
             configurable: false
-- 
2.43.0


From da959ec6f4f305cd5a3e46f2a8b0d5f7081da8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:51 +0000
Subject: [PATCH 77/86] fix: the limits of a request neither count nor end what
 others do on its thread

---
 src/execution_context.rs      |  45 ++++++--------
 src/execution_helpers.rs      | 113 +++++++++++++++++++++++++---------
 src/security/cpu_enforcer.rs  |  50 +++++++++++++++
 src/security/timeout_guard.rs |  18 +++++-
 src/worker.rs                 |  32 +++++-----
 5 files changed, 185 insertions(+), 73 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0f4d7bc..7b92ca4 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -18,9 +18,9 @@ use v8;
 use crate::LockerManagedIsolate;
 use crate::async_waiter::AsyncWaiter;
 use crate::execution_helpers::{
-    AbortConfig, DisconnectWaker, EventLoopExit, check_exit_condition, get_completion_state,
-    get_response_stream_id, read_response_object, signal_client_disconnect, trigger_fetch_handler,
-    with_wall_clock,
+    AbortConfig, DisconnectWaker, EventLoopExit, Guards, check_exit_condition,
+    get_completion_state, get_response_stream_id, read_response_object, signal_client_disconnect,
+    trigger_fetch_handler,
 };
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
@@ -856,34 +856,31 @@ impl ExecutionContext {
 
         // Setup security guards:
         // 1. Wall-clock timeout (all platforms) - prevents hanging on I/O
-        let wall_guard =
-            TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
+        let guards = Guards::new(isolate_handle, &self.limits);
+        let wall_guard = &guards.wall;
 
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
-        let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
+        let cpu_guard = &guards.cpu;
 
         // Execute the task
-        let wall_limit_ms = self.limits.max_wall_clock_time_ms;
         let result = match task {
             Event::Fetch(ref mut init) => {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
                 ))?;
-                let work = self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard);
-                with_wall_clock(work, &wall_guard, wall_limit_ms).await
+                let work = self.trigger_fetch_event(fetch_init, wall_guard, cpu_guard);
+                guards.watch(work).await
             }
             Event::Task(ref mut init) => {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                let work = self.trigger_task_event(task_init, &wall_guard, &cpu_guard);
-                with_wall_clock(work, &wall_guard, wall_limit_ms)
-                    .await
-                    .map(|_| HttpResponse {
-                        status: 200,
-                        headers: vec![],
-                        body: ResponseBody::None,
-                    })
+                let work = self.trigger_task_event(task_init, wall_guard, cpu_guard);
+                guards.watch(work).await.map(|_| HttpResponse {
+                    status: 200,
+                    headers: vec![],
+                    body: ResponseBody::None,
+                })
             }
         };
 
@@ -911,14 +908,12 @@ impl ExecutionContext {
         let isolate_handle = unsafe { (*self.isolate).thread_safe_handle() };
 
         // Fresh guards for background work — same limits as exec()
-        let wall_guard =
-            TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
-        let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
-
-        let wall_limit_ms = self.limits.max_wall_clock_time_ms;
-        let work =
-            self.await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None);
-        let result = with_wall_clock(work, &wall_guard, wall_limit_ms).await;
+        let guards = Guards::new(isolate_handle, &self.limits);
+        let wall_guard = &guards.wall;
+        let cpu_guard = &guards.cpu;
+
+        let work = self.await_event_loop(wall_guard, cpu_guard, EventLoopExit::FullyComplete, None);
+        let result = guards.watch(work).await;
 
         self.check_termination_reason(
             result.map(|_| HttpResponse {
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 0f630cb..5cd2315 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -4,12 +4,12 @@
 //! ExecutionContext for task execution, event loop management, and response handling.
 
 use crate::runtime::stream_manager::{StreamChunk, StreamManager};
-use crate::security::TimeoutGuard;
-use openworkers_core::{HttpResponse, RequestBody, ResponseBody};
+use crate::security::{CpuEnforcer, TimeoutGuard};
+use openworkers_core::{HttpResponse, RequestBody, ResponseBody, RuntimeLimits};
 use std::collections::HashMap;
 use std::pin::Pin;
-use std::sync::Arc;
-use std::task::Context;
+use std::sync::{Arc, Mutex};
+use std::task::{Context, Poll};
 use tokio::sync::Notify;
 use tokio::sync::futures::OwnedNotified;
 use tokio::time::{Duration, Instant, Sleep, sleep_until};
@@ -54,36 +54,93 @@ impl Default for AbortConfig {
     }
 }
 
-/// Polls `work` once more when the wall-clock limit has been reached.
-///
-/// The watchdog of the guard terminates V8, but nothing else may wake up a task
-/// that waits for callbacks.
-pub async fn with_wall_clock<F: Future>(
-    work: F,
-    wall_guard: &TimeoutGuard,
-    limit_ms: u64,
-) -> F::Output {
-    let mut work = std::pin::pin!(work);
-    let mut expired = std::pin::pin!(async {
-        tokio::time::sleep(tokio::time::Duration::from_millis(limit_ms)).await;
-
-        while !wall_guard.was_triggered() {
-            tokio::time::sleep(tokio::time::Duration::from_millis(1)).await;
+/// The guards of one execution, which may share its isolate and thread with others.
+pub struct Guards {
+    pub wall: TimeoutGuard,
+    pub cpu: Option<CpuEnforcer>,
+    isolate: v8::IsolateHandle,
+    turn: Arc<Mutex<bool>>,
+    wall_limit_ms: u64,
+}
+
+impl Guards {
+    pub fn new(isolate: v8::IsolateHandle, limits: &RuntimeLimits) -> Self {
+        let turn = Arc::new(Mutex::new(false));
+        let wall_limit_ms = limits.max_wall_clock_time_ms;
+
+        Self {
+            wall: TimeoutGuard::with_turn(isolate.clone(), wall_limit_ms, turn.clone()),
+            cpu: CpuEnforcer::new(isolate.clone(), limits.max_cpu_time_ms),
+            isolate,
+            turn,
+            wall_limit_ms,
+        }
+    }
+
+    fn triggered(&self) -> bool {
+        self.wall.was_triggered() || self.cpu.as_ref().is_some_and(|g| g.was_terminated())
+    }
+
+    /// Polls `work` under the guards: in between, the isolate and the CPU time of the
+    /// thread belong to others.
+    fn poll<F: Future>(&self, work: Pin<&mut F>, cx: &mut Context<'_>) -> Poll<F::Output> {
+        *self.turn.lock().unwrap() = true;
+
+        if let Some(cpu) = &self.cpu {
+            cpu.resume();
+        }
+
+        if self.triggered() {
+            // The limit was reached in between
+            self.isolate.terminate_execution();
+        }
+
+        let before = self.triggered();
+        let result = work.poll(cx);
+
+        if let Some(cpu) = &self.cpu {
+            cpu.pause();
         }
-    });
-    let mut done = limit_ms == 0;
 
-    std::future::poll_fn(|cx| {
-        let result = work.as_mut().poll(cx);
+        *self.turn.lock().unwrap() = false;
 
-        if result.is_pending() && !done && expired.as_mut().poll(cx).is_ready() {
-            done = true;
-            return work.as_mut().poll(cx);
+        if self.triggered() {
+            self.isolate.cancel_terminate_execution();
+
+            if !before {
+                // Nothing else may wake up what was terminated
+                cx.waker().wake_by_ref();
+            }
         }
 
         result
-    })
-    .await
+    }
+
+    /// Runs `work` under the guards, and polls it once more when the wall-clock limit
+    /// has been reached: nothing else may wake up a task that waits for callbacks.
+    pub async fn watch<F: Future>(&self, work: F) -> F::Output {
+        let mut work = std::pin::pin!(work);
+        let mut expired = std::pin::pin!(async {
+            tokio::time::sleep(Duration::from_millis(self.wall_limit_ms)).await;
+
+            while !self.wall.was_triggered() {
+                tokio::time::sleep(Duration::from_millis(1)).await;
+            }
+        });
+        let mut done = self.wall_limit_ms == 0;
+
+        std::future::poll_fn(|cx| {
+            let result = self.poll(work.as_mut(), cx);
+
+            if result.is_pending() && !done && expired.as_mut().poll(cx).is_ready() {
+                done = true;
+                return self.poll(work.as_mut(), cx);
+            }
+
+            result
+        })
+        .await
+    }
 }
 
 /// Wakes the event loop up for a client that is gone, and at the end of its grace period.
diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 710fb89..548625d 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -47,6 +47,8 @@ mod linux {
         timer_id: libc::timer_t,
         enforcer_id: usize,
         terminated: Arc<AtomicBool>,
+        /// What is left of the limit, while the timer is paused.
+        left: Mutex<Option<libc::itimerspec>>,
     }
 
     impl CpuEnforcer {
@@ -113,9 +115,26 @@ mod linux {
                 timer_id,
                 enforcer_id,
                 terminated,
+                left: Mutex::new(None),
             })
         }
 
+        /// Stop the clock, which is that of the thread, while others use the thread.
+        pub fn pause(&self) {
+            let mut left = self.left.lock().unwrap();
+
+            if left.is_none() {
+                *left = pause_timer(self.enforcer_id);
+            }
+        }
+
+        /// Go on where `pause` left off.
+        pub fn resume(&self) {
+            if let Some(timer_spec) = self.left.lock().unwrap().take() {
+                arm_timer(self.enforcer_id, self.timer_id, &timer_spec);
+            }
+        }
+
         /// Check if the CPU limit was exceeded and termination occurred.
         pub fn was_terminated(&self) -> bool {
             self.terminated.load(Ordering::SeqCst)
@@ -135,6 +154,7 @@ mod linux {
             timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
             // it_interval stays 0 = one-shot timer
 
+            *self.left.lock().unwrap() = None;
             let ret = arm_timer(self.enforcer_id, self.timer_id, &timer_spec);
 
             if ret != 0 {
@@ -217,6 +237,30 @@ mod linux {
         ret
     }
 
+    /// Stops the timer of an enforcer, and gives what is left of it; one that has expired
+    /// counts at once.
+    fn pause_timer(enforcer_id: usize) -> Option<libc::itimerspec> {
+        let mut map = ENFORCER_REGISTRY.lock().unwrap();
+        let data = map.get_mut(&enforcer_id)?;
+        let timer_id = data.armed? as libc::timer_t;
+
+        let stop: libc::itimerspec = unsafe { std::mem::zeroed() };
+        let mut left: libc::itimerspec = unsafe { std::mem::zeroed() };
+
+        if unsafe { libc::timer_settime(timer_id, 0, &stop, &mut left) } != 0 {
+            return None;
+        }
+
+        data.armed = None;
+
+        if left.it_value.tv_sec == 0 && left.it_value.tv_nsec == 0 {
+            data.terminated.store(true, Ordering::SeqCst);
+            return None;
+        }
+
+        Some(left)
+    }
+
     fn unregister_enforcer(enforcer_id: usize) {
         let mut map = ENFORCER_REGISTRY.lock().unwrap();
         map.remove(&enforcer_id);
@@ -309,6 +353,12 @@ impl CpuEnforcer {
         false
     }
 
+    /// No-op on non-Linux platforms.
+    pub fn pause(&self) {}
+
+    /// No-op on non-Linux platforms.
+    pub fn resume(&self) {}
+
     /// No-op on non-Linux platforms.
     pub fn reset(&self, _timeout_ms: u64) -> Result<(), std::io::Error> {
         Ok(())
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 84dc07b..3030ee4 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -23,9 +23,9 @@
 //! The `IsolateHandle` is thread-safe and can be used from the watchdog thread
 //! to terminate execution in the main thread.
 
-use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc;
+use std::sync::{Arc, Mutex};
 use std::thread;
 use std::time::Duration;
 
@@ -70,6 +70,16 @@ impl TimeoutGuard {
     /// A guard that will terminate execution if the timeout is exceeded.
     /// Drop the guard to cancel the watchdog.
     pub fn new(isolate_handle: v8::IsolateHandle, timeout_ms: u64) -> Self {
+        Self::with_turn(isolate_handle, timeout_ms, Arc::new(Mutex::new(true)))
+    }
+
+    /// Like `new`, for one of several requests of an isolate: the isolate is only
+    /// terminated while it is the turn of this one.
+    pub fn with_turn(
+        isolate_handle: v8::IsolateHandle,
+        timeout_ms: u64,
+        turn: Arc<Mutex<bool>>,
+    ) -> Self {
         let triggered = Arc::new(AtomicBool::new(false));
 
         // If timeout is 0, create disabled guard (no watchdog thread)
@@ -101,8 +111,12 @@ impl TimeoutGuard {
                             "[openworkers-runtime-v8] Wall-clock timeout after {}ms, terminating isolate",
                             timeout_ms
                         );
+                        let turn = turn.lock().unwrap();
                         triggered_clone.store(true, Ordering::SeqCst);
-                        isolate_handle.terminate_execution();
+
+                        if *turn {
+                            isolate_handle.terminate_execution();
+                        }
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
                     Err(mpsc::RecvTimeoutError::Disconnected) => {
diff --git a/src/worker.rs b/src/worker.rs
index 9327f9f..4de401d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1,9 +1,9 @@
 //! Per-request isolate execution. Creates a new V8 isolate for each request.
 
 use crate::execution_helpers::{
-    AbortConfig, DisconnectWaker, EventLoopExit, check_exit_condition, get_completion_state,
-    get_response_stream_id, read_response_object, signal_client_disconnect, trigger_fetch_handler,
-    with_wall_clock,
+    AbortConfig, DisconnectWaker, EventLoopExit, Guards, check_exit_condition,
+    get_completion_state, get_response_stream_id, read_response_object, signal_client_disconnect,
+    trigger_fetch_handler,
 };
 use crate::runtime::{Runtime, run_event_loop};
 use crate::security::{CpuEnforcer, TimeoutGuard};
@@ -621,39 +621,35 @@ impl Worker {
             return Err(TerminationReason::Aborted);
         }
 
-        // Get limits from runtime
-        let limits = &self.runtime.limits;
         let isolate_handle = self.runtime.isolate.thread_safe_handle();
 
         // Setup security guards:
         // 1. Wall-clock timeout (all platforms) - prevents hanging on I/O
-        let wall_guard = TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
+        let guards = Guards::new(isolate_handle, &self.runtime.limits);
+        let wall_guard = &guards.wall;
 
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
-        let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
+        let cpu_guard = &guards.cpu;
 
         // Execute the task
-        let wall_limit_ms = self.runtime.limits.max_wall_clock_time_ms;
         let result = match task {
             Event::Fetch(ref mut init) => {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
                 ))?;
-                let work = self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard);
-                with_wall_clock(work, &wall_guard, wall_limit_ms).await
+                let work = self.trigger_fetch_event(fetch_init, wall_guard, cpu_guard);
+                guards.watch(work).await
             }
             Event::Task(ref mut init) => {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                let work = self.trigger_task_event(task_init, &wall_guard, &cpu_guard);
-                with_wall_clock(work, &wall_guard, wall_limit_ms)
-                    .await
-                    .map(|_| HttpResponse {
-                        status: 200,
-                        headers: vec![],
-                        body: ResponseBody::None,
-                    })
+                let work = self.trigger_task_event(task_init, wall_guard, cpu_guard);
+                guards.watch(work).await.map(|_| HttpResponse {
+                    status: 200,
+                    headers: vec![],
+                    body: ResponseBody::None,
+                })
             }
         };
 
-- 
2.43.0


From b01bda521201fe61fc19523d1c931e2df472c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 78/86] fix: limits hold for the top level of a script too

---
 src/execution_context.rs | 13 +++++++++----
 src/execution_helpers.rs | 42 +++++++++++++++++++++++++++++++---------
 src/worker.rs            | 29 +++++++++++++++------------
 3 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 7b92ca4..1812858 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -190,11 +190,16 @@ impl ExecutionContext {
         // Setup environment variables and bindings (placeholder)
         Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
 
-        // Evaluate user script (placeholder)
-        Self::evaluate_script(isolate, &context, &script.code)?;
+        // The limits hold for the top level of the script too
+        let guards = Guards::new(isolate.thread_safe_handle(), &limits);
 
-        // Setup ES Modules handler (placeholder)
-        Self::setup_es_modules_handler(isolate, &context)?;
+        guards.run(|| {
+            // Evaluate user script (placeholder)
+            Self::evaluate_script(isolate, &context, &script.code)?;
+
+            // Setup ES Modules handler (placeholder)
+            Self::setup_es_modules_handler(isolate, &context)
+        })?;
 
         // Start event loop in background (with optional Operations handle)
         // Use tokio::spawn (not spawn_local) so the event loop survives LocalSet drops.
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 5cd2315..c519b3e 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -5,7 +5,7 @@
 
 use crate::runtime::stream_manager::{StreamChunk, StreamManager};
 use crate::security::{CpuEnforcer, TimeoutGuard};
-use openworkers_core::{HttpResponse, RequestBody, ResponseBody, RuntimeLimits};
+use openworkers_core::{HttpResponse, RequestBody, ResponseBody, RuntimeLimits, TerminationReason};
 use std::collections::HashMap;
 use std::pin::Pin;
 use std::sync::{Arc, Mutex};
@@ -81,9 +81,9 @@ impl Guards {
         self.wall.was_triggered() || self.cpu.as_ref().is_some_and(|g| g.was_terminated())
     }
 
-    /// Polls `work` under the guards: in between, the isolate and the CPU time of the
-    /// thread belong to others.
-    fn poll<F: Future>(&self, work: Pin<&mut F>, cx: &mut Context<'_>) -> Poll<F::Output> {
+    /// Runs `work` under the guards: in between, the isolate and the CPU time of the
+    /// thread belong to others. Tells also whether a limit was reached meanwhile.
+    fn turn<R>(&self, work: impl FnOnce() -> R) -> (R, bool) {
         *self.turn.lock().unwrap() = true;
 
         if let Some(cpu) = &self.cpu {
@@ -96,7 +96,7 @@ impl Guards {
         }
 
         let before = self.triggered();
-        let result = work.poll(cx);
+        let result = work();
 
         if let Some(cpu) = &self.cpu {
             cpu.pause();
@@ -106,11 +106,35 @@ impl Guards {
 
         if self.triggered() {
             self.isolate.cancel_terminate_execution();
+        }
 
-            if !before {
-                // Nothing else may wake up what was terminated
-                cx.waker().wake_by_ref();
-            }
+        (result, self.triggered() && !before)
+    }
+
+    fn poll<F: Future>(&self, work: Pin<&mut F>, cx: &mut Context<'_>) -> Poll<F::Output> {
+        let (result, triggered) = self.turn(|| work.poll(cx));
+
+        if triggered {
+            // Nothing else may wake up what was terminated
+            cx.waker().wake_by_ref();
+        }
+
+        result
+    }
+
+    /// Runs `work`, which does not wait for anything, under the guards.
+    pub fn run<R>(
+        &self,
+        work: impl FnOnce() -> Result<R, TerminationReason>,
+    ) -> Result<R, TerminationReason> {
+        let (result, _) = self.turn(work);
+
+        if self.cpu.as_ref().is_some_and(|g| g.was_terminated()) {
+            return Err(TerminationReason::CpuTimeLimit);
+        }
+
+        if self.wall.was_triggered() {
+            return Err(TerminationReason::WallClockTimeout);
         }
 
         result
diff --git a/src/worker.rs b/src/worker.rs
index 4de401d..f0a9edb 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -554,18 +554,23 @@ impl Worker {
             TerminationReason::InitializationError(format!("Failed to setup env: {}", e))
         })?;
 
-        // Evaluate user script
-        runtime.evaluate(&script.code).map_err(|e| {
-            TerminationReason::Exception(format!("Script evaluation failed: {}", e))
-        })?;
-
-        // Setup ES Modules handler if `export default { fetch }` is used
-        // This takes priority over addEventListener('fetch', ...)
-        setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
-            TerminationReason::InitializationError(format!(
-                "Failed to setup ES modules handler: {}",
-                e
-            ))
+        // The limits hold for the top level of the script too
+        let guards = Guards::new(runtime.isolate.thread_safe_handle(), &runtime.limits);
+
+        guards.run(|| {
+            // Evaluate user script
+            runtime.evaluate(&script.code).map_err(|e| {
+                TerminationReason::Exception(format!("Script evaluation failed: {}", e))
+            })?;
+
+            // Setup ES Modules handler if `export default { fetch }` is used
+            // This takes priority over addEventListener('fetch', ...)
+            setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
+                TerminationReason::InitializationError(format!(
+                    "Failed to setup ES modules handler: {}",
+                    e
+                ))
+            })
         })?;
 
         // Get stream_manager for event loop
-- 
2.43.0


From 0fa4cc04804ed7b583d08fa18233b34236362e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:47 +0000
Subject: [PATCH 79/86] fix: no worker has SharedArrayBuffer or Atomics, as in
 the pool

---
 src/runtime/mod.rs | 3 +++
 src/worker.rs      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c6c5eb6..bc400b8 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -323,6 +323,9 @@ impl Runtime {
                     bindings::setup_response(scope);
                 }
 
+                // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+                bindings::setup_security_restrictions(scope);
+
                 v8::Global::new(scope.as_ref(), context)
             };
 
diff --git a/src/worker.rs b/src/worker.rs
index f0a9edb..cea445d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -218,6 +218,9 @@ impl WorkerBuilder {
                 bindings::setup_response(scope);
             }
 
+            // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+            bindings::setup_security_restrictions(scope);
+
             v8::Global::new(scope.as_ref(), context)
         };
 
-- 
2.43.0


From 12cef98f1ae8805aad9eaa57e377a71586f8f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 80/86] fix: a pool told to keep no contexts kept one for each
 isolate

---
 src/pool.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 33caa7e..0db828f 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -912,8 +912,11 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     if let Some(cached) = new_cached_context {
         let mut inner = isolate_arc.inner.lock().await;
 
-        let evicted = if inner.cached_contexts.len() >= inner.max_cached {
-            // LRU eviction: replace least recently used context
+        inner.cached_contexts.push(cached);
+
+        let evicted = if inner.cached_contexts.len() > inner.max_cached {
+            // LRU eviction: drop the least recently used context, which is this
+            // one if none is to be cached
             inner
                 .cached_contexts
                 .iter()
@@ -925,7 +928,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             None
         };
 
-        inner.cached_contexts.push(cached);
         drop(inner);
 
         if let Some(evicted) = evicted {
-- 
2.43.0


From b6bdba405356f07d51c919a19a1e194ea2bc8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 81/86] fix: after a worker had hit a limit of memory, its next
 event was ended too

---
 src/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index cea445d..94ef4e7 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -698,7 +698,8 @@ impl Worker {
         }
 
         // Check memory limit flag
-        if self.runtime.memory_limit_hit.load(Ordering::SeqCst) {
+        // (and forget it, as the next event is not the one that hit it)
+        if self.runtime.memory_limit_hit.swap(false, Ordering::SeqCst) {
             return Err(TerminationReason::MemoryLimit);
         }
 
-- 
2.43.0


From 61496744264f2a714dae928ccdc3d289924f630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 82/86] fix: a worker that reached the heap limit in a callback
 was never ended

---
 src/execution_context.rs      | 29 ++++++++++++++++++++++++++++-
 src/locker_managed_isolate.rs | 10 +++++++---
 src/runtime/mod.rs            |  5 ++---
 src/security/heap_limit.rs    |  5 +++++
 src/worker.rs                 |  5 ++++-
 5 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 1812858..b875f8b 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -52,6 +52,13 @@ unsafe fn try_lock_v8(
     Some(lmi.lock())
 }
 
+/// How often the isolate's heap limit was reached so far. Taken under the V8 lock
+/// before and after running JS, it tells whether that JS was terminated by it.
+fn heap_limit_hits(lmi_ptr: *mut LockerManagedIsolate) -> u32 {
+    // SAFETY: lmi_ptr is null or valid for request lifetime (pool-managed)
+    unsafe { lmi_ptr.as_ref() }.map_or(0, LockerManagedIsolate::heap_limit_hits)
+}
+
 /// A disposable execution context for running a worker script
 ///
 /// This includes:
@@ -1040,6 +1047,7 @@ impl ExecutionContext {
             // releasing the V8 mutex for other tasks during I/O waits.
             // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
             let _lock_guard = unsafe { try_lock_v8(lmi_ptr) };
+            let heap_limit_hits_before = heap_limit_hits(lmi_ptr);
 
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
@@ -1095,7 +1103,8 @@ impl ExecutionContext {
             waker.poll_grace(cx, &abort_config, abort_signaled_at);
 
             // A callback may have been terminated: nothing would wake us up after it
-            let terminated = self.is_terminated(wall_guard, cpu_guard);
+            let terminated = self.is_terminated(wall_guard, cpu_guard)
+                || heap_limit_hits(lmi_ptr) != heap_limit_hits_before;
 
             // 6. Not done yet — release fair queue and V8 lock.
             //    V8 mutex released, other requests can run on this isolate.
@@ -1159,6 +1168,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let heap_limit_hits_before = heap_limit_hits(lmi_ptr);
 
                 use std::pin::pin;
                 let result = unsafe {
@@ -1182,6 +1192,11 @@ impl ExecutionContext {
                     waiter.unlock();
                 }
 
+                // What it started may have been terminated: nothing would wake us up after it
+                if heap_limit_hits(lmi_ptr) != heap_limit_hits_before {
+                    return std::task::Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 std::task::Poll::Ready(result)
             })
             .await?;
@@ -1205,6 +1220,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let heap_limit_hits_before = heap_limit_hits(lmi_ptr);
 
                 use std::pin::pin;
                 let result = unsafe {
@@ -1225,6 +1241,11 @@ impl ExecutionContext {
                     waiter.unlock();
                 }
 
+                // What it started may have been terminated: nothing would wake us up after it
+                if heap_limit_hits(lmi_ptr) != heap_limit_hits_before {
+                    return std::task::Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 std::task::Poll::Ready(result)
             })
             .await?
@@ -1276,6 +1297,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let heap_limit_hits_before = heap_limit_hits(lmi_ptr);
 
                 use std::pin::pin;
                 let result: Result<(), String> = unsafe {
@@ -1361,6 +1383,11 @@ impl ExecutionContext {
                     waiter.unlock();
                 }
 
+                // What it started may have been terminated: nothing would wake us up after it
+                if heap_limit_hits(lmi_ptr) != heap_limit_hits_before {
+                    return std::task::Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 std::task::Poll::Ready(result)
             })
             .await?;
diff --git a/src/locker_managed_isolate.rs b/src/locker_managed_isolate.rs
index f413be5..4a0f71e 100644
--- a/src/locker_managed_isolate.rs
+++ b/src/locker_managed_isolate.rs
@@ -40,8 +40,7 @@ pub struct LockerManagedIsolate {
     /// Per-isolate (not global) to prevent cross-isolate contamination.
     pub pending_memory_delta: Arc<AtomicI64>,
     /// Heap limit state - must be kept alive for the isolate's lifetime
-    #[allow(dead_code)]
-    _heap_limit_state: Box<HeapLimitState>,
+    heap_limit_state: Box<HeapLimitState>,
 }
 
 impl LockerManagedIsolate {
@@ -115,7 +114,7 @@ impl LockerManagedIsolate {
             use_snapshot,
             deferred_destruction_queue: Arc::new(DeferredDestructionQueue::new()),
             pending_memory_delta: Arc::new(AtomicI64::new(0)),
-            _heap_limit_state: heap_limit_state,
+            heap_limit_state,
         }
     }
 
@@ -135,6 +134,11 @@ impl LockerManagedIsolate {
         (locker, js)
     }
 
+    /// How often the heap limit was reached so far
+    pub fn heap_limit_hits(&self) -> u32 {
+        self.heap_limit_state.hits()
+    }
+
     /// Check if memory limit was hit
     pub fn memory_limit_hit(&self) -> bool {
         self.memory_limit_hit
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index bc400b8..fe1a64e 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -154,8 +154,7 @@ pub struct Runtime {
     pub(crate) callback_notify: Arc<Notify>,
     /// Heap limit state - must be kept alive for the isolate's lifetime
     /// Dropped after isolate, so the callback pointer remains valid
-    #[allow(dead_code)]
-    _heap_limit_state: Box<HeapLimitState>,
+    pub(crate) heap_limit_state: Box<HeapLimitState>,
 }
 
 impl Runtime {
@@ -348,7 +347,7 @@ impl Runtime {
             memory_limit_hit,
             limits,
             callback_notify: callback_notify.clone(),
-            _heap_limit_state: heap_limit_state,
+            heap_limit_state,
         };
 
         (runtime, scheduler_rx, callback_tx, callback_notify)
diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index 8653517..08eebae 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -54,6 +54,11 @@ impl HeapLimitState {
             max_heap_bytes,
         }
     }
+
+    /// How often the limit was reached so far.
+    pub fn hits(&self) -> u32 {
+        self.invocation_count.load(Ordering::SeqCst)
+    }
 }
 
 /// Headroom given to V8 after calling `terminate_execution()`.
diff --git a/src/worker.rs b/src/worker.rs
index 94ef4e7..bd96d1f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -760,6 +760,7 @@ impl Worker {
 
         std::future::poll_fn(|cx| {
             waker.poll_closed(cx);
+            let heap_limit_hits = self.runtime.heap_limit_state.hits();
 
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
@@ -828,7 +829,9 @@ impl Worker {
             waker.poll_grace(cx, &abort_config, abort_signaled_at);
 
             // A callback may have been terminated: nothing would wake us up after it
-            if self.is_terminated(wall_guard, cpu_guard) {
+            if self.is_terminated(wall_guard, cpu_guard)
+                || self.runtime.heap_limit_state.hits() != heap_limit_hits
+            {
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
 
-- 
2.43.0


From 21326e05efa05dd56dfbd912e5ced66863b94254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 83/86] fix: the room given to end a worker at the heap limit
 was kept by the isolate, and doubled each time

---
 src/locker_managed_isolate.rs | 10 ++++++++++
 src/pool.rs                   |  3 +++
 src/security/heap_limit.rs    | 36 ++++++++++++++++++++++++++++++++++-
 3 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/locker_managed_isolate.rs b/src/locker_managed_isolate.rs
index 4a0f71e..9c86a43 100644
--- a/src/locker_managed_isolate.rs
+++ b/src/locker_managed_isolate.rs
@@ -139,6 +139,16 @@ impl LockerManagedIsolate {
         self.heap_limit_state.hits()
     }
 
+    /// Take back the room that was given to terminate a worker at the heap limit,
+    /// so that the next one does not get it.
+    pub fn restore_heap_limit(&mut self) {
+        if self.heap_limit_state.is_raised() {
+            let mut locker = v8::Locker::new(&mut self.isolate);
+            self.deferred_destruction_queue.process_all();
+            self.heap_limit_state.restore_limit(&mut locker);
+        }
+    }
+
     /// Check if memory limit was hit
     pub fn memory_limit_hit(&self) -> bool {
         self.memory_limit_hit
diff --git a/src/pool.rs b/src/pool.rs
index 0db828f..5411670 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -591,6 +591,9 @@ struct Slot(Arc<TaggedIsolate>);
 
 impl Drop for Slot {
     fn drop(&mut self) {
+        // SAFETY: the slot keeps the isolate, which only this thread uses
+        unsafe { (*self.0.isolate.get()).restore_heap_limit() };
+
         release_to_local_pool(&self.0);
     }
 }
diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index 08eebae..2eabfd1 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -21,7 +21,7 @@
 
 use std::ffi::{c_char, c_void};
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
 
 use v8::IsolateHandle;
 
@@ -38,6 +38,8 @@ pub struct HeapLimitState {
     pub invocation_count: AtomicU32,
     /// Maximum heap size in bytes (absolute limit)
     pub max_heap_bytes: usize,
+    /// The limit before room was given to terminate, 0 if none was
+    raised_from: AtomicUsize,
 }
 
 impl HeapLimitState {
@@ -52,6 +54,7 @@ impl HeapLimitState {
             memory_limit_hit,
             invocation_count: AtomicU32::new(0),
             max_heap_bytes,
+            raised_from: AtomicUsize::new(0),
         }
     }
 
@@ -59,6 +62,30 @@ impl HeapLimitState {
     pub fn hits(&self) -> u32 {
         self.invocation_count.load(Ordering::SeqCst)
     }
+
+    /// Whether room was given beyond the limit, and not taken back yet.
+    pub fn is_raised(&self) -> bool {
+        self.raised_from.load(Ordering::SeqCst) != 0
+    }
+
+    /// Take back the room that was given beyond the limit, when what was terminated is gone.
+    ///
+    /// `isolate` must be the one that this state was installed on.
+    pub fn restore_limit(&self, isolate: &mut v8::Isolate) {
+        let limit = self.raised_from.swap(0, Ordering::SeqCst);
+
+        if limit == 0 {
+            return;
+        }
+
+        // The limit cannot be restored to less than what is in use
+        isolate.low_memory_notification();
+        isolate.remove_near_heap_limit_callback(near_heap_limit_callback, limit);
+        isolate.add_near_heap_limit_callback(
+            near_heap_limit_callback,
+            self as *const HeapLimitState as *mut c_void,
+        );
+    }
 }
 
 /// Headroom given to V8 after calling `terminate_execution()`.
@@ -100,6 +127,13 @@ pub unsafe extern "C" fn near_heap_limit_callback(
         state.max_heap_bytes / (1024 * 1024)
     );
 
+    let _ = state.raised_from.compare_exchange(
+        0,
+        current_heap_limit,
+        Ordering::SeqCst,
+        Ordering::SeqCst,
+    );
+
     // Set the memory limit flag so the runner knows why execution stopped
     state.memory_limit_hit.store(true, Ordering::SeqCst);
 
-- 
2.43.0


From dbec36b9713671e339df800c01a07911123eb50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 84/86] fix: a stream whose source never ends its cancellation
 kept a pooled request of a client that had left

---
 src/execution_context.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index b875f8b..8daff92 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -924,7 +924,13 @@ impl ExecutionContext {
         let wall_guard = &guards.wall;
         let cpu_guard = &guards.cpu;
 
-        let work = self.await_event_loop(wall_guard, cpu_guard, EventLoopExit::FullyComplete, None);
+        // A client that left ends its stream within the grace period here too
+        let work = self.await_event_loop(
+            wall_guard,
+            cpu_guard,
+            EventLoopExit::FullyComplete,
+            Some(AbortConfig::default()),
+        );
         let result = guards.watch(work).await;
 
         self.check_termination_reason(
-- 
2.43.0


From f75509fc30ea25f50f9fed5abccda4078302398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 85/86] fix: an empty snapshot file left tasks on a lent
 isolate without the classes of the runtime

---
 src/worker.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index bd96d1f..27fc251 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -153,13 +153,8 @@ impl WorkerBuilder {
         // Create log callback that bypasses scheduler (calls ops.handle_log directly)
         let log_callback = bindings::log_callback_from_ops(&ops);
 
-        // Check if snapshot is available
-        use std::sync::OnceLock;
-        static USE_SNAPSHOT: OnceLock<bool> = OnceLock::new();
-        let use_snapshot = *USE_SNAPSHOT.get_or_init(|| {
-            const RUNTIME_SNAPSHOT_PATH: &str = env!("RUNTIME_SNAPSHOT_PATH");
-            std::path::Path::new(RUNTIME_SNAPSHOT_PATH).exists()
-        });
+        // Check if snapshot is available (an empty file is none)
+        let use_snapshot = crate::platform::get_snapshot().is_some();
 
         // Create context with bindings on the borrowed isolate
         let context = {
-- 
2.43.0


From 22f68d3b49b774ddd4015d3c0a675ce8e7c681a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 86/86] fix: a task on a lent isolate did not see which attempt
 it was

---
 src/worker.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 27fc251..a461186 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -316,6 +316,11 @@ impl WorkerBuilder {
                         let id_val = v8::String::new(scope, &task_init.task_id).unwrap();
                         event_obj.set(scope, id_key.into(), id_val.into());
 
+                        // Set attempt
+                        let attempt_key = v8::String::new(scope, "attempt").unwrap();
+                        let attempt_val = v8::Number::new(scope, task_init.attempt as f64);
+                        event_obj.set(scope, attempt_key.into(), attempt_val.into());
+
                         // Set payload if present
                         if let Some(payload) = &task_init.payload {
                             let payload_key = v8::String::new(scope, "payload").unwrap();
-- 
2.43.0

