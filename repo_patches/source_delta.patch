From d2cdbb27b4fc438a0d74cdecf7ef6bda248a304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 1/8] fix: reset_index must forget the availability cached
 before the reset

---
 src/iterators/sync_iterators/cons_iter.rs | 1 +
 src/iterators/sync_iterators/work_iter.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 350cb27..ab67085 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -76,6 +76,7 @@ impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index b1a04d4..097d660 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -78,6 +78,7 @@ impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 }
\ No newline at end of file
-- 
2.43.0


From cd1e28add09fbe75c0783530d86439818fbfab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 2/8] fix: go_back across the start of the buffer lands on the
 right slot

---
 src/iterators/async_iterators/detached.rs | 2 +-
 src/iterators/sync_iterators/detached.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 5109dca..fae68f8 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -56,7 +56,7 @@ impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
         
         self.inner.inner_mut().set_local_index(
             match idx < count {
-                true => buf_len.unchecked_sub(count).unchecked_sub(idx),
+                true => buf_len.unchecked_sub(count.unchecked_sub(idx)),
                 false => idx.unchecked_sub(count)
             }
         );
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index dcecf0b..f645cf2 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -98,7 +98,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
         
         self.inner.set_local_index(
             match idx < count {
-                true => self.inner.buf_len().unchecked_sub(count).unchecked_sub(idx),
+                true => self.inner.buf_len().unchecked_sub(count.unchecked_sub(idx)),
                 false => idx.unchecked_sub(count)
             }
         );
-- 
2.43.0


From 5cade82ad22349e38f40036eb3e4960e0faea52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 3/8] fix: moving a detached iterator with
 set_index/reset_index invalidates its cached availability

---
 src/iterators/sync_iterators/detached.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index f645cf2..b2967cb 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -69,6 +69,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     #[inline]
     pub unsafe fn set_index(&mut self, index: usize) {
         self.inner.set_local_index(index);
+        self.inner.set_cached_avail(0);
     }
 
     /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor.
@@ -77,6 +78,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     pub fn reset_index(&mut self) {
         let new_idx = self.inner.succ_index();
         self.inner.set_local_index(new_idx);
+        self.inner.set_cached_avail(0);
     }
 
     /// Advances the iterator as in [`MRBIterator::advance()`], but does not modify the atomic counter,
-- 
2.43.0


From 9134675f69bc753ec5afb765edb27bafb39e3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 4/8] fix: a stack buffer split again resumes from its
 published indices

---
 src/iterators/sync_iterators/cons_iter.rs | 2 +-
 src/iterators/sync_iterators/prod_iter.rs | 2 +-
 src/iterators/sync_iterators/work_iter.rs | 2 +-
 src/ring_buffer/storage/mod.rs            | 3 +++
 src/ring_buffer/variants/concurrent_rb.rs | 3 +++
 5 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index ab67085..152a45a 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -65,7 +65,7 @@ impl<B: MutRB<Item = T>, T, const W: bool> MRBIterator for ConsIter<'_, B, W> {
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> Self {
         Self {
-            index: 0,
+            index: value.cons_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index b3eeb7e..81c2ce9 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -103,7 +103,7 @@ impl<B: MutRB<Item = T>, T> MRBIterator for ProdIter<'_, B> {
 impl<'buf, B: MutRB<Item = T>, T> ProdIter<'buf, B> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> Self {
         Self {
-            index: 0,
+            index: value.prod_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index 097d660..2601053 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -67,7 +67,7 @@ impl<B: MutRB<Item = T>, T> MRBIterator for WorkIter<'_, B> {
 impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> WorkIter<'buf, B> {
         Self {
-            index: 0,
+            index: value.work_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/ring_buffer/storage/mod.rs b/src/ring_buffer/storage/mod.rs
index cd9d717..d8c07f4 100644
--- a/src/ring_buffer/storage/mod.rs
+++ b/src/ring_buffer/storage/mod.rs
@@ -67,6 +67,9 @@ pub(crate) mod impl_splits {
                 self.set_work_alive(true);
                 self.set_cons_alive(true);
 
+                // A previous session may have had no worker: items not consumed yet go through this one.
+                self.set_work_index(self.cons_index());
+
                 let r = BufRef::from_ref(self);
                 (
                     ProdIter::new(r.clone()),
diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 12d48a5..ff2c7a3 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -95,6 +95,9 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
         self.set_work_alive(true);
         self.set_cons_alive(true);
 
+        // A previous session may have had no worker: items not consumed yet go through this one.
+        self.set_work_index(self.cons_index());
+
         let r = BufRef::from_ref(self);
         (
             AsyncProdIter::from_sync(ProdIter::new(r.clone())),
-- 
2.43.0


From ee896cc98c61d21abae90f45723d5e4d4f52c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 5/8] fix: a task awaiting an async operation is woken

---
 src/iterators/async_iterators/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterators/async_iterators/mod.rs b/src/iterators/async_iterators/mod.rs
index cb6ce4d..467d8fc 100644
--- a/src/iterators/async_iterators/mod.rs
+++ b/src/iterators/async_iterators/mod.rs
@@ -85,6 +85,9 @@ impl<I: AsyncIterator, P, O, const R: bool> Future for MRBFuture<'_, I, P, O, R>
             }
 
             if waker_registered {
+                // The iterators behind and ahead do not notify: ask to be polled again,
+                // so that the operation completes once it becomes possible.
+                cx.waker().wake_by_ref();
                 break Poll::Pending;
             }
             self.iter.register_waker(cx.waker());
-- 
2.43.0


From 61e398a15f674c9ea1bea77acb4ddc897b39591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 6/8] fix: the last iterator dropped concurrently releases the
 buffer exactly once

---
 src/ring_buffer/variants/concurrent_rb.rs     | 46 ++++++++++++-------
 src/ring_buffer/variants/local_rb.rs          | 15 ++++--
 src/ring_buffer/variants/ring_buffer_trait.rs | 10 ++--
 src/ring_buffer/wrappers/buf_ref.rs           | 38 ++++-----------
 4 files changed, 57 insertions(+), 52 deletions(-)

diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index ff2c7a3..87ae5da 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -1,7 +1,7 @@
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
-use core::sync::atomic::Ordering::{Acquire, Release};
-use core::sync::atomic::{AtomicBool, AtomicUsize};
+use core::sync::atomic::Ordering::{AcqRel, Acquire, Release};
+use core::sync::atomic::{AtomicU8, AtomicUsize};
 
 #[cfg(any(feature = "async", doc))]
 use crate::iterators::{
@@ -26,6 +26,10 @@ use crate::{
 };
 use crate::ring_buffer::storage::impl_splits::impl_splits;
 
+const PROD_ALIVE: u8 = 1;
+const WORK_ALIVE: u8 = 1 << 1;
+const CONS_ALIVE: u8 = 1 << 2;
+
 /// Concurrent mutable ring buffer. This buffer is useful for implementing types.
 /// For more direct usage, consider using one of the following alternatives:
 /// - [`crate::ConcurrentHeapRB`]
@@ -38,9 +42,8 @@ pub struct ConcurrentMutRingBuf<S: Storage> {
     work_idx: CachePadded<AtomicUsize>,
     cons_idx: CachePadded<AtomicUsize>,
 
-    prod_alive: AtomicBool,
-    work_alive: AtomicBool,
-    cons_alive: AtomicBool,
+    /// Which iterators are alive. Kept in one place, so that only one of them can find out to be the last.
+    alive: AtomicU8,
 }
 
 impl<S: Storage<Item = T>, T> MutRB for ConcurrentMutRingBuf<S> {
@@ -132,9 +135,18 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
             work_idx: CachePadded::new(0.into()),
             cons_idx: CachePadded::new(0.into()),
 
-            prod_alive: AtomicBool::default(),
-            work_alive: AtomicBool::default(),
-            cons_alive: AtomicBool::default()
+            alive: AtomicU8::default()
+        }
+    }
+}
+
+impl<S: Storage> ConcurrentMutRingBuf<S> {
+    fn set_alive(&self, who: u8, alive: bool) -> bool {
+        if alive {
+            self.alive.fetch_or(who, AcqRel);
+            false
+        } else {
+            self.alive.fetch_and(!who, AcqRel) == who
         }
     }
 }
@@ -171,27 +183,27 @@ impl<S: Storage> IterManager for ConcurrentMutRingBuf<S> {
     }
 
     fn prod_alive(&self) -> bool {
-        self.prod_alive.load(Acquire)
+        self.alive.load(Acquire) & PROD_ALIVE != 0
     }
 
     fn work_alive(&self) -> bool {
-        self.work_alive.load(Acquire)
+        self.alive.load(Acquire) & WORK_ALIVE != 0
     }
 
     fn cons_alive(&self) -> bool {
-        self.cons_alive.load(Acquire)
+        self.alive.load(Acquire) & CONS_ALIVE != 0
     }
 
-    fn set_prod_alive(&self, alive: bool) {
-        self.prod_alive.store(alive, Release);
+    fn set_prod_alive(&self, alive: bool) -> bool {
+        self.set_alive(PROD_ALIVE, alive)
     }
 
-    fn set_work_alive(&self, alive: bool) {
-        self.work_alive.store(alive, Release);
+    fn set_work_alive(&self, alive: bool) -> bool {
+        self.set_alive(WORK_ALIVE, alive)
     }
 
-    fn set_cons_alive(&self, alive: bool) {
-        self.cons_alive.store(alive, Release);
+    fn set_cons_alive(&self, alive: bool) -> bool {
+        self.set_alive(CONS_ALIVE, alive)
     }
 }
 
diff --git a/src/ring_buffer/variants/local_rb.rs b/src/ring_buffer/variants/local_rb.rs
index d94d5bb..46a6547 100644
--- a/src/ring_buffer/variants/local_rb.rs
+++ b/src/ring_buffer/variants/local_rb.rs
@@ -60,6 +60,12 @@ impl<S: Storage<Item = T>, T> LocalMutRingBuf<S> {
     }
 }
 
+impl<S: Storage> LocalMutRingBuf<S> {
+    fn all_dead(&self) -> bool {
+        !self.prod_alive() && !self.work_alive() && !self.cons_alive()
+    }
+}
+
 impl<S: Storage> IterManager for LocalMutRingBuf<S> {
     #[inline]
     fn prod_index(&self) -> usize {
@@ -103,16 +109,19 @@ impl<S: Storage> IterManager for LocalMutRingBuf<S> {
         unsafe { *self.cons_alive.get() }
     }
 
-    fn set_prod_alive(&self, alive: bool) {
+    fn set_prod_alive(&self, alive: bool) -> bool {
         unsafe { *self.prod_alive.get() = alive; }
+        self.all_dead()
     }
 
-    fn set_work_alive(&self, alive: bool) {
+    fn set_work_alive(&self, alive: bool) -> bool {
         unsafe { *self.work_alive.get() = alive; }
+        self.all_dead()
     }
 
-    fn set_cons_alive(&self, alive: bool) {
+    fn set_cons_alive(&self, alive: bool) -> bool {
         unsafe { *self.cons_alive.get() = alive; }
+        self.all_dead()
     }
 }
 
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index 2ef5e49..fa2947d 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -21,9 +21,13 @@ pub trait IterManager {
     fn prod_alive(&self) -> bool;
     fn work_alive(&self) -> bool;
     fn cons_alive(&self) -> bool;
-    fn set_prod_alive(&self, alive: bool);
-    fn set_work_alive(&self, alive: bool);
-    fn set_cons_alive(&self, alive: bool);
+
+    /// Sets the liveness of the producer. Returns `true` if this call marked the last alive iterator as dead.
+    fn set_prod_alive(&self, alive: bool) -> bool;
+    /// Sets the liveness of the worker. Returns `true` if this call marked the last alive iterator as dead.
+    fn set_work_alive(&self, alive: bool) -> bool;
+    /// Sets the liveness of the consumer. Returns `true` if this call marked the last alive iterator as dead.
+    fn set_cons_alive(&self, alive: bool) -> bool;
 }
 
 /// Trait used to manage storage.
diff --git a/src/ring_buffer/wrappers/buf_ref.rs b/src/ring_buffer/wrappers/buf_ref.rs
index bd08651..2dad533 100644
--- a/src/ring_buffer/wrappers/buf_ref.rs
+++ b/src/ring_buffer/wrappers/buf_ref.rs
@@ -4,8 +4,6 @@ use alloc::boxed::Box;
 use core::marker::PhantomData;
 use core::ops::Deref;
 use core::ptr::NonNull;
-use core::sync::atomic::fence;
-use core::sync::atomic::Ordering::SeqCst;
 
 pub struct BufRef<'buf, B> {
     inner: NonNull<B>,
@@ -66,44 +64,26 @@ impl<B> Deref for BufRef<'_, B> {
 
 impl<B: IterManager> BufRef<'_, B> {
     pub(crate) fn set_prod_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_prod_alive(alive);
+        let last = unsafe { self.inner.as_ref().set_prod_alive(alive) };
 
-            let cond = !self.inner.as_ref().work_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+        if last {
+            self.drop();
         }
     }
 
     pub(crate) fn set_work_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_work_alive(alive);
-
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
+        let last = unsafe { self.inner.as_ref().set_work_alive(alive) };
 
-            if cond {
-                self.drop();
-            }
+        if last {
+            self.drop();
         }
     }
 
     pub(crate) fn set_cons_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_cons_alive(alive);
-
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().work_alive();
-            fence(SeqCst);
+        let last = unsafe { self.inner.as_ref().set_cons_alive(alive) };
 
-            if cond {
-                self.drop();
-            }
+        if last {
+            self.drop();
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 25f3d7b3c6c8aae54bc7aab65da12ea8b277eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 7/8] fix: only iterators of concurrent buffers over sendable
 items are Send

---
 src/iterators/async_iterators/cons_iter.rs | 2 +-
 src/iterators/async_iterators/detached.rs  | 2 +-
 src/iterators/async_iterators/prod_iter.rs | 2 +-
 src/iterators/async_iterators/work_iter.rs | 2 +-
 src/iterators/sync_iterators/cons_iter.rs  | 2 +-
 src/iterators/sync_iterators/detached.rs   | 2 +-
 src/iterators/sync_iterators/prod_iter.rs  | 2 +-
 src/iterators/sync_iterators/work_iter.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/iterators/async_iterators/cons_iter.rs b/src/iterators/async_iterators/cons_iter.rs
index 6b86a43..9d74780 100644
--- a/src/iterators/async_iterators/cons_iter.rs
+++ b/src/iterators/async_iterators/cons_iter.rs
@@ -15,7 +15,7 @@ pub struct AsyncConsIter<'buf, B: MutRB, const W: bool> {
     inner: ConsIter<'buf, B, W>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for AsyncConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for AsyncConsIter<'_, B, W> {}
 
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> AsyncIterator for AsyncConsIter<'buf, B, W> {
     type I = ConsIter<'buf, B, W>;
diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index fae68f8..20cf168 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -15,7 +15,7 @@ pub struct AsyncDetached<I: AsyncIterator, B: MutRB> {
     phantom_data: PhantomData<B>
 }
 
-unsafe impl<I: AsyncIterator, B: MutRB> Send for AsyncDetached<I, B> {}
+unsafe impl<I: AsyncIterator + Send, B: MutRB> Send for AsyncDetached<I, B> {}
 
 impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
        
diff --git a/src/iterators/async_iterators/prod_iter.rs b/src/iterators/async_iterators/prod_iter.rs
index c213a5d..0e82641 100644
--- a/src/iterators/async_iterators/prod_iter.rs
+++ b/src/iterators/async_iterators/prod_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncProdIter<'buf, B: MutRB> {
     inner: ProdIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncProdIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncProdIter<'buf, B> {
     type I = ProdIter<'buf, B>;
diff --git a/src/iterators/async_iterators/work_iter.rs b/src/iterators/async_iterators/work_iter.rs
index 719df6a..0b19bbb 100644
--- a/src/iterators/async_iterators/work_iter.rs
+++ b/src/iterators/async_iterators/work_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncWorkIter<'buf, B: MutRB> {
     pub(crate) inner: WorkIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncWorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncWorkIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncWorkIter<'buf, B> {
     type I = WorkIter<'buf, B>;
diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 152a45a..bb0e25c 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -17,7 +17,7 @@ pub struct ConsIter<'buf, B: MutRB, const W: bool> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for ConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for ConsIter<'_, B, W> {}
 
 impl<B: MutRB + IterManager, const W: bool> Drop for ConsIter<'_, B, W> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index b2967cb..f8ec6ce 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -30,7 +30,7 @@ pub struct Detached<I: MRBIterator> {
     inner: I,
 }
 
-unsafe impl<I: MRBIterator> Send for Detached<I> {}
+unsafe impl<I: MRBIterator + Send> Send for Detached<I> {}
 
 
 impl<T, I: MRBIterator<Item = T>> Detached<I> {
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index 81c2ce9..b6a3d6e 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -60,7 +60,7 @@ pub struct ProdIter<'buf, B: MutRB> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for ProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for ProdIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for ProdIter<'_, B> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index 2601053..ead13a4 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -24,7 +24,7 @@ pub struct WorkIter<'buf, B: MutRB> {
     pub(crate) buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for WorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for WorkIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for WorkIter<'_, B> {
     fn drop(&mut self) {
-- 
2.43.0


From f796fee1b824a3a1045d617572df6135cb0b3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 8/8] fix: vmem maps one memory object twice and owns its items

---
 src/ring_buffer/storage/heap/mod.rs         | 17 +++-
 src/ring_buffer/storage/heap/vmem_helper.rs | 98 ++++++++++++++++-----
 2 files changed, 90 insertions(+), 25 deletions(-)

diff --git a/src/ring_buffer/storage/heap/mod.rs b/src/ring_buffer/storage/heap/mod.rs
index 4281335..5544e4b 100644
--- a/src/ring_buffer/storage/heap/mod.rs
+++ b/src/ring_buffer/storage/heap/mod.rs
@@ -20,7 +20,10 @@ impl <T> Drop for HeapStorage<T> {
     fn drop(&mut self) {
         unsafe {
             #[cfg(feature = "vmem")]
-            libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            {
+                core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
+                libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            }
 
             #[cfg(not(feature = "vmem"))]
             let _ = Box::from_raw(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
@@ -31,11 +34,17 @@ impl <T> Drop for HeapStorage<T> {
 impl<T> HeapStorage<T> {
     #[cfg(feature = "vmem")]
     fn new(value: Box<[UnsafeSyncCell<T>]>) -> Self {
-        let r = vmem_helper::new(&value);
+        let inner = vmem_helper::new(&value);
+        let len = value.len();
+
+        // Items have been moved: free the box, but do not drop them.
+        unsafe {
+            drop(Box::from_raw(Box::into_raw(value) as *mut [core::mem::ManuallyDrop<UnsafeSyncCell<T>>]));
+        }
 
         Self {
-            inner: r,
-            len: value.len(),
+            inner,
+            len,
         }
     }
 
diff --git a/src/ring_buffer/storage/heap/vmem_helper.rs b/src/ring_buffer/storage/heap/vmem_helper.rs
index dcc287e..ab8a398 100644
--- a/src/ring_buffer/storage/heap/vmem_helper.rs
+++ b/src/ring_buffer/storage/heap/vmem_helper.rs
@@ -21,32 +21,88 @@ pub fn get_page_size_mul(min_size: usize) -> usize {
     min_size.div_ceil(page_size) * page_size
 }
 
+/// Creates an anonymous memory object, which can be mapped more than once.
+#[cfg(any(target_os = "linux", target_os = "android"))]
+unsafe fn memory_object() -> core::ffi::c_int {
+    libc::memfd_create(c"mutringbuf".as_ptr(), libc::MFD_CLOEXEC)
+}
+
+/// Creates an anonymous memory object, which can be mapped more than once.
+#[cfg(all(unix, not(any(target_os = "linux", target_os = "android"))))]
+unsafe fn memory_object() -> core::ffi::c_int {
+    // A name is needed only between these two calls.
+    let mut name = *b"/mutringbuf-00000000\0";
+    let mut id = libc::getpid() as u32 ^ &name as *const _ as usize as u32;
+
+    loop {
+        for i in 0..8 {
+            name[12 + i] = b"0123456789abcdef"[(id >> (4 * i)) as usize & 0xf];
+        }
+        let fd = libc::shm_open(name.as_ptr() as _, libc::O_RDWR | libc::O_CREAT | libc::O_EXCL, 0o600);
+        if fd >= 0 {
+            libc::shm_unlink(name.as_ptr() as _);
+            return fd;
+        }
+        id = id.wrapping_add(1);
+        if id & 0xff == 0 {
+            return -1;
+        }
+    }
+}
+
+/// Moves the items to a memory object mapped twice: each slot is reachable at two addresses,
+/// one buffer length apart. The caller must not use (nor drop) the items of `value` afterwards.
 pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
     let page_size = page_size();
     assert_eq!(value.len() % page_size, 0, "must be a multiple of page size, which is: {}.", page_size);
-    
+
+    let size = size_of_val(value);
+    if size == 0 {
+        return ptr::NonNull::dangling().as_ptr();
+    }
+
     unsafe {
-        let size = size_of_val(value);
-        
-        let buffer = libc::mmap(
-            ptr::null_mut(),
-            2 * size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
-            -1, 0
-        );
-        
-        libc::mmap(
-            buffer.byte_add(size),
-            size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED,
-            -1, 0
-        );
+        let fd = memory_object();
+        assert!(fd >= 0, "cannot create a memory object.");
+
+        let mut buffer = libc::MAP_FAILED;
+
+        if libc::ftruncate(fd, size as libc::off_t) == 0 {
+            // Reserve room for both views, then map the object over each half.
+            buffer = libc::mmap(
+                ptr::null_mut(),
+                2 * size as libc::size_t,
+                libc::PROT_NONE,
+                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
+                -1, 0
+            );
+        }
+
+        if buffer != libc::MAP_FAILED {
+            for view in [buffer, buffer.byte_add(size)] {
+                let r = libc::mmap(
+                    view,
+                    size as libc::size_t,
+                    libc::PROT_READ | libc::PROT_WRITE,
+                    libc::MAP_SHARED | libc::MAP_FIXED,
+                    fd, 0
+                );
+
+                if r == libc::MAP_FAILED {
+                    libc::munmap(buffer, 2 * size as libc::size_t);
+                    buffer = libc::MAP_FAILED;
+                    break;
+                }
+            }
+        }
+
+        // The mappings keep the object alive.
+        libc::close(fd);
+        assert!(buffer != libc::MAP_FAILED, "cannot map the buffer.");
 
         let r = buffer as *mut UnsafeSyncCell<T>;
-        libc::memcpy(value.as_ptr() as _, r as _, size_of_val(value));
-        
+        ptr::copy_nonoverlapping(value.as_ptr(), r, value.len());
+
         r
     }
-}
\ No newline at end of file
+}
-- 
2.43.0

