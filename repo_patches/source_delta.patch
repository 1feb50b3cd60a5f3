From 7c42e25606a99bc76149ce114f4b662ac612b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 1/9] fix: swap of equal positions and opposite concurrent
 swaps no longer deadlock

---
 src/mut_elem.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mut_elem.rs b/src/mut_elem.rs
index 54139f5..d2301e6 100644
--- a/src/mut_elem.rs
+++ b/src/mut_elem.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::cmp::Ordering;
 use orx_concurrent_option::SOME;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -28,6 +29,16 @@ where
     /// assert_eq!(&vec, &[2, 1, 0, 3]);
     /// ```
     pub fn swap(&self, i: usize, j: usize) -> bool {
+        // handles are acquired in address order so that concurrent operations on two elements cannot deadlock
+        let (i, j) = match (self.get(i), self.get(j)) {
+            (Some(e_i), Some(e_j)) => match (e_i as *const ConcurrentElement<T>).cmp(&(e_j as _)) {
+                Ordering::Less => (i, j),
+                Ordering::Equal => return true,
+                Ordering::Greater => (j, i),
+            },
+            _ => return false,
+        };
+
         let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
         let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
 
-- 
2.43.0


From cfcdb6b5546e4719b7c708c8021aeb1d654f356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 2/9] fix: compare two concurrent elements while both are held

---
 src/common_traits/eq.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common_traits/eq.rs b/src/common_traits/eq.rs
index 37db614..3f34426 100644
--- a/src/common_traits/eq.rs
+++ b/src/common_traits/eq.rs
@@ -1,10 +1,16 @@
 use crate::{ConcurrentElement, ConcurrentSlice, ConcurrentVec};
+use core::cmp::Ordering;
 
 // elem
 impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        // both values are compared under their handles, which are acquired in address order
+        match (self as *const Self).cmp(&(other as *const Self)) {
+            Ordering::Less => self.map(|x| other.map(|y| x == y)),
+            Ordering::Equal => self.map(|x| x == x),
+            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
+        }
     }
 }
 
-- 
2.43.0


From 7d63c96279d692f1adf8ae201eac4c0f74958aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 3/9] fix: sharing the vector or its elements requires T: Send

---
 src/elem.rs | 5 +++++
 src/vec.rs  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elem.rs b/src/elem.rs
index 7f12c57..2dac391 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -10,6 +10,11 @@ use orx_concurrent_option::ConcurrentOption;
 /// [`vec.iter()`]: crate::ConcurrentVec::iter
 pub struct ConcurrentElement<T>(pub(crate) ConcurrentOption<T>);
 
+// values can be moved out of and into a shared element; hence, sharing requires `T: Send` as well
+unsafe impl<T: Send + Sync> Sync for ConcurrentElement<T> {}
+
+unsafe impl<T: Send> Send for ConcurrentElement<T> {}
+
 impl<T> From<ConcurrentOption<T>> for ConcurrentElement<T> {
     fn from(value: ConcurrentOption<T>) -> Self {
         Self(value)
diff --git a/src/vec.rs b/src/vec.rs
index 10606d6..666da5e 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -419,7 +419,7 @@ where
     }
 }
 
-unsafe impl<T: Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
+unsafe impl<T: Send + Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
     for ConcurrentVec<T, P>
 {
 }
-- 
2.43.0


From a0f2bdab87f7a9d2a607c38798eeb60e5735db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 4/9] fix: bound the length of exclusive operations by the
 capacity

---
 src/exclusive.rs | 4 ++--
 src/vec.rs       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index b7085e2..cd5c24a 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -7,7 +7,7 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.core.state().len()) };
+        unsafe { self.core.clear(self.reserved_len()) };
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
@@ -30,7 +30,7 @@ where
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
         unsafe {
             self.core
-                .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
+                .reserve_maximum_capacity(self.reserved_len(), new_maximum_capacity)
         }
     }
 }
diff --git a/src/vec.rs b/src/vec.rs
index 666da5e..85d654d 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -84,7 +84,7 @@ where
     /// Any `PinnedVec` implementation can be converted to a `ConcurrentVec` using the `From` trait.
     /// Similarly, underlying pinned vector can be obtained by calling the consuming `into_inner` method.
     pub fn into_inner(self) -> P {
-        let len = self.core.state().len();
+        let len = self.reserved_len();
         // # SAFETY: ConcurrentBag only allows to push to the end of the bag, keeping track of the length.
         // Therefore, the underlying pinned vector is in a valid condition at any given time.
         unsafe { self.core.into_inner(len) }
-- 
2.43.0


From 3a18deb17dc3773edee2fa3de715da97baabc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 5/9] fix: clear empties the slots of reused storage

---
 src/exclusive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index cd5c24a..4e6fee3 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -7,7 +7,12 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.reserved_len()) };
+        let len = self.reserved_len();
+        // slots must not look occupied afterwards, even if the storage reuses the memory
+        for elem in unsafe { self.core.iter_mut(len) } {
+            elem.0.exclusive_take();
+        }
+        unsafe { self.core.clear(len) };
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
-- 
2.43.0


From 86dd2fbcab22c5fb9f1e5e83d49a2e1c3c9e6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 6/9] fix: push_for_idx acquires its slot before calling the
 closure

---
 src/grow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grow.rs b/src/grow.rs
index c433a0d..89b3c13 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -156,10 +156,10 @@ where
         F: FnOnce(usize) -> T,
     {
         let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
-        let value = f(idx);
 
         // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
         let maybe = unsafe { self.core.single_item_as_ref(idx) };
+        let value = f(idx);
         unsafe { maybe.0.initialize_unchecked(value) };
 
         idx
-- 
2.43.0


From 755ebda35fd48b23f9af4a1d12eac02a04bbc271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 7/9] fix: len counts elements that are being accessed by other
 threads

---
 src/vec.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 85d654d..9a94c23 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -3,6 +3,7 @@ use crate::ConcurrentSlice;
 use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
+use orx_concurrent_option::State;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -128,9 +129,10 @@ where
         let iter = unsafe { self.core.iter_over_range(len..until) };
         let mut num_pushed = 0;
         for x in iter {
-            match x.0.is_some_with_order(Ordering::Relaxed) {
-                true => num_pushed += 1,
-                false => break,
+            match x.0.state(Ordering::Relaxed) {
+                State::None => break,
+                // an element that is being accessed by another thread is already written
+                State::Some | State::Reserved => num_pushed += 1,
             }
         }
         let new_len = len + num_pushed;
-- 
2.43.0


From 1e8bf0c0c6f438774d938a84448aa4b8794e6362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 8/9] fix: direct accessors find elements that are being
 accessed by other threads

---
 src/concurrent_slice/unsafe_api.rs |  6 ++++--
 src/unsafe_api.rs                  | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/concurrent_slice/unsafe_api.rs b/src/concurrent_slice/unsafe_api.rs
index 8aefdc2..7574cd8 100644
--- a/src/concurrent_slice/unsafe_api.rs
+++ b/src/concurrent_slice/unsafe_api.rs
@@ -254,8 +254,10 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let b = self.a + self.len;
-        unsafe { self.vec.core.iter_over_range(self.a..b) }
-            .flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        unsafe { self.vec.core.iter_over_range(self.a..b) }.flat_map(|x| unsafe {
+            x.0.as_ref_with_order(Ordering::SeqCst)
+                .or_else(|| x.0.as_ref())
+        })
     }
 
     // mut
diff --git a/src/unsafe_api.rs b/src/unsafe_api.rs
index 24c4f29..7788ef0 100644
--- a/src/unsafe_api.rs
+++ b/src/unsafe_api.rs
@@ -43,7 +43,10 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| {
+                    x.0.get_raw_with_order(Ordering::SeqCst)
+                        .or_else(|| x.0.get_raw())
+                })
             }
             false => None,
         }
@@ -159,7 +162,10 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = self.core.get(i);
-                maybe.and_then(|x| x.0.as_ref_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| {
+                    x.0.as_ref_with_order(Ordering::SeqCst)
+                        .or_else(|| x.0.as_ref())
+                })
             }
             false => None,
         }
@@ -270,7 +276,10 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let x = self.core.iter(self.reserved_len());
-        x.flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        x.flat_map(|x| unsafe {
+            x.0.as_ref_with_order(Ordering::SeqCst)
+                .or_else(|| x.0.as_ref())
+        })
     }
 
     // mut
@@ -308,7 +317,10 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_mut_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| {
+                    x.0.get_raw_mut_with_order(Ordering::SeqCst)
+                        .or_else(|| x.0.get_raw_mut())
+                })
             }
             false => None,
         }
-- 
2.43.0


From badb2ed527b9c7c631ae2d529440b9bad8cb7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 9/9] fix: batches that can never fit are rejected before
 claiming positions

---
 src/grow.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/grow.rs b/src/grow.rs
index 89b3c13..988f6a5 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -311,6 +311,7 @@ where
         Iter: Iterator<Item = T> + ExactSizeIterator,
         F: FnOnce(usize) -> IntoIter,
     {
+        self.assert_can_ever_fit(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = f(begin_idx).into_iter();
@@ -432,6 +433,7 @@ where
     where
         IntoIter: IntoIterator<Item = T>,
     {
+        self.assert_can_ever_fit(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = values.into_iter();
@@ -447,4 +449,14 @@ where
 
         begin_idx
     }
+
+    /// Panics if `num_items` positions can never be allocated; otherwise, claiming them could overflow
+    /// the number of reserved positions, and hence, hand out the same positions again.
+    #[inline(always)]
+    fn assert_can_ever_fit(&self, num_items: usize) {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "num_items exceeds the maximum capacity"
+        );
+    }
 }
-- 
2.43.0

