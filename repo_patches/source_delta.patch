From f0a6af43bc0d79c043993582bb270c37e905b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 1/7] fix: cloning a parts iterator keeps the capacity its
 deque relies on

The derived Clone sized the deque for the items present, so next()/next_back()
on a clone tripped the 'deque doesn't need to re-allocate' assertion.
---
 src/internal/bin_parts_iter.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/internal/bin_parts_iter.rs b/src/internal/bin_parts_iter.rs
index e9b8871..e78866f 100644
--- a/src/internal/bin_parts_iter.rs
+++ b/src/internal/bin_parts_iter.rs
@@ -17,7 +17,6 @@ pub trait BinarySplitOff {
 
 /// An iterator over parts of an initial whole. Parts are obtained by repeatedly
 /// splitting off left or right halves.
-#[derive(Clone)]
 pub struct BinaryPartsIter<S> {
     num_parts: usize,
     num_yielded_front: usize,
@@ -95,6 +94,21 @@ pub struct BinaryPartsIter<S> {
 // }
 pub unsafe trait SplitAsSlice<T>: BinarySplitOff + Deref<Target=[T]> { }
 
+impl<S: Clone> Clone for BinaryPartsIter<S> {
+    fn clone(&self) -> Self {
+        // Not derived b/c VecDeque's clone only allocates for the items present,
+        // while next() and next_back() rely on the deque never needing to grow.
+        let mut deque = VecDeque::with_capacity(self.deque.capacity());
+        deque.extend(self.deque.iter().cloned());
+        Self {
+            num_parts: self.num_parts,
+            num_yielded_front: self.num_yielded_front,
+            num_yielded_back: self.num_yielded_back,
+            deque,
+        }
+    }
+}
+
 impl<S> BinaryPartsIter<S> {
     pub fn new(slice: S, num_parts: usize) -> Self {
         assert_ne!(0, num_parts, "num_parts > 0");
-- 
2.43.0


From 9fd2ffe38780d15c50517f923087e7dc3e09b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 2/7] fix: don't leak the weak data guard reference of each
 ArcSliceData

Every ArcSliceData leaked a Box<Weak<DataGuard>>, and with it the memory of the
DataGuard; another pair was leaked each time a guard had to be re-created.
---
 src/arc/arc_slice.rs | 76 ++++++++++++++++++++++++++------------------
 src/internal/gate.rs | 11 +++++++
 2 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 78c7ca9..65d2e0e 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -1,8 +1,10 @@
 use core::{
+    cell::UnsafeCell,
     iter::FusedIterator,
     marker::PhantomData,
     mem,
     ops::Deref,
+    panic::RefUnwindSafe,
     ptr::{self, NonNull},
     slice,
     sync::atomic::{AtomicPtr, Ordering},
@@ -37,10 +39,7 @@ pub (in crate::arc) struct ArcSliceData<T> {
     // Ditto left_child on really AtomicPtr<Self>
     right_child: AtomicPtr<()>,
     parent: Weak<Self>,
-    // Obtained via Box<Weak<DataGuard>>::into_raw(). Could instead do this
-    // as an AtomicPtr<DataGuard> obtained via Weak<DataGuard>::into_raw(),
-    // but avoiding using of unstable Weak::into_raw.
-    guard: AtomicPtr<Weak<DataGuard>>,
+    guard: DataGuardCell,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
 }
@@ -57,6 +56,13 @@ struct DataGuard {
     downgrade_gate: Gate,
 }
 
+/// A weak reference to the current DataGuard of some ArcSliceData, if any.
+struct DataGuardCell {
+    // Only accessed while holding lock.
+    guard: UnsafeCell<Weak<DataGuard>>,
+    lock: Gate,
+}
+
 /// An atomically reference counted slice that tracks reference counts
 /// per subslice.
 pub struct ArcSlice<T> {
@@ -93,7 +99,6 @@ impl<T> ArcSliceData<T> {
     }
 
     fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Weak<Self>) -> Self {
-        let guard = AtomicPtr::new(Box::into_raw(Box::new(Weak::new())) as _);
         Self {
             ptr,
             len,
@@ -101,7 +106,7 @@ impl<T> ArcSliceData<T> {
             parent,
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
-            guard,
+            guard: DataGuardCell::new(),
             phantom_item: PhantomData,
             phantom_child: PhantomData,
         }
@@ -284,39 +289,48 @@ impl<T> Deref for ArcSliceData<T> {
 
 impl DataGuard {
     fn guard<T>(data: &ArcSliceData<T>) -> Arc<Self> {
-        let mut existing_guard_ptr = data.guard.load(Ordering::Acquire);
-        // We guarantee that ArcSliceData.guard is always a valid pointer
-        let mut existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-        while existing_guard.is_none() {
-            // No reference to a live existing guard. We'll try constructing
-            // a new guard as we do for RcSliceData and then atomically
-            // swapping the new guard into place.
+        data.guard.get().unwrap_or_else(|| {
+            // No live existing guard. Construct a new one.
             let parent_guard = data.parent.upgrade()
                 .map(|parent_data| Self::guard(&parent_data));
-            let guard = Arc::new(Self {
+            data.guard.get_or_set(Arc::new(Self {
                 _parent: parent_guard,
                 clone_child_gate: Gate::new(),
                 downgrade_gate: Gate::new(),
-            });
-            let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
-            let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
-            if prev_guard_ptr == existing_guard_ptr {
-                // Swap succeeded. Set existing_guard to the guard we just
-                // successfully created to exit the loop.
-                existing_guard = Some(guard);
-            } else {
-                // Uh oh! Swap failed. We must've just lost a race to guard this
-                // slice data. Reconstitue our guard_ptr to drop it, then keep
-                // looping until we manage to observe a live existing guard.
-                unsafe { Box::from_raw(guard_ptr); }
-                existing_guard_ptr = prev_guard_ptr;
-                existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-            }
-        }
-        existing_guard.unwrap_or_else(|| unreachable!())
+            }))
+        })
     }
 }
 
+impl DataGuardCell {
+    fn new() -> Self {
+        Self { guard: UnsafeCell::new(Weak::new()), lock: Gate::new() }
+    }
+
+    fn get(&self) -> Option<Arc<DataGuard>> {
+        let _latch = self.lock.close();
+        // Safe b/c we hold the lock.
+        unsafe { (*self.guard.get()).upgrade() }
+    }
+
+    /// Return the live existing guard if any (i.e. if we just lost a race to
+    /// guard this slice data). Otherwise set and return the given guard.
+    fn get_or_set(&self, new_guard: Arc<DataGuard>) -> Arc<DataGuard> {
+        let _latch = self.lock.close();
+        // Safe b/c we hold the lock.
+        let guard = unsafe { &mut *self.guard.get() };
+        guard.upgrade().unwrap_or_else(|| {
+            *guard = Arc::downgrade(&new_guard);
+            new_guard
+        })
+    }
+}
+
+// All access to the contents of a DataGuardCell happens while holding its
+// lock, and nothing can panic while the lock is held.
+unsafe impl Sync for DataGuardCell { }
+impl RefUnwindSafe for DataGuardCell { }
+
 impl<T> ArcSlice<T> {
     pub (in crate::arc) fn from_data(data: Arc<ArcSliceData<T>>) -> Self {
         let data_guard = DataGuard::guard(&data);
diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index b91bc2e..2ac4197 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -16,6 +16,17 @@ impl Gate {
         while self.is_closed.load(Ordering::SeqCst) {}
     }
 
+    /// Close this gate, waiting for it to be open first. Lets a Gate act as a
+    /// simple lock.
+    pub fn close(&self) -> Latch<'_> {
+        loop {
+            if let Some(latch) = self.try_close() {
+                return latch;
+            }
+            self.wait_till_open();
+        }
+    }
+
     pub fn try_close(&self) -> Option<Latch<'_>> {
         if self.is_closed.swap(true, Ordering::SeqCst) {
             None
-- 
2.43.0


From d80d78a4de4c9c8eb90f80b085206312fffc8584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 3/7] fix: ArcSlice::get_mut must notice every weak ref to the
 slice or a part of it

A WeakSlice of a descendant whose ArcSlice was already dropped went unnoticed,
and so did a WeakSlice of the slice itself made through an earlier DataGuard.
Look for weak refs on the slice data instead of on its current guard.
---
 src/arc/arc_slice.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 65d2e0e..1de188a 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -44,8 +44,8 @@ pub (in crate::arc) struct ArcSliceData<T> {
     phantom_child: PhantomData<Self>,
 }
 
-/// Signals the presence of child ArcSlices or WeakSlices for the same
-/// data subslice. Part of detecting which mutations are possible.
+/// Signals the presence of child ArcSlices for the same data subslice.
+/// Part of detecting which mutations are possible.
 struct DataGuard {
     // Not used except in the fact that a child DataGuard keeps its parent
     // DataGuard alive.
@@ -74,8 +74,6 @@ pub struct ArcSlice<T> {
 /// to std::sync::Weak<[T]>.
 pub struct WeakSlice<T> {
     data: Weak<ArcSliceData<T>>,
-    // Not used except as part of signaling the presence of WeakSlices to ArcSlice:;get_mut
-    _data_guard: Weak<DataGuard>,
 }
 
 /// A double-ended iterator over roughly-even subslices of a starting ArcSlice.
@@ -209,6 +207,24 @@ impl<T> ArcSliceData<T> {
         (ptr, self.len - (self.len >> 1))
     }
 
+    /// Are there any WeakSlices for this ArcSliceData or any of its descendants?
+    fn has_weak_slices(self: &Arc<Self>) -> bool {
+        // Besides any WeakSlices, each of our children holds one weak ref to us.
+        let mut child_refs = 0;
+        for child in &[&self.left_child, &self.right_child] {
+            let child = child.load(Ordering::Acquire);
+            if !child.is_null() {
+                child_refs += 1;
+                // We own a strong ref to child, so it outlives our borrow of it here.
+                let child = unsafe { mem::ManuallyDrop::new(Arc::from_raw(child as *const Self)) };
+                if child.has_weak_slices() {
+                    return true;
+                }
+            }
+        }
+        Arc::weak_count(self) != child_refs
+    }
+
     /// Convert this ArcSliceData into an ArcSliceMut. Unsafe b/c calling
     /// code must ensure that there are no strong refs to any other ArcSliceData
     /// overlapping this one.
@@ -376,12 +392,10 @@ impl<T> ArcSlice<T> {
     pub fn get_mut(this: &mut Self) -> Option<&mut [T]> {
         // We do the same basic checks as RcSlice::get_mut, but we also have to
         // avoid race conditions while doing so. We solve this w/ short-lived locks.
-        // TODO: Ack! Descendant WeakSlices create unsoundness here for the same
-        // reason they do w/ RcSlice::get_mut. Refactor!
 
         // Check for no weak refs first.
         this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if 1 == Arc::weak_count(&this.data_guard) {
+            if !this.data.has_weak_slices() {
                 this.clone_child_gate().try_close().and_then(|_clone_child_latch|
                     if 1 == Arc::strong_count(&this.data_guard) {
                         if 1 == Arc::strong_count(&this.data) {
@@ -420,7 +434,7 @@ impl<T> ArcSlice<T> {
 
     pub fn downgrade(this: &Self) -> WeakSlice<T> {
         this.downgrade_gate().wait_till_open();
-        WeakSlice { data: Arc::downgrade(&this.data), _data_guard: Arc::downgrade(&this.data_guard) }
+        WeakSlice { data: Arc::downgrade(&this.data) }
     }
 
     // TODO: unsplit
@@ -481,7 +495,7 @@ impl<T> WeakSlice<T> {
     /// Constructs a new `WeakSlice<T>`, without allocating any memory.
     /// Calling `upgrade` on the return value always gives `None`.
     pub fn new() -> Self {
-        Self { data: Weak::new(), _data_guard: Weak::new() }
+        Self { data: Weak::new() }
     }
 
     pub fn upgrade(&self) -> Option<ArcSlice<T>> {
@@ -493,7 +507,7 @@ impl<T> WeakSlice<T> {
 
 impl<T> Clone for WeakSlice<T> {
     fn clone(&self) -> Self {
-        Self { data: self.data.clone(), _data_guard: self._data_guard.clone() }
+        Self { data: self.data.clone() }
     }
 }
 
-- 
2.43.0


From 056b6e78a7a86aeb2baa7cd7bc841ffeb4f96e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 4/7] fix: ArcSlice::get_mut must not miss a concurrent
 downgrade

downgrade() waited for the downgrade gate before creating the weak ref, so a
get_mut could start, find no weak refs, and then find no strong refs either
once the downgraded ArcSlice was dropped. Downgrading a descendant didn't look
at the gate of the ancestor at all. Count downgrades instead, and have get_mut
check that there were none since it looked for weak refs.
---
 src/arc/arc_slice.rs | 58 ++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 1de188a..0bbd4e1 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -7,7 +7,7 @@ use core::{
     panic::RefUnwindSafe,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{AtomicPtr, Ordering},
+    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -47,13 +47,12 @@ pub (in crate::arc) struct ArcSliceData<T> {
 /// Signals the presence of child ArcSlices for the same data subslice.
 /// Part of detecting which mutations are possible.
 struct DataGuard {
-    // Not used except in the fact that a child DataGuard keeps its parent
-    // DataGuard alive.
-    _parent: Option<Arc<Self>>,
+    // A child DataGuard keeps its parent DataGuard alive.
+    parent: Option<Arc<Self>>,
     // A Gate controlling whether clone_left and clone_right are allowed
     clone_child_gate: Gate,
-    // A Gate controlling whether downgrade is allowed
-    downgrade_gate: Gate,
+    // Counts calls to downgrade for this subslice or any of its descendants
+    num_downgrades: AtomicUsize,
 }
 
 /// A weak reference to the current DataGuard of some ArcSliceData, if any.
@@ -310,9 +309,9 @@ impl DataGuard {
             let parent_guard = data.parent.upgrade()
                 .map(|parent_data| Self::guard(&parent_data));
             data.guard.get_or_set(Arc::new(Self {
-                _parent: parent_guard,
+                parent: parent_guard,
                 clone_child_gate: Gate::new(),
-                downgrade_gate: Gate::new(),
+                num_downgrades: AtomicUsize::new(0),
             }))
         })
     }
@@ -393,21 +392,26 @@ impl<T> ArcSlice<T> {
         // We do the same basic checks as RcSlice::get_mut, but we also have to
         // avoid race conditions while doing so. We solve this w/ short-lived locks.
 
-        // Check for no weak refs first.
-        this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if !this.data.has_weak_slices() {
-                this.clone_child_gate().try_close().and_then(|_clone_child_latch|
-                    if 1 == Arc::strong_count(&this.data_guard) {
-                        if 1 == Arc::strong_count(&this.data) {
-                            // Safe to mutate
-                            unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
-                        } else {
-                            None
-                        }
+        // Check for no weak refs first. If none are left at that point, then the only
+        // way for one to exist by the time we've checked for strong refs is that some
+        // ArcSlice got downgraded (and maybe dropped) in between. Which is then reflected
+        // in num_downgrades.
+        let num_downgrades = this.data_guard.num_downgrades.load(Ordering::SeqCst);
+        if this.data.has_weak_slices() {
+            return None;
+        }
+        this.clone_child_gate().try_close().and_then(|_clone_child_latch|
+            if 1 == Arc::strong_count(&this.data_guard) {
+                if 1 == Arc::strong_count(&this.data) {
+                    if num_downgrades == this.data_guard.num_downgrades.load(Ordering::SeqCst) {
+                        // Safe to mutate
+                        unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
                     } else {
                         None
                     }
-                )
+                } else {
+                    None
+                }
             } else {
                 None
             }
@@ -433,8 +437,14 @@ impl<T> ArcSlice<T> {
     }
 
     pub fn downgrade(this: &Self) -> WeakSlice<T> {
-        this.downgrade_gate().wait_till_open();
-        WeakSlice { data: Arc::downgrade(&this.data) }
+        let weak = WeakSlice { data: Arc::downgrade(&this.data) };
+        // Let any concurrent get_mut for this slice or one of its ancestors know.
+        let mut guard = Some(&this.data_guard);
+        while let Some(data_guard) = guard {
+            data_guard.num_downgrades.fetch_add(1, Ordering::SeqCst);
+            guard = data_guard.parent.as_ref();
+        }
+        weak
     }
 
     // TODO: unsplit
@@ -444,10 +454,6 @@ impl<T> ArcSlice<T> {
     fn clone_child_gate(&self) -> &Gate {
         &(*self.data_guard).clone_child_gate
     }
-
-    fn downgrade_gate(&self) -> &Gate {
-        &(*self.data_guard).downgrade_gate
-    }
 }
 
 impl<T> Clone for ArcSlice<T> {
-- 
2.43.0


From e619c13a156bb054a28cd7039a432e8a6cc4852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 5/7] fix: order earlier accesses through dropped handles
 before get_mut and into_mut

Arc::strong_count and Arc::weak_count are relaxed loads, so observing that all
other handles are gone didn't make their accesses happen before the mutation.
---
 src/arc/arc_slice.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 0bbd4e1..b5d0679 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -7,7 +7,7 @@ use core::{
     panic::RefUnwindSafe,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
+    sync::atomic::{fence, AtomicPtr, AtomicUsize, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -400,9 +400,14 @@ impl<T> ArcSlice<T> {
         if this.data.has_weak_slices() {
             return None;
         }
+        // The ref counts we're looking at are read w/ relaxed ordering. These fences
+        // ensure that whatever was done via a weak or strong ref before it got dropped
+        // happens before what we do after observing that it's gone.
+        fence(Ordering::Acquire);
         this.clone_child_gate().try_close().and_then(|_clone_child_latch|
             if 1 == Arc::strong_count(&this.data_guard) {
                 if 1 == Arc::strong_count(&this.data) {
+                    fence(Ordering::Acquire);
                     if num_downgrades == this.data_guard.num_downgrades.load(Ordering::SeqCst) {
                         // Safe to mutate
                         unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
@@ -426,6 +431,8 @@ impl<T> ArcSlice<T> {
         let slice_mut = match (*data_guard).clone_child_gate.try_close() {
             Some(_clone_child_latch) => {
                 if 1 == Arc::strong_count(&data_guard) {
+                    // Ditto get_mut re ref counts and relaxed ordering
+                    fence(Ordering::Acquire);
                     Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
                 } else {
                     Err(data)
-- 
2.43.0


From 37080f6b99524bd8939e159f84b8f65134e9f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 6/7] fix: don't alias items when WeakSlice::upgrade races with
 ArcSlice::into_mut of an ancestor

into_mut checked that no other ArcSlice overlaps, but a concurrent upgrade
of a WeakSlice to a descendant subslice could take its strong ref after
that check. The upgraded ArcSlice then aliased the ArcSliceMut, and the
shared items were dropped twice. upgrade now waits for such an attempt to
finish and fails if the items have been moved.
---
 src/arc/arc_slice.rs | 67 +++++++++++++++++++++++++++++++-------------
 src/internal/gate.rs |  6 +++-
 2 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index b5d0679..8f008b7 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -7,7 +7,7 @@ use core::{
     panic::RefUnwindSafe,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{fence, AtomicPtr, AtomicUsize, Ordering},
+    sync::atomic::{fence, AtomicBool, AtomicPtr, AtomicUsize, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -40,6 +40,9 @@ pub (in crate::arc) struct ArcSliceData<T> {
     right_child: AtomicPtr<()>,
     parent: Weak<Self>,
     guard: DataGuardCell,
+    // Have our items been transferred to an ArcSliceMut by a call to into_mut on
+    // us or one of our ancestors? If so we don't own them any more.
+    moved: AtomicBool,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
 }
@@ -104,6 +107,7 @@ impl<T> ArcSliceData<T> {
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
             guard: DataGuardCell::new(),
+            moved: AtomicBool::new(false),
             phantom_item: PhantomData,
             phantom_child: PhantomData,
         }
@@ -224,26 +228,27 @@ impl<T> ArcSliceData<T> {
         Arc::weak_count(self) != child_refs
     }
 
+    /// Record whether the items of this ArcSliceData, and so those of all of its
+    /// descendants, have been transferred to an ArcSliceMut.
+    fn set_moved(&self, moved: bool) {
+        self.moved.store(moved, Ordering::SeqCst);
+        for child in &[&self.left_child, &self.right_child] {
+            let child = child.load(Ordering::Acquire);
+            if !child.is_null() {
+                // We own a strong ref to child, so it outlives our borrow of it here.
+                let child = unsafe { mem::ManuallyDrop::new(Arc::from_raw(child as *const Self)) };
+                child.set_moved(moved);
+            }
+        }
+    }
+
     /// Convert this ArcSliceData into an ArcSliceMut. Unsafe b/c calling
     /// code must ensure that there are no strong refs to any other ArcSliceData
-    /// overlapping this one.
+    /// overlapping this one, other than ones that notice that it's been moved,
+    /// and must already have called set_moved(true), since our Drop impl mustn't
+    /// drop the items that we're transferring to the ArcSliceMut.
     unsafe fn into_mut(mut self) -> ArcSliceMut<T> {
-        let slice_mut = ArcSliceMut::from_raw_parts(self.ptr, self.len, self.alloc.take());
-        // We don't want to drop the items in this subslice when self gets dropped,
-        // b/c we've transferred their ownership to slice_mut. But we DO wanna drop
-        // things like our strong refs to our child datas, ref cells with the weak
-        // refs to our data guards, etc, to avoid leaking all that.
-        self.forget_items();
-        slice_mut
-    }
-
-    fn forget_items(&mut self) {
-        // Recursively tell left child to forget its items
-        self.take_left().map(|child| Arc::try_unwrap(child).map(|mut child| child.forget_items()));
-        // Recursively tell right child to forget its items
-        self.take_right().map(|child| Arc::try_unwrap(child).map(|mut child| child.forget_items()));
-        // Setting len to 0 turns our Drop impl into a no-op.
-        self.len = 0;
+        ArcSliceMut::from_raw_parts(self.ptr, self.len, self.alloc.take())
     }
 }
 
@@ -253,6 +258,10 @@ impl<T> Drop for ArcSliceData<T> {
         // also to figure out what range of items to drop, if any.
         let left = self.take_left();
         let right = self.take_right();
+        if *self.moved.get_mut() {
+            // Our items belong to an ArcSliceMut now.
+            return;
+        }
         let (p, len) = match (left, right) {
             (None, None) => (self.ptr, self.len),
             (Some(_), None) => {
@@ -433,7 +442,16 @@ impl<T> ArcSlice<T> {
                 if 1 == Arc::strong_count(&data_guard) {
                     // Ditto get_mut re ref counts and relaxed ordering
                     fence(Ordering::Acquire);
-                    Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
+                    // Any WeakSlice::upgrade of a descendant that we haven't noticed yet either
+                    // waits for us to open our gate, or finds data gone. Either way it'll
+                    // then see that the items have been moved.
+                    data.set_moved(true);
+                    Arc::try_unwrap(data)
+                        .map(|data| unsafe { data.into_mut() })
+                        .map_err(|data| {
+                            data.set_moved(false);
+                            data
+                        })
                 } else {
                     Err(data)
                 }
@@ -514,7 +532,16 @@ impl<T> WeakSlice<T> {
     pub fn upgrade(&self) -> Option<ArcSlice<T>> {
         // TODO: This suffers from the same limitations as
         // crate::rc::WeakSlice::upgrade does.
-        self.data.upgrade().map(ArcSlice::from_data)
+        let slice = ArcSlice::from_data(self.data.upgrade()?);
+        // Some into_mut call may have checked for other ArcSlices just before we got
+        // counted. Let it finish, then check if it transferred our items to an ArcSliceMut.
+        let mut guard = Some(&slice.data_guard);
+        while let Some(data_guard) = guard {
+            data_guard.clone_child_gate.wait_till_open();
+            guard = data_guard.parent.as_ref();
+        }
+        fence(Ordering::Acquire);
+        if slice.data.moved.load(Ordering::SeqCst) { None } else { Some(slice) }
     }
 }
 
diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index 2ac4197..9446be2 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -1,4 +1,4 @@
-use core::sync::atomic::{AtomicBool, Ordering};
+use core::sync::atomic::{fence, AtomicBool, Ordering};
 
 /// A simple syncrhonization primitive.
 pub struct Gate {
@@ -13,6 +13,9 @@ impl Gate {
     }
 
     pub fn wait_till_open(&self) {
+        // Pairs w/ the fence in try_close: Either we see that the gate's closed, or
+        // whoever closes it sees whatever we did before (even w/ relaxed ordering).
+        fence(Ordering::SeqCst);
         while self.is_closed.load(Ordering::SeqCst) {}
     }
 
@@ -31,6 +34,7 @@ impl Gate {
         if self.is_closed.swap(true, Ordering::SeqCst) {
             None
         } else {
+            fence(Ordering::SeqCst);
             Some(Latch(self))
         }
     }
-- 
2.43.0


From ca72fdadb63caa2b3ed1dc7ff4ec99b74683ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 7/7] fix: don't do in-bounds pointer arithmetic on a buffer
 that may be gone

A mutable parts iterator left with only empty parts may outlive the buffer
its items were in.
---
 src/internal/slice_model/slice_items.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/internal/slice_model/slice_items.rs b/src/internal/slice_model/slice_items.rs
index b05f792..79b0801 100644
--- a/src/internal/slice_model/slice_items.rs
+++ b/src/internal/slice_model/slice_items.rs
@@ -307,7 +307,7 @@ impl<T> Iterator for SliceItemsParts<T> {
                     ptr = if mem::size_of::<T>() == 0 {
                         ptr
                     } else {
-                        unsafe { ptr.add(len >> 1) }
+                        ptr.wrapping_add(len >> 1)
                     };
                     len = len - (len >> 1);
                 }
@@ -338,7 +338,7 @@ impl<T> DoubleEndedIterator for SliceItemsParts<T> {
                     ptr = if mem::size_of::<T>() == 0 {
                         ptr
                     } else {
-                        unsafe { ptr.add(len >> 1) }
+                        ptr.wrapping_add(len >> 1)
                     };
                     len = len - (len >> 1);
                 } else {
@@ -417,7 +417,7 @@ mod zst_utils {
             if mem::size_of::<T>() == 0 {
                 Self((self.0 as usize + count) as _)
             } else {
-                Self(self.0.add(count))
+                Self(self.0.wrapping_add(count))
             }
         }
 
@@ -426,7 +426,7 @@ mod zst_utils {
             if mem::size_of::<T>() == 0 {
                 Self((self.0 as usize - count) as _)
             } else {
-                Self(self.0.sub(count))
+                Self(self.0.wrapping_sub(count))
             }
         }
     }
@@ -450,12 +450,10 @@ mod zst_utils {
                 Self { start: PtrOrIdx(0 as _), end: PtrOrIdx(len as _) }
             } else {
                 let ptr = ptr.as_ptr();
-                // Safety: As long as calling code adheres to the safety guarantees
-                // in the comment above, the pointer `add` below is safe for the same
-                // reasons it's safe in the impl of, say, [T]'s as_ptr_range.
-                // See https://doc.rust-lang.org/std/primitive.slice.html#method.as_ptr_range
-                // and follow link from there to src.
-                Self { start: PtrOrIdx(ptr), end: PtrOrIdx(ptr.add(len)) }
+                // NOTE: `wrapping_add`, here and elsewhere in this file, b/c a
+                // SliceItemsParts that is left with only empty parts may outlive
+                // the allocation its original pointer refers to.
+                Self { start: PtrOrIdx(ptr), end: PtrOrIdx(ptr.wrapping_add(len)) }
             }
         }
 
-- 
2.43.0

