//! `alloc` with Arc and Weak whose reference counts are atomics of shim_core, with the memory
//! orderings of the standard library's implementation.
#![no_std]
#![allow(clippy::all)]
extern crate alloc as real;
extern crate core_shim;
pub use real::*;

extern "Rust" {
    fn vf_problem(what: &'static str);
    fn vf_init_stamp() -> u64;
    fn vf_init_check(stamp: u64);
    fn vf_payload(at: usize, len: usize, live: bool);
    fn vf_handle(at: usize, write: bool);
}

pub mod sync {
    use core::alloc::Layout;
    use core::borrow::Borrow;
    use core::cmp;
    use core::fmt;
    use core::hash::{Hash, Hasher};
    use core::marker::PhantomData;
    use core::mem::{self, ManuallyDrop};
    use core::ops::Deref;
    use core::panic::{RefUnwindSafe, UnwindSafe};
    use core::pin::Pin;
    use core::ptr::{self, NonNull};
    use core_shim::sync::atomic::{fence, AtomicUsize, Ordering::*};
    use crate::real::boxed::Box;

    const LIVE: u64 = 0x5EED_A4C0_11FE_0001;

    #[repr(C)]
    struct Inner<T> {
        strong: AtomicUsize,
        weak: AtomicUsize,
        canary: u64,
        stamp: u64, // who made it, and when: must happen before every use
        data: ManuallyDrop<T>,
    }

    pub struct Arc<T> {
        p: NonNull<Inner<T>>,
        _m: PhantomData<T>,
    }
    pub struct Weak<T> {
        p: NonNull<Inner<T>>,
    }
    unsafe impl<T: Sync + Send> Send for Arc<T> {}
    unsafe impl<T: Sync + Send> Sync for Arc<T> {}
    unsafe impl<T: Sync + Send> Send for Weak<T> {}
    unsafe impl<T: Sync + Send> Sync for Weak<T> {}
    impl<T: RefUnwindSafe> UnwindSafe for Arc<T> {}
    impl<T> Unpin for Arc<T> {}

    fn dangling<T>() -> NonNull<Inner<T>> {
        unsafe { NonNull::new_unchecked(usize::MAX as *mut Inner<T>) }
    }
    fn is_dangling<T>(p: NonNull<Inner<T>>) -> bool {
        p.as_ptr() as usize == usize::MAX
    }

    impl<T> Inner<T> {
        fn check(&self) {
            if self.canary != LIVE {
                unsafe { crate::vf_problem("use of a freed reference count") };
            } else {
                unsafe { crate::vf_init_check(self.stamp) };
            }
        }
    }

    fn off<T>() -> usize {
        // offset of data in Inner<T>
        let u = mem::MaybeUninit::<Inner<T>>::uninit();
        let b = u.as_ptr();
        unsafe { (ptr::addr_of!((*b).data) as usize) - (b as usize) }
    }

    /// A handle at this place is used (or goes away, `write`). Places inside the value of an Arc are
    /// shared memory: unordered accesses to them of which one writes are data races.
    fn used<H>(h: &H, write: bool) {
        unsafe { crate::vf_handle(h as *const H as usize, write) }
    }
    fn payload<T>(p: NonNull<Inner<T>>, live: bool) {
        unsafe { crate::vf_payload(ptr::addr_of!((*p.as_ptr()).data) as usize, mem::size_of::<T>(), live) }
    }

    impl<T> Arc<T> {
        fn i(&self) -> &Inner<T> {
            let i = unsafe { self.p.as_ref() };
            i.check();
            i
        }
        fn from_inner(p: NonNull<Inner<T>>) -> Self {
            Arc { p, _m: PhantomData }
        }
        pub fn new(t: T) -> Self {
            let b = Box::new(Inner {
                strong: AtomicUsize::new(1),
                weak: AtomicUsize::new(1),
                canary: LIVE,
                stamp: unsafe { crate::vf_init_stamp() },
                data: ManuallyDrop::new(t),
            });
            let p = unsafe { NonNull::new_unchecked(Box::into_raw(b)) };
            payload(p, true);
            Self::from_inner(p)
        }
        pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
            unsafe {
                let l = Layout::new::<Inner<T>>();
                let p = crate::real::alloc::alloc(l) as *mut Inner<T>;
                ptr::write(ptr::addr_of_mut!((*p).strong), AtomicUsize::new(0));
                ptr::write(ptr::addr_of_mut!((*p).weak), AtomicUsize::new(1));
                (*p).canary = LIVE;
                (*p).stamp = crate::vf_init_stamp();
                let w = Weak { p: NonNull::new_unchecked(p) };
                let t = f(&w);
                ptr::write(ptr::addr_of_mut!((*p).data), ManuallyDrop::new(t));
                (*p).strong.store(1, Release);
                mem::forget(w);
                let p = NonNull::new_unchecked(p);
                payload(p, true);
                Self::from_inner(p)
            }
        }
        pub fn pin(t: T) -> Pin<Arc<T>> {
            unsafe { Pin::new_unchecked(Arc::new(t)) }
        }
        pub fn downgrade(t: &Self) -> Weak<T> {
            let i = t.i();
            let mut cur = i.weak.load(Relaxed);
            loop {
                if cur == usize::MAX {
                    core_shim::hint::spin_loop();
                    cur = i.weak.load(Relaxed);
                    continue;
                }
                match i.weak.compare_exchange(cur, cur + 1, Acquire, Relaxed) {
                    Ok(_) => return Weak { p: t.p },
                    Err(o) => cur = o,
                }
            }
        }
        pub fn into_raw(t: Self) -> *const T {
            let p = Self::as_ptr(&t);
            mem::forget(t);
            p
        }
        pub fn as_ptr(t: &Self) -> *const T {
            unsafe { ptr::addr_of!((*t.p.as_ptr()).data) as *const T }
        }
        pub unsafe fn from_raw(p: *const T) -> Self {
            let q = (p as *const u8).sub(off::<T>()) as *mut Inner<T>;
            (*q).check();
            Self::from_inner(NonNull::new_unchecked(q))
        }
        pub unsafe fn increment_strong_count(p: *const T) {
            let a = ManuallyDrop::new(Arc::from_raw(p));
            let _b: ManuallyDrop<Arc<T>> = ManuallyDrop::new((*a).clone());
        }
        pub unsafe fn decrement_strong_count(p: *const T) {
            drop(Arc::from_raw(p));
        }
        pub fn strong_count(t: &Self) -> usize {
            t.i().strong.load(Relaxed)
        }
        pub fn weak_count(t: &Self) -> usize {
            let c = t.i().weak.load(Relaxed);
            if c == usize::MAX {
                0
            } else {
                c - 1
            }
        }
        pub fn ptr_eq(a: &Self, b: &Self) -> bool {
            a.p == b.p
        }
        pub fn try_unwrap(t: Self) -> Result<T, Self> {
            if t.i().strong.compare_exchange(1, 0, Relaxed, Relaxed).is_err() {
                return Err(t);
            }
            fence(Acquire);
            let t = ManuallyDrop::new(t);
            payload(t.p, false);
            unsafe {
                let v = ptr::read(ptr::addr_of!((*t.p.as_ptr()).data));
                let _w = Weak { p: t.p };
                Ok(ManuallyDrop::into_inner(v))
            }
        }
        pub fn into_inner(t: Self) -> Option<T> {
            let t = ManuallyDrop::new(t);
            if t.i().strong.fetch_sub(1, Release) != 1 {
                return None;
            }
            fence(Acquire);
            payload(t.p, false);
            unsafe {
                let v = ptr::read(ptr::addr_of!((*t.p.as_ptr()).data));
                let _w = Weak { p: t.p };
                Some(ManuallyDrop::into_inner(v))
            }
        }
        pub fn unwrap_or_clone(t: Self) -> T
        where
            T: Clone,
        {
            Arc::try_unwrap(t).unwrap_or_else(|a| (*a).clone())
        }
        fn is_unique(&self) -> bool {
            let i = self.i();
            if i.weak.compare_exchange(1, usize::MAX, Acquire, Relaxed).is_ok() {
                let u = i.strong.load(Acquire) == 1;
                i.weak.store(1, Release);
                u
            } else {
                false
            }
        }
        pub fn get_mut(t: &mut Self) -> Option<&mut T> {
            if t.is_unique() {
                Some(unsafe { &mut *(*t.p.as_ptr()).data })
            } else {
                None
            }
        }
        pub unsafe fn get_mut_unchecked(t: &mut Self) -> &mut T {
            t.i();
            &mut *(*t.p.as_ptr()).data
        }
    }
    impl<T> Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            used(self, false);
            &self.i().data
        }
    }
    impl<T> Clone for Arc<T> {
        fn clone(&self) -> Self {
            used(self, false);
            self.i().strong.fetch_add(1, Relaxed);
            Self::from_inner(self.p)
        }
    }
    impl<T> Drop for Arc<T> {
        fn drop(&mut self) {
            used(self, true);
            if self.i().strong.fetch_sub(1, Release) != 1 {
                return;
            }
            fence(Acquire);
            let _w = Weak { p: self.p };
            unsafe { ManuallyDrop::drop(&mut (*self.p.as_ptr()).data) };
            payload(self.p, false);
        }
    }
    impl<T> Weak<T> {
        pub const fn new() -> Self {
            Weak { p: unsafe { NonNull::new_unchecked(usize::MAX as *mut Inner<T>) } }
        }
        fn i(&self) -> Option<&Inner<T>> {
            if is_dangling(self.p) {
                None
            } else {
                let i = unsafe { self.p.as_ref() };
                i.check();
                Some(i)
            }
        }
        pub fn upgrade(&self) -> Option<Arc<T>> {
            used(self, false);
            let i = self.i()?;
            let mut n = i.strong.load(Relaxed);
            loop {
                if n == 0 {
                    return None;
                }
                match i.strong.compare_exchange(n, n + 1, Acquire, Relaxed) {
                    Ok(_) => return Some(Arc::from_inner(self.p)),
                    Err(o) => n = o,
                }
            }
        }
        pub fn strong_count(&self) -> usize {
            self.i().map_or(0, |i| i.strong.load(Relaxed))
        }
        pub fn weak_count(&self) -> usize {
            match self.i() {
                None => 0,
                Some(i) => {
                    let w = i.weak.load(Acquire);
                    let s = i.strong.load(Relaxed);
                    if s == 0 {
                        0
                    } else {
                        w - 1
                    }
                }
            }
        }
        pub fn ptr_eq(&self, o: &Self) -> bool {
            self.p == o.p
        }
        pub fn as_ptr(&self) -> *const T {
            if is_dangling(self.p) {
                self.p.as_ptr() as *const T
            } else {
                unsafe { ptr::addr_of!((*self.p.as_ptr()).data) as *const T }
            }
        }
        pub fn into_raw(self) -> *const T {
            let p = self.as_ptr();
            mem::forget(self);
            p
        }
        pub unsafe fn from_raw(p: *const T) -> Self {
            if p as usize == usize::MAX {
                return Weak { p: dangling() };
            }
            Weak { p: NonNull::new_unchecked((p as *const u8).sub(off::<T>()) as *mut Inner<T>) }
        }
    }
    impl<T> Clone for Weak<T> {
        fn clone(&self) -> Self {
            used(self, false);
            if let Some(i) = self.i() {
                i.weak.fetch_add(1, Relaxed);
            }
            Weak { p: self.p }
        }
    }
    impl<T> Drop for Weak<T> {
        fn drop(&mut self) {
            used(self, true);
            if let Some(i) = self.i() {
                if i.weak.fetch_sub(1, Release) == 1 {
                    fence(Acquire);
                    unsafe {
                        (*self.p.as_ptr()).canary = 0;
                        crate::real::alloc::dealloc(self.p.as_ptr() as *mut u8, Layout::new::<Inner<T>>());
                    }
                }
            }
        }
    }
    impl<T> Default for Weak<T> {
        fn default() -> Self {
            Weak::new()
        }
    }
    impl<T: Default> Default for Arc<T> {
        fn default() -> Self {
            Arc::new(T::default())
        }
    }
    impl<T> fmt::Debug for Weak<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("(Weak)")
        }
    }
    impl<T: fmt::Debug> fmt::Debug for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(&**self, f)
        }
    }
    impl<T: fmt::Display> fmt::Display for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Display::fmt(&**self, f)
        }
    }
    impl<T> fmt::Pointer for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Pointer::fmt(&Arc::as_ptr(self), f)
        }
    }
    impl<T: PartialEq> PartialEq for Arc<T> {
        fn eq(&self, o: &Self) -> bool {
            **self == **o
        }
    }
    impl<T: Eq> Eq for Arc<T> {}
    impl<T: PartialOrd> PartialOrd for Arc<T> {
        fn partial_cmp(&self, o: &Self) -> Option<cmp::Ordering> {
            (**self).partial_cmp(&**o)
        }
    }
    impl<T: Ord> Ord for Arc<T> {
        fn cmp(&self, o: &Self) -> cmp::Ordering {
            (**self).cmp(&**o)
        }
    }
    impl<T: Hash> Hash for Arc<T> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            (**self).hash(h)
        }
    }
    impl<T> Borrow<T> for Arc<T> {
        fn borrow(&self) -> &T {
            &**self
        }
    }
    impl<T> AsRef<T> for Arc<T> {
        fn as_ref(&self) -> &T {
            &**self
        }
    }
    impl<T> From<T> for Arc<T> {
        fn from(t: T) -> Self {
            Arc::new(t)
        }
    }
}
