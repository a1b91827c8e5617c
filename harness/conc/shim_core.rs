//! `core` with the atomics (and spin hints) under the control of the scheduler of the harness.
//! The library under test is compiled, unmodified, against this crate in place of `core`.
#![no_std]
#![allow(clippy::all)]
pub use core::*;

pub mod hint {
    pub use core::hint::*;
    pub fn spin_loop() {
        unsafe { super::vf_yield() }
    }
}

extern "Rust" {
    fn vf_load(m: &sync::atomic::Meta, o: u8) -> u64;
    fn vf_store(m: &sync::atomic::Meta, v: u64, o: u8);
    fn vf_rmw(m: &sync::atomic::Meta, o: u8, f: &mut dyn FnMut(u64) -> u64) -> u64;
    fn vf_cas(m: &sync::atomic::Meta, old: u64, new: u64, ok: u8, fail: u8) -> Result<u64, u64>;
    fn vf_cas_weak(m: &sync::atomic::Meta, old: u64, new: u64, ok: u8, fail: u8) -> Result<u64, u64>;
    fn vf_fence(o: u8);
    fn vf_yield();
    fn vf_touch(m: &sync::atomic::Meta);
}

pub mod sync {
    pub use core::sync::*;
    pub mod atomic {
        pub use core::sync::atomic::Ordering;
        use core::cell::UnsafeCell;
        use core::fmt;

        /// What every atomic of the shim is.
        #[repr(C)]
        pub struct Meta {
            pub val: UnsafeCell<u64>,
            pub id: UnsafeCell<u32>,
            pub run: UnsafeCell<u32>,
            pub magic: u64,
        }
        pub const MAGIC: u64 = 0xA70A_1C00_5EED_BEEF;
        impl Meta {
            pub const fn new(v: u64) -> Self {
                Meta { val: UnsafeCell::new(v), id: UnsafeCell::new(0), run: UnsafeCell::new(0), magic: MAGIC }
            }
        }

        fn o(x: Ordering) -> u8 {
            match x {
                Ordering::Relaxed => 0,
                Ordering::Acquire => 1,
                Ordering::Release => 2,
                Ordering::AcqRel => 3,
                _ => 4,
            }
        }

        pub fn fence(x: Ordering) {
            unsafe { super::super::vf_fence(o(x)) }
        }
        pub fn compiler_fence(_: Ordering) {}
        pub fn spin_loop_hint() {
            unsafe { super::super::vf_yield() }
        }


        macro_rules! atomic {
            ($n:ident, $t:ty, $to:expr, $from:expr) => {
                #[repr(transparent)]
                pub struct $n(Meta);
                unsafe impl Send for $n {}
                unsafe impl Sync for $n {}
                impl core::panic::RefUnwindSafe for $n {}
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        $n(Meta::new(v as u64))
                    }
                    pub fn load(&self, x: Ordering) -> $t {
                        $from(unsafe { super::super::vf_load(&self.0, o(x)) })
                    }
                    pub fn store(&self, v: $t, x: Ordering) {
                        unsafe { super::super::vf_store(&self.0, $to(v), o(x)) }
                    }
                    pub fn swap(&self, v: $t, x: Ordering) -> $t {
                        $from(unsafe { super::super::vf_rmw(&self.0, o(x), &mut |_| $to(v)) })
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        match unsafe { super::super::vf_cas(&self.0, $to(a), $to(b), o(x), o(y)) } {
                            Ok(v) => Ok($from(v)),
                            Err(v) => Err($from(v)),
                        }
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        match unsafe { super::super::vf_cas_weak(&self.0, $to(a), $to(b), o(x), o(y)) } {
                            Ok(v) => Ok($from(v)),
                            Err(v) => Err($from(v)),
                        }
                    }
                    pub fn compare_and_swap(&self, a: $t, b: $t, x: Ordering) -> $t {
                        let f = match x {
                            Ordering::Release => Ordering::Relaxed,
                            Ordering::AcqRel => Ordering::Acquire,
                            z => z,
                        };
                        match self.compare_exchange(a, b, x, f) {
                            Ok(v) => v,
                            Err(v) => v,
                        }
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut p = self.load(f);
                        while let Some(n) = g(p) {
                            match self.compare_exchange(p, n, s, f) {
                                Ok(v) => return Ok(v),
                                Err(v) => p = v,
                            }
                        }
                        Err(p)
                    }
                    pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                        self.fetch_update(s, f, g)
                    }
                    pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, f: Ordering, mut g: F) -> $t {
                        match self.fetch_update(s, f, |v| Some(g(v))) {
                            Ok(v) | Err(v) => v,
                        }
                    }
                    pub const fn as_ptr(&self) -> *mut $t {
                        self.0.val.get() as *mut $t
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        unsafe {
                            super::super::vf_touch(&self.0);
                            &mut *(self.0.val.get() as *mut $t)
                        }
                    }
                    pub fn into_inner(self) -> $t {
                        unsafe { $from(*self.0.val.get()) }
                    }
                }
                impl Default for $n {
                    fn default() -> Self {
                        Self::new(Default::default())
                    }
                }
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl fmt::Debug for $n {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        fmt::Debug::fmt(&$from(unsafe { *self.0.val.get() }), f)
                    }
                }
            };
        }
        macro_rules! int {
            ($n:ident, $t:ty) => {
                atomic!($n, $t, |v: $t| v as u64, |v: u64| v as $t);
                impl $n {
                    pub fn fetch_add(&self, v: $t, x: Ordering) -> $t {
                        unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| (a as $t).wrapping_add(v) as u64) as $t }
                    }
                    pub fn fetch_sub(&self, v: $t, x: Ordering) -> $t {
                        unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| (a as $t).wrapping_sub(v) as u64) as $t }
                    }
                    pub fn fetch_and(&self, v: $t, x: Ordering) -> $t {
                        unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| ((a as $t) & v) as u64) as $t }
                    }
                    pub fn fetch_or(&self, v: $t, x: Ordering) -> $t {
                        unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| ((a as $t) | v) as u64) as $t }
                    }
                    pub fn fetch_xor(&self, v: $t, x: Ordering) -> $t {
                        unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| ((a as $t) ^ v) as u64) as $t }
                    }
                    pub fn fetch_max(&self, v: $t, x: Ordering) -> $t {
                        unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| (a as $t).max(v) as u64) as $t }
                    }
                    pub fn fetch_min(&self, v: $t, x: Ordering) -> $t {
                        unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| (a as $t).min(v) as u64) as $t }
                    }
                }
            };
        }
        atomic!(AtomicBool, bool, |v: bool| v as u64, |v: u64| v & 1 != 0);
        impl AtomicBool {
            pub fn fetch_or(&self, v: bool, x: Ordering) -> bool {
                unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| a | v as u64) & 1 != 0 }
            }
            pub fn fetch_and(&self, v: bool, x: Ordering) -> bool {
                unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| a & v as u64) & 1 != 0 }
            }
            pub fn fetch_xor(&self, v: bool, x: Ordering) -> bool {
                unsafe { super::super::vf_rmw(&self.0, o(x), &mut |a| a ^ v as u64) & 1 != 0 }
            }
            pub fn fetch_not(&self, x: Ordering) -> bool {
                self.fetch_xor(true, x)
            }
        }
        int!(AtomicUsize, usize);
        int!(AtomicIsize, isize);
        int!(AtomicU8, u8);
        int!(AtomicU16, u16);
        int!(AtomicU32, u32);
        int!(AtomicU64, u64);
        int!(AtomicI8, i8);
        int!(AtomicI16, i16);
        int!(AtomicI32, i32);
        int!(AtomicI64, i64);

        #[repr(transparent)]
        pub struct AtomicPtr<T>(Meta, core::marker::PhantomData<*mut T>);
        unsafe impl<T> Send for AtomicPtr<T> {}
        unsafe impl<T> Sync for AtomicPtr<T> {}
        impl<T> core::panic::RefUnwindSafe for AtomicPtr<T> {}
        impl<T> AtomicPtr<T> {
            pub fn new(p: *mut T) -> Self {
                AtomicPtr(Meta::new(p as usize as u64), core::marker::PhantomData)
            }
            pub fn load(&self, x: Ordering) -> *mut T {
                unsafe { super::super::vf_load(&self.0, o(x)) as usize as *mut T }
            }
            pub fn store(&self, v: *mut T, x: Ordering) {
                unsafe { super::super::vf_store(&self.0, v as usize as u64, o(x)) }
            }
            pub fn swap(&self, v: *mut T, x: Ordering) -> *mut T {
                unsafe { super::super::vf_rmw(&self.0, o(x), &mut |_| v as usize as u64) as usize as *mut T }
            }
            pub fn compare_exchange(&self, a: *mut T, b: *mut T, x: Ordering, y: Ordering) -> Result<*mut T, *mut T> {
                match unsafe { super::super::vf_cas(&self.0, a as usize as u64, b as usize as u64, o(x), o(y)) } {
                    Ok(v) => Ok(v as usize as *mut T),
                    Err(v) => Err(v as usize as *mut T),
                }
            }
            pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, x: Ordering, y: Ordering) -> Result<*mut T, *mut T> {
                match unsafe { super::super::vf_cas_weak(&self.0, a as usize as u64, b as usize as u64, o(x), o(y)) } {
                    Ok(v) => Ok(v as usize as *mut T),
                    Err(v) => Err(v as usize as *mut T),
                }
            }
            pub fn compare_and_swap(&self, a: *mut T, b: *mut T, x: Ordering) -> *mut T {
                let f = match x {
                    Ordering::Release => Ordering::Relaxed,
                    Ordering::AcqRel => Ordering::Acquire,
                    z => z,
                };
                match self.compare_exchange(a, b, x, f) {
                    Ok(v) => v,
                    Err(v) => v,
                }
            }
            pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<*mut T, *mut T> {
                let mut p = self.load(f);
                while let Some(n) = g(p) {
                    match self.compare_exchange(p, n, s, f) {
                        Ok(v) => return Ok(v),
                        Err(v) => p = v,
                    }
                }
                Err(p)
            }
            pub fn try_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, s: Ordering, f: Ordering, g: F) -> Result<*mut T, *mut T> {
                self.fetch_update(s, f, g)
            }
            pub fn update<F: FnMut(*mut T) -> *mut T>(&self, s: Ordering, f: Ordering, mut g: F) -> *mut T {
                match self.fetch_update(s, f, |v| Some(g(v))) {
                    Ok(v) | Err(v) => v,
                }
            }
            pub const fn as_ptr(&self) -> *mut *mut T {
                self.0.val.get() as *mut *mut T
            }
            pub fn get_mut(&mut self) -> &mut *mut T {
                unsafe {
                    super::super::vf_touch(&self.0);
                    &mut *(self.0.val.get() as *mut *mut T)
                }
            }
            pub fn into_inner(self) -> *mut T {
                unsafe { *self.0.val.get() as usize as *mut T }
            }
        }
        impl<T> Default for AtomicPtr<T> {
            fn default() -> Self {
                Self::new(core::ptr::null_mut())
            }
        }
        impl<T> From<*mut T> for AtomicPtr<T> {
            fn from(v: *mut T) -> Self {
                Self::new(v)
            }
        }
        impl<T> fmt::Debug for AtomicPtr<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&(unsafe { *self.0.val.get() } as usize as *const T), f)
            }
        }
    }
}
