//! For every handle type and item type: is it Send, is it Sync?
//! An inherent associated constant, which exists only if the bound holds, hides the constant of the trait.
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard};

struct SendProbe<T>(PhantomData<T>);
struct SyncProbe<T>(PhantomData<T>);
trait No {
    const HOLDS: bool = false;
}
impl<T> No for SendProbe<T> {}
impl<T> No for SyncProbe<T> {}
impl<T: Send> SendProbe<T> {
    const HOLDS: bool = true;
}
impl<T: Sync> SyncProbe<T> {
    const HOLDS: bool = true;
}

#[allow(dead_code)]
struct SyncOnly(*const u8);
unsafe impl Sync for SyncOnly {}
#[allow(dead_code)]
#[repr(align(64))]
struct SendOnly(*mut u8);
unsafe impl Send for SendOnly {}
#[allow(dead_code)]
struct Neither(PhantomData<Rc<u8>>);
impl Drop for Neither {
    fn drop(&mut self) {}
}
#[allow(dead_code)]
struct Plain;
impl Drop for Plain {
    fn drop(&mut self) {}
}

macro_rules! facts {
    ($n:expr; $($t:ty),* $(,)?) => {$(
        let item = (SendProbe::<$t>::HOLDS, SyncProbe::<$t>::HOLDS);
        facts!(@ $n, $t, item, "rc", "S", rc_slice::rc::RcSlice<$t>);
        facts!(@ $n, $t, item, "rc", "W", rc_slice::rc::WeakSlice<$t>);
        facts!(@ $n, $t, item, "rc", "P", rc_slice::rc::RcSliceParts<$t>);
        facts!(@ $n, $t, item, "rc", "M", rc_slice::rc::RcSliceMut<$t>);
        facts!(@ $n, $t, item, "rc", "I", rc_slice::rc::RcSliceMutIter<$t>);
        facts!(@ $n, $t, item, "rc", "Q", rc_slice::rc::RcSliceMutParts<$t>);
        facts!(@ $n, $t, item, "arc", "S", rc_slice::arc::ArcSlice<$t>);
        facts!(@ $n, $t, item, "arc", "W", rc_slice::arc::WeakSlice<$t>);
        facts!(@ $n, $t, item, "arc", "P", rc_slice::arc::ArcSliceParts<$t>);
        facts!(@ $n, $t, item, "arc", "M", rc_slice::arc::ArcSliceMut<$t>);
        facts!(@ $n, $t, item, "arc", "I", rc_slice::arc::ArcSliceMutIter<$t>);
        facts!(@ $n, $t, item, "arc", "Q", rc_slice::arc::ArcSliceMutParts<$t>);
    )*};
    (@ $n:expr, $t:ty, $item:expr, $fam:expr, $k:expr, $h:ty) => {
        for (tr, holds) in [("Send", SendProbe::<$h>::HOLDS), ("Sync", SyncProbe::<$h>::HOLDS)] {
            println!(
                "{{\"fam\":\"{}\",\"k\":\"{}\",\"trait\":\"{}\",\"send\":{},\"sync\":{},\"holds\":{},\"item\":\"{}\"}}",
                $fam, $k, tr, $item.0, $item.1, holds, std::any::type_name::<$t>()
            );
            $n += 1;
        }
    };
}

pub fn run() {
    let mut n = 0;
    facts!(n; u8, (), [u64; 5], String, Plain, &'static str, Box<dyn Fn() + Send + Sync>, Mutex<Cell<u8>>, Arc<u8>, fn(Rc<u8>) -> Rc<u8>,
        Cell<u8>, RefCell<String>, SendOnly, Box<dyn Fn() + Send>, [Cell<u64>; 3], Option<Cell<()>>,
        SyncOnly, MutexGuard<'static, u8>, [SyncOnly; 2], (SyncOnly, u8),
        Rc<u8>, *const u8, Neither, Box<dyn Fn()>, Arc<Cell<u8>>, &'static Cell<u8>, std::rc::Weak<()>, PhantomData<*mut ()>);
    println!("{{\"summary\":true,\"facts\":{}}}", n);
}
