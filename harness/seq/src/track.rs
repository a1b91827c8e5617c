//! Tracking allocator and item registry.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct TA;
#[global_allocator]
static GLOBAL: TA = TA;

const LIVE: u32 = 0x4C49_5645;
const DEAD: u32 = 0xDEAD_F4EE;
const HDR: usize = 48;

#[repr(C)]
struct Hdr {
    magic: u32,
    tag: u32, // 0 harness, 1 library, 2+i buffer watch i
    size: usize,
    align: usize,
    base: *mut u8,
    total: usize,
    total_align: usize,
}

pub struct G {
    pub in_lib: bool,
    pub quarantine: bool,
    pub lib_blocks: i64,
    pub lib_bytes: i64,
    pub errs: [(&'static str, usize); 16],
    pub nerr: usize,
    pub watch: [u8; 4096], // 0 unknown, 1 live, 2 freed
    pub freed: Option<fn(usize)>, // told of every watched buffer that is freed
    q: [*mut u8; 65536],
    nq: usize,
}
pub struct Sync2<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for Sync2<T> {}
pub static GG: Sync2<G> = Sync2(UnsafeCell::new(G {
    in_lib: false,
    quarantine: false,
    lib_blocks: 0,
    lib_bytes: 0,
    errs: [("", 0); 16],
    nerr: 0,
    watch: [0; 4096],
    freed: None,
    q: [std::ptr::null_mut(); 65536],
    nq: 0,
}));
#[allow(static_mut_refs)]
pub fn g() -> &'static mut G {
    unsafe { &mut *GG.0.get() }
}

pub fn err(s: &'static str, v: usize) {
    let g = g();
    if g.nerr < 16 {
        g.errs[g.nerr] = (s, v);
    }
    g.nerr += 1;
}

unsafe fn hdr(p: *mut u8) -> *mut Hdr {
    p.sub(HDR) as *mut Hdr
}

unsafe fn really_free(p: *mut u8) {
    let h = hdr(p);
    let (base, total, ta) = ((*h).base, (*h).total, (*h).total_align);
    System.dealloc(base, Layout::from_size_align_unchecked(total, ta));
}

unsafe impl GlobalAlloc for TA {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            err("zero-size-alloc", 0);
        }
        let ta = l.align().max(16);
        let off = (HDR + ta - 1) / ta * ta;
        let total = off + l.size() + 8;
        let base = System.alloc(Layout::from_size_align_unchecked(total, ta));
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let lib = g().in_lib;
        *hdr(p) = Hdr { magic: LIVE, tag: lib as u32, size: l.size(), align: l.align(), base, total, total_align: ta };
        // canary behind the block
        for i in 0..8 {
            *p.add(l.size() + i) = 0xC5;
        }
        if lib {
            g().lib_blocks += 1;
            g().lib_bytes += l.size() as i64;
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 0 {
            err("zero-size-dealloc", 0);
            return;
        }
        let h = hdr(p);
        if (*h).magic == DEAD {
            err("double-free", l.size());
            return;
        }
        if (*h).magic != LIVE {
            err("bad-free", l.size());
            return;
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            err("wrong-layout", l.size());
        }
        for i in 0..8 {
            if *p.add((*h).size + i) != 0xC5 {
                err("overrun", l.size());
                break;
            }
        }
        let tag = (*h).tag;
        if tag == 1 {
            g().lib_blocks -= 1;
            g().lib_bytes -= (*h).size as i64;
        } else if tag >= 2 {
            g().watch[(tag as usize - 2) % 4096] = 2;
            if let Some(f) = g().freed {
                f(tag as usize - 2);
            }
        }
        if g().quarantine && tag >= 1 {
            (*h).magic = DEAD;
            std::ptr::write_bytes(p, 0xDE, (*h).size.min(65536));
            let g = g();
            if g.nq < g.q.len() {
                g.q[g.nq] = p;
                g.nq += 1;
            }
        } else {
            (*h).magic = 0;
            really_free(p);
        }
    }
}

pub fn flush_quarantine() {
    let g = g();
    for i in 0..g.nq {
        unsafe { really_free(g.q[i]) };
    }
    g.nq = 0;
}

/// Declare the block at p to be item buffer number w. False if p is not the start of a live block.
pub fn watch_buffer(p: *const u8, w: usize) -> bool {
    unsafe {
        let h = hdr(p as *mut u8);
        if (*h).magic != LIVE {
            return false;
        }
        if (*h).tag == 1 {
            g().lib_blocks -= 1;
            g().lib_bytes -= (*h).size as i64;
        }
        (*h).tag = 2 + w as u32;
        g().watch[w % 4096] = 1;
        true
    }
}

/// Run f as library code: its allocations count as the library's.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            g().in_lib = self.0;
        }
    }
    let _o = Off(g().in_lib);
    g().in_lib = true;
    f()
}
/// Run f as harness code (called from item destructors / clones).
pub fn unlib<R>(f: impl FnOnce() -> R) -> R {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            g().in_lib = self.0;
        }
    }
    let _o = Off(g().in_lib);
    g().in_lib = false;
    f()
}

// ---------------------------------------------------------------- items

pub const MAXID: usize = 1 << 22;
pub struct Reg {
    pub state: Vec<u8>, // 0 unborn 1 live 2 destroyed
    pub log: Vec<u32>,
    pub zmade: i64,
    pub zdrop: i64,
    pub clone_base: u32,
    pub clone_n: u32,
    pub clone_src: Vec<u32>,
    pub clone_panic_at: i64,
    pub armed: u32, // id whose destructor panics
    pub zarm: i64,  // zero-sized items: number of destructor calls until one panics
    pub panicked: bool, // an armed destructor or clone did panic
    pub hook: Option<Box<dyn FnMut(u32)>>,
}
pub static RR: Sync2<Option<Reg>> = Sync2(UnsafeCell::new(None));
pub fn reg() -> &'static mut Reg {
    unsafe { (*RR.0.get()).as_mut().unwrap() }
}
pub fn init() {
    unsafe {
        *RR.0.get() = Some(Reg {
            state: vec![0; MAXID],
            log: Vec::with_capacity(MAXID),
            zmade: 0,
            zdrop: 0,
            clone_base: 0,
            clone_n: 0,
            clone_src: Vec::with_capacity(1 << 20),
            clone_panic_at: -1,
            armed: 0,
            zarm: -1,
            panicked: false,
            hook: None,
        })
    }
}

pub fn born(id: u32) {
    let r = reg();
    if r.state[id as usize] != 0 {
        err("reborn", id as usize);
    }
    r.state[id as usize] = 1;
}
pub fn died(id: u32) {
    let r = reg();
    if id as usize >= MAXID || r.state[id as usize] == 0 {
        err("destroyed-garbage", id as usize);
        return;
    }
    if r.state[id as usize] == 2 {
        err("destroyed-twice", id as usize);
    }
    r.state[id as usize] = 2;
    if r.log.len() < r.log.capacity() {
        r.log.push(id);
    }
    if let Some(mut h) = r.hook.take() {
        unlib(|| h(id));
        reg().hook.get_or_insert(h);
    }
    if reg().armed == id && id != 0 {
        reg().armed = 0;
        reg().panicked = true;
        unlib(|| panic!("armed destructor {}", id));
    }
}
pub fn seen(id: u32) -> u32 {
    if id as usize >= MAXID || reg().state[id as usize] != 1 {
        err("read-stale-item", id as usize);
        return u32::MAX;
    }
    id
}
fn next_clone(src: u32) -> u32 {
    if let Some(mut h) = reg().hook.take() {
        unlib(|| h(src));
        reg().hook.get_or_insert(h);
    }
    let r = reg();
    if r.clone_panic_at == r.clone_n as i64 {
        r.clone_panic_at = -1;
        r.panicked = true;
        unlib(|| panic!("clone panics"));
    }
    let id = r.clone_base + r.clone_n;
    r.clone_n += 1;
    if r.clone_src.len() < r.clone_src.capacity() {
        r.clone_src.push(src);
    }
    id
}

pub trait Item: Sized + Clone + 'static {
    const NAME: &'static str;
    const ZST: bool = false;
    const DROPS: bool = true;
    /// largest id
    const TOP: u32 = u32::MAX;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
    fn set_id(&mut self, id: u32);
}

pub struct T8 {
    id: u32,
    can: u32,
}
impl Item for T8 {
    const NAME: &'static str = "t8";
    fn mk(id: u32) -> Self {
        born(id);
        T8 { id, can: id ^ 0x5A5A_5A5A }
    }
    fn id(&self) -> u32 {
        if self.can != self.id ^ 0x5A5A_5A5A {
            err("read-garbage", self.id as usize);
            return u32::MAX;
        }
        seen(self.id)
    }
    fn set_id(&mut self, id: u32) {
        self.id = id;
        self.can = id ^ 0x5A5A_5A5A;
    }
}
impl Clone for T8 {
    fn clone(&self) -> Self {
        T8::mk(next_clone(self.id()))
    }
}
impl Drop for T8 {
    fn drop(&mut self) {
        if self.can != self.id ^ 0x5A5A_5A5A {
            err("destroyed-garbage", self.id as usize);
            return;
        }
        died(self.id);
    }
}

#[repr(align(64))]
pub struct Big {
    id: u32,
    _pad: [u32; 31],
    can: u32,
}
impl Item for Big {
    const NAME: &'static str = "big";
    fn mk(id: u32) -> Self {
        born(id);
        Big { id, _pad: [7; 31], can: !id }
    }
    fn id(&self) -> u32 {
        if self as *const _ as usize % 64 != 0 {
            err("misaligned", 0);
        }
        if self.can != !self.id {
            err("read-garbage", self.id as usize);
            return u32::MAX;
        }
        seen(self.id)
    }
    fn set_id(&mut self, id: u32) {
        self.id = id;
        self.can = !id;
    }
}
impl Clone for Big {
    fn clone(&self) -> Self {
        Big::mk(next_clone(self.id()))
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        if self as *const _ as usize % 64 != 0 {
            err("misaligned", 1);
        }
        if self.can != !self.id {
            err("destroyed-garbage", self.id as usize);
            return;
        }
        died(self.id);
    }
}

pub struct Odd([u8; 3]);
impl Item for Odd {
    const NAME: &'static str = "odd";
    fn mk(id: u32) -> Self {
        born(id);
        Odd([id as u8, (id >> 8) as u8, (id >> 16) as u8])
    }
    fn id(&self) -> u32 {
        seen(self.0[0] as u32 | (self.0[1] as u32) << 8 | (self.0[2] as u32) << 16)
    }
    fn set_id(&mut self, id: u32) {
        self.0 = [id as u8, (id >> 8) as u8, (id >> 16) as u8];
    }
}
impl Clone for Odd {
    fn clone(&self) -> Self {
        Odd::mk(next_clone(self.id()))
    }
}
impl Drop for Odd {
    fn drop(&mut self) {
        died(self.0[0] as u32 | (self.0[1] as u32) << 8 | (self.0[2] as u32) << 16);
    }
}

/// one byte
pub struct Byte(u8);
impl Item for Byte {
    const NAME: &'static str = "byte";
    const TOP: u32 = 255;
    fn mk(id: u32) -> Self {
        born(id);
        Byte(id as u8)
    }
    fn id(&self) -> u32 {
        seen(self.0 as u32)
    }
    fn set_id(&mut self, id: u32) {
        self.0 = id as u8;
    }
}
impl Clone for Byte {
    fn clone(&self) -> Self {
        Byte::mk(next_clone(self.id()))
    }
}
impl Drop for Byte {
    fn drop(&mut self) {
        died(self.0 as u32);
    }
}

macro_rules! zst {
    ($n:ident, $name:expr, $al:expr) => {
        #[repr(align($al))]
        pub struct $n;
        impl Item for $n {
            const NAME: &'static str = $name;
            const ZST: bool = true;
            fn mk(_: u32) -> Self {
                reg().zmade += 1;
                $n
            }
            fn id(&self) -> u32 {
                if self as *const _ as usize % $al != 0 {
                    err("misaligned", 2);
                }
                0
            }
            fn set_id(&mut self, _: u32) {}
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                if let Some(mut h) = reg().hook.take() {
                    unlib(|| h(0));
                    reg().hook.get_or_insert(h);
                }
                let r = reg();
                if r.clone_panic_at == r.clone_n as i64 {
                    r.clone_panic_at = -1;
                    r.panicked = true;
                    unlib(|| panic!("clone panics"));
                }
                r.clone_n += 1;
                $n::mk(0)
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                if self as *const _ as usize % $al != 0 {
                    err("misaligned", 3);
                }
                let r = reg();
                r.zdrop += 1;
                if r.zdrop > r.zmade {
                    err("destroyed-twice", 0);
                }
                if let Some(mut h) = r.hook.take() {
                    unlib(|| h(0));
                    reg().hook.get_or_insert(h);
                }
                let r = reg();
                if r.zarm == 0 {
                    r.zarm = -1;
                    r.panicked = true;
                    unlib(|| panic!("armed destructor"));
                } else if r.zarm > 0 {
                    r.zarm -= 1;
                }
            }
        }
    };
}
zst!(Z1, "zst", 1);
zst!(Z32, "zst32", 32);

#[derive(Clone, Copy)]
pub struct Plain(u32);
impl Item for Plain {
    const NAME: &'static str = "plain";
    const DROPS: bool = false;
    fn mk(id: u32) -> Self {
        Plain(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
    fn set_id(&mut self, id: u32) {
        self.0 = id;
    }
}
/// zero-sized, no destructor
#[derive(Clone, Copy)]
pub struct ZPlain;
impl Item for ZPlain {
    const NAME: &'static str = "zplain";
    const ZST: bool = true;
    const DROPS: bool = false;
    fn mk(_: u32) -> Self {
        ZPlain
    }
    fn id(&self) -> u32 {
        0
    }
    fn set_id(&mut self, _: u32) {}
}
