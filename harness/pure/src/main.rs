//! Runs behaviours of spec/Slice.tla on the real code inside an interpreter that notices undefined behaviour (Miri).
//!
//! pure FILE: one behaviour per line, in a form that is cheap to read (every number is one byte, '0' + number): family
//! ('r', 'a'), item type (its index in "bx pl al zs"), VAR, BOMB, then three bytes per operation (its index in OPS, slot, argument).
//! Family 'p': a program of several threads, see par.rs.
//! After operations (the last two and some of the others) all handles are used in all ways the specification allows at
//! the same time: the items of all exclusive handles are written while the items of all shared ones are being read.
#[path = "../../seq/src/fam.rs"]
#[allow(dead_code)]
mod fam;
mod par;
use fam::{ArcF, Fam, RcF};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};

pub const OPS: [&str; 33] = [
    "new", "newm", "wn", "drop", "pt", "bp", "im", "fz", "it", "cf", "cnt", "gm", "set", "up", "nx", "nb", "nt", "nk", "ls", "cp", "clone", "cl", "cr",
    "dg", "sl", "sr", "sf", "st", "-", "-", "-", "-", "-",
];
pub fn num(b: u8) -> usize {
    (b - b'0') as usize
}

/// the item whose destructor panics
static BOMB: AtomicU32 = AtomicU32::new(0);
fn boom(id: u32) {
    if id != 0 && BOMB.load(Ordering::Relaxed) == id {
        BOMB.store(0, Ordering::Relaxed);
        panic!("bomb");
    }
}

trait Item: Clone + 'static {
    fn mk(id: u32) -> Self;
    fn read(&self);
    fn write(&mut self);
}

/// owns memory
#[derive(Clone)]
struct Bx(Box<u32>);
impl Item for Bx {
    fn mk(id: u32) -> Self {
        Bx(Box::new(id))
    }
    fn read(&self) {
        black_box(*self.0);
    }
    fn write(&mut self) {
        let v = *self.0;
        self.0 = Box::new(v);
    }
}
impl Drop for Bx {
    fn drop(&mut self) {
        boom(*self.0);
    }
}

/// bytes, no destructor
#[derive(Clone)]
struct Pl([u8; 3]);
impl Item for Pl {
    fn mk(id: u32) -> Self {
        Pl([id as u8; 3])
    }
    fn read(&self) {
        black_box(self.0);
    }
    fn write(&mut self) {
        self.0 = black_box(self.0);
    }
}

/// over-aligned, with a destructor that reads it
#[derive(Clone)]
#[repr(align(32))]
struct Al(u32);
impl Item for Al {
    fn mk(id: u32) -> Self {
        Al(id)
    }
    fn read(&self) {
        black_box(self.0);
    }
    fn write(&mut self) {
        self.0 = black_box(self.0);
    }
}
impl Drop for Al {
    fn drop(&mut self) {
        boom(self.0);
    }
}

/// zero-sized, aligned
#[derive(Clone)]
#[repr(align(16))]
struct Zs;
impl Item for Zs {
    fn mk(_: u32) -> Self {
        Zs
    }
    fn read(&self) {
        black_box(self);
    }
    fn write(&mut self) {
        *self = Zs;
    }
}
impl Drop for Zs {
    fn drop(&mut self) {
        black_box(self);
    }
}

enum Hd<F: Fam, T: Item> {
    None,
    S(F::S<T>),
    W(F::W<T>),
    M(F::M<T>),
    I(F::I<T>),
    P(F::P<T>),
    Q(F::Q<T>),
}

const MAXH: usize = 16;

enum Ref<'a, T> {
    Sh(&'a [T]),
    Ex(&'a mut [T]),
}

#[inline(never)]
fn both<T: Item>(a: &mut [T], b: &[T]) {
    for x in a.iter_mut() {
        x.write();
    }
    for x in b {
        x.read();
    }
    for x in a.iter_mut() {
        x.write();
    }
}

fn once<T: Item>(rs: &mut [Ref<'_, T>]) {
    for r in rs.iter_mut() {
        match r {
            Ref::Sh(s) => s.iter().for_each(|x| x.read()),
            Ref::Ex(s) => s.iter_mut().for_each(|x| x.write()),
        }
    }
}

/// All references at once.
fn touch<T: Item>(mut rs: Vec<Ref<'_, T>>) {
    once(&mut rs);
    for i in 0..rs.len() {
        for j in 0..rs.len() {
            if i != j {
                let (lo, hi) = rs.split_at_mut(i.max(j));
                let (a, b) = if i < j { (&mut lo[i], &mut hi[0]) } else { (&mut hi[0], &mut lo[j]) };
                if let Ref::Ex(a) = a {
                    match b {
                        Ref::Sh(b) => both(a, b),
                        Ref::Ex(b) => both(a, b),
                    }
                }
            }
        }
    }
}

struct Mach<F: Fam, T: Item> {
    hs: Vec<Hd<F, T>>,
    nid: u32,
    var: usize,
}

impl<F: Fam, T: Item> Mach<F, T> {
    /// The slices of these handles; those already borrowed are in use when the next is borrowed.
    fn refs(hs: &mut [Hd<F, T>], back: bool) -> Vec<Ref<'_, T>> {
        let mut hs: Vec<&mut Hd<F, T>> = hs.iter_mut().collect();
        if back {
            hs.reverse();
        }
        let mut rs = vec![];
        for h in hs {
            rs.push(match h {
                Hd::None | Hd::W(_) => continue,
                Hd::S(s) => Ref::Sh(s),
                Hd::P(s) => Ref::Sh(F::p_slice(s)),
                Hd::M(s) => Ref::Ex(s),
                Hd::I(s) => Ref::Ex(F::i_slice_mut(s)),
                Hd::Q(s) => Ref::Ex(F::q_slice_mut(s)),
            });
            once(&mut rs);
        }
        rs
    }
    /// What safe code may hold during an operation on other handles: the slices of all handles but those.
    /// Handles do not move in the meantime (their vector does not grow).
    unsafe fn held(&mut self, but: [usize; 2], back: bool) -> Vec<Ref<'static, T>> {
        let mut no: Vec<Hd<F, T>> = but.iter().map(|_| Hd::None).collect();
        for (x, &i) in no.iter_mut().zip(&but) {
            if i < self.hs.len() {
                std::mem::swap(x, &mut self.hs[i]);
            }
        }
        let rs: Vec<Ref<'static, T>> = std::mem::transmute(Self::refs(&mut self.hs, back));
        for (x, &i) in no.iter_mut().zip(&but).rev() {
            if i < self.hs.len() {
                std::mem::swap(x, &mut self.hs[i]);
            }
        }
        rs
    }
    fn mkvec(&mut self, n: usize) -> Vec<T> {
        let mut v = Vec::with_capacity(n + (self.var / 8 % 2) * 3);
        for _ in 0..n {
            v.push(T::mk(self.nid));
            self.nid += 1;
        }
        v
    }
    fn put(&mut self, h: Hd<F, T>) {
        let i = self.hs.iter().position(|h| matches!(h, Hd::None)).unwrap_or(self.hs.len());
        if i == self.hs.len() {
            self.hs.push(Hd::None);
        }
        self.hs[i] = h;
    }
    fn take(&mut self, s: usize) -> Hd<F, T> {
        std::mem::replace(&mut self.hs[s], Hd::None)
    }

    /// False if the handle is not what the behaviour expects (a choice the specification leaves open).
    fn exec(&mut self, op: &str, s: usize, a: usize) -> bool {
        let si = s.wrapping_sub(1);
        let var = self.var + s * 7 + a;
        if s > 0 && (si >= self.hs.len() || matches!(self.hs[si], Hd::None)) {
            return false;
        }
        let new = match op {
            "new" => {
                let v = self.mkvec(a);
                Some(Hd::S(F::s_from(v, var)))
            }
            "newm" => {
                let v = self.mkvec(a);
                Some(Hd::M(F::m_from(v, var)))
            }
            "wn" => Some(Hd::W(F::wnew())),
            "drop" => {
                drop(self.take(si));
                None
            }
            "pt" | "bp" => {
                let n = if op == "pt" { 1 << a } else { a };
                self.hs[si] = match self.take(si) {
                    Hd::S(s) => Hd::P(F::s_parts(s, n)),
                    Hd::M(s) => Hd::Q(F::m_parts(s, n)),
                    _ => return false,
                };
                None
            }
            "im" => {
                self.hs[si] = match self.take(si) {
                    Hd::S(s) => match F::into_mut(s, var) {
                        Ok(m) => Hd::M(m),
                        Err(s) => Hd::S(s),
                    },
                    _ => return false,
                };
                None
            }
            "fz" | "it" => {
                self.hs[si] = match self.take(si) {
                    Hd::M(m) if op == "fz" => Hd::S(F::into_immut(m, var)),
                    Hd::M(m) => Hd::I(F::into_iter(m)),
                    _ => return false,
                };
                None
            }
            "cf" => {
                let ai = a - 1;
                if ai >= self.hs.len() || ai == si {
                    return false;
                }
                let (lo, hi) = self.hs.split_at_mut(si.max(ai));
                let (to, from) = if si < ai { (&mut lo[si], &hi[0]) } else { (&mut hi[0], &lo[ai]) };
                match (to, from) {
                    (Hd::S(t), Hd::S(f)) => t.clone_from(f),
                    (Hd::W(t), Hd::W(f)) => t.clone_from(f),
                    (Hd::P(t), Hd::P(f)) => t.clone_from(f),
                    _ => return false,
                }
                None
            }
            "cnt" => {
                match self.take(si) {
                    Hd::I(s) => black_box(s.count()),
                    Hd::P(s) => black_box(s.rev().count()),
                    Hd::Q(s) => black_box(s.count()),
                    _ => return false,
                };
                None
            }
            "gm" => {
                let (lo, hi) = self.hs.split_at_mut(si);
                let (h, hi) = hi.split_first_mut().unwrap();
                match h {
                    Hd::S(s) => {
                        let mut rs = Self::refs(lo, a > 0);
                        rs.extend(Self::refs(hi, a > 0));
                        if let Some(m) = F::get_mut(s) {
                            once(&mut rs);
                            rs.push(Ref::Ex(m));
                            touch(rs);
                        }
                    }
                    _ => return false,
                }
                None
            }
            "set" => {
                let x = T::mk(self.nid);
                self.nid += 1;
                let sl: &mut [T] = match &mut self.hs[si] {
                    Hd::M(m) => m,
                    Hd::I(m) => F::i_slice_mut(m),
                    Hd::Q(m) => F::q_slice_mut(m),
                    _ => return false,
                };
                if a >= sl.len() {
                    return false;
                }
                sl[a] = x;
                None
            }
            "up" => match &self.hs[si] {
                Hd::W(w) => F::upgrade(w).map(Hd::S),
                _ => return false,
            },
            "nx" | "nb" | "nt" | "nk" => {
                let n = if op == "nt" || op == "nk" { a } else { 0 };
                let back = op == "nb" || op == "nk";
                match &mut self.hs[si] {
                    Hd::I(it) => {
                        let x = if n > 0 {
                            if back { it.nth_back(n) } else { it.nth(n) }
                        } else if back {
                            it.next_back()
                        } else {
                            it.next()
                        };
                        if let Some(mut x) = x {
                            x.write();
                        }
                        None
                    }
                    Hd::P(it) => if back { it.nth_back(n) } else { it.nth(n) }.map(Hd::S),
                    Hd::Q(it) => if back { it.nth_back(n) } else { it.nth(n) }.map(Hd::M),
                    _ => return false,
                }
            }
            "ls" => match self.take(si) {
                Hd::I(it) => {
                    it.last();
                    None
                }
                Hd::P(it) => it.last().map(Hd::S),
                Hd::Q(it) => it.last().map(Hd::M),
                _ => return false,
            },
            "cp" => None,
            o => Some(match (o, &mut self.hs[si]) {
                ("clone", Hd::S(s)) => Hd::S(s.clone()),
                ("clone", Hd::W(s)) => Hd::W(s.clone()),
                ("clone", Hd::P(s)) => Hd::P(s.clone()),
                ("clone", Hd::M(s)) => Hd::M(F::m_clone(s)),
                ("cl", Hd::S(s)) => Hd::S(F::clone_left(s)),
                ("cr", Hd::S(s)) => Hd::S(F::clone_right(s)),
                ("dg", Hd::S(s)) => Hd::W(F::downgrade(s)),
                ("sl", Hd::S(s)) => Hd::S(F::s_split_left(s)),
                ("sr", Hd::S(s)) => Hd::S(F::s_split_right(s)),
                ("sl", Hd::M(s)) => Hd::M(F::m_split_left(s)),
                ("sr", Hd::M(s)) => Hd::M(F::m_split_right(s)),
                ("sf", Hd::I(s)) => Hd::I(F::i_split_from(s, a)),
                ("st", Hd::I(s)) => Hd::I(F::i_split_to(s, a)),
                _ => return false,
            }),
        };
        if let Some(h) = new {
            self.put(h);
        }
        true
    }
}

fn run<F: Fam, T: Item>(ops: &[u8], var: usize, bomb: u32) {
    let mut m: Mach<F, T> = Mach { hs: Vec::with_capacity(MAXH), nid: 1, var };
    BOMB.store(bomb, Ordering::Relaxed);
    let last = ops.len() / 3;
    for i in 0..last {
        let o = &ops[3 * i..3 * i + 3];
        let (op, s, a) = (OPS[num(o[0])], num(o[1]), num(o[2]));
        let use_all = i + 2 >= last || (i + var) % 4 == 0;
        let mut held = if use_all && op != "gm" && m.hs.len() < MAXH {
            let rs = catch_unwind(AssertUnwindSafe(|| unsafe { m.held([s.wrapping_sub(1), if op == "cf" { a - 1 } else { usize::MAX }], (i + var) % 2 == 0) }));
            rs.unwrap_or(vec![])
        } else {
            vec![]
        };
        let go = catch_unwind(AssertUnwindSafe(|| m.exec(op, s, a)));
        if catch_unwind(AssertUnwindSafe(|| once(&mut held))).is_err() || matches!(go, Ok(false)) {
            break;
        }
        drop(held);
        // all prefixes of a behaviour are behaviours
        if use_all && catch_unwind(AssertUnwindSafe(|| touch(Mach::refs(&mut m.hs, (i + var) % 2 == 1)))).is_err() {
            break;
        }
    }
    let n = m.hs.len();
    for i in 0..n {
        let h = m.take((i * 3 + var) % n.max(1));
        let _ = catch_unwind(AssertUnwindSafe(|| drop(h)));
    }
    for i in 0..n {
        let h = m.take(i);
        let _ = catch_unwind(AssertUnwindSafe(|| drop(h)));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut crew = None;
    let Some(path) = std::env::args().nth(1) else { return };
    let text = std::fs::read(path).unwrap();
    let mut at = 0;
    let mut n = 0;
    while at < text.len() {
        let mut end = at;
        while text[end] != b'\n' {
            end += 1;
        }
        let l = &text[at..end];
        at = end + 1;
        println!("at {}", n);
        n += 1;
        let (var, bomb, ops) = (num(l[2]), num(l[3]), &l[4..]);
        match (l[0], num(l[1])) {
            (b'p', 0) => par::run::<Bx>(crew.get_or_insert_with(par::Crew::new), ops, var, bomb),
            (b'p', 1) => par::run::<Pl>(crew.get_or_insert_with(par::Crew::new), ops, var, bomb),
            (b'p', 2) => par::run::<Al>(crew.get_or_insert_with(par::Crew::new), ops, var, bomb),
            (b'r', 0) => run::<RcF, Bx>(ops, var, bomb as u32),
            (b'r', 1) => run::<RcF, Pl>(ops, var, bomb as u32),
            (b'r', 2) => run::<RcF, Al>(ops, var, bomb as u32),
            (b'r', 3) => run::<RcF, Zs>(ops, var, bomb as u32),
            (b'a', 0) => run::<ArcF, Bx>(ops, var, bomb as u32),
            (b'a', 1) => run::<ArcF, Pl>(ops, var, bomb as u32),
            (b'a', 2) => run::<ArcF, Al>(ops, var, bomb as u32),
            (b'a', 3) => run::<ArcF, Zs>(ops, var, bomb as u32),
            x => panic!("no instance {:?}", x),
        }
    }
    println!("done");
}
