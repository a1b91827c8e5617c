//! Comparing, hashing, printing, borrowing and making handles (spec/Views.tla).
use crate::json::J;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ items

/// Partially ordered: 9 is not equal to and not comparable with anything.
#[derive(Clone)]
pub struct Pv(u8);
impl PartialEq for Pv {
    fn eq(&self, o: &Pv) -> bool {
        self.0 != 9 && self.0 == o.0
    }
}
impl PartialOrd for Pv {
    fn partial_cmp(&self, o: &Pv) -> Option<Ordering> {
        if self.0 == 9 || o.0 == 9 {
            None
        } else {
            Some(self.0.cmp(&o.0))
        }
    }
}
/// x of Pv equals x + 1 of Qv.
#[derive(Clone)]
pub struct Qv(#[allow(dead_code)] u64, u8);
impl PartialEq<Qv> for Pv {
    fn eq(&self, o: &Qv) -> bool {
        self.0 != 9 && self.0 + 1 == o.1
    }
}
/// Totally ordered.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tv(u16);
impl fmt::Debug for Tv {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl Hash for Tv {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0 as u8);
    }
}
/// Hashes runs of items in one go.
#[derive(Clone)]
pub struct Bv(u32);
impl Hash for Bv {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0 as u8);
        h.write_i64(-2);
    }
    fn hash_slice<H: Hasher>(d: &[Self], h: &mut H) {
        for x in d {
            h.write_u8(x.0 as u8);
        }
        h.write_i64(-1);
    }
}
/// Zero-sized and never equal.
#[derive(Clone)]
pub struct Zn;
impl PartialEq for Zn {
    fn eq(&self, _: &Zn) -> bool {
        false
    }
}
impl PartialOrd for Zn {
    fn partial_cmp(&self, _: &Zn) -> Option<Ordering> {
        None
    }
}
/// Counts destructions.
#[derive(Clone)]
pub struct Dv(u8);
thread_local!(static GONE: Cell<i64> = Cell::new(0));
impl Drop for Dv {
    fn drop(&mut self) {
        GONE.with(|g| g.set(g.get() + 1));
    }
}
fn gone() -> i64 {
    GONE.with(|g| g.replace(0))
}

/// Remembers what it was fed.
#[derive(Default, Clone, PartialEq, Debug)]
struct Rec(Vec<i64>, u64);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.1
    }
    fn write(&mut self, b: &[u8]) {
        self.1 += 1;
        self.0.push(-100 - b.len() as i64);
        self.0.extend(b.iter().map(|&x| x as i64));
    }
    fn write_u8(&mut self, x: u8) {
        self.0.push(x as i64)
    }
    fn write_i64(&mut self, x: i64) {
        self.0.push(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.0.push(x as i64)
    }
}
fn fed<T: Hash + ?Sized>(x: &T) -> Vec<i64> {
    let mut h = Rec::default();
    x.hash(&mut h);
    h.0
}

// ------------------------------------------------------------------ tests and results

#[derive(Clone, Debug)]
pub struct Pair {
    a: (Vec<u8>, String),
    b: (Vec<u8>, String),
    same: bool,
}
fn nums(j: &J) -> Vec<i64> {
    j.a().iter().map(|x| x.n()).collect()
}
fn bytes(j: &J) -> Vec<u8> {
    j.a().iter().map(|x| x.n() as u8).collect()
}
/// The items of a construction: given one by one, or by their number.
fn many(j: &J, items: &str) -> Vec<u8> {
    match j.get("long").n() {
        0 => bytes(j.get(items)),
        n => (1..=n).map(|i| (i * 7 % 251) as u8).collect(),
    }
}
fn side(j: &J) -> (Vec<u8>, String) {
    (bytes(j.get("buf")), j.get("p").a().iter().map(|x| x.s()).collect())
}
impl Pair {
    fn of(j: &J) -> Pair {
        Pair { a: side(j.get("a")), b: side(j.get("b")), same: j.get("same").b() }
    }
    fn text(&self) -> String {
        format!("{:?} by {:?} with {:?} by {:?}{}", self.a.0, self.a.1, self.b.0, self.b.1, if self.same { " of the same buffer" } else { "" })
    }
    fn json(&self) -> String {
        let s = |x: &(Vec<u8>, String)| {
            format!("{{\"buf\":{:?},\"p\":[{}]}}", x.0, x.1.chars().map(|c| format!("\"{}\"", c)).collect::<Vec<_>>().join(","))
        };
        format!("{{\"a\":{},\"b\":{},\"same\":{}}}", s(&self.a), s(&self.b), self.same)
    }
}
fn name(o: Option<Ordering>) -> &'static str {
    match o {
        None => "none",
        Some(Ordering::Less) => "lt",
        Some(Ordering::Equal) => "eq",
        Some(Ordering::Greater) => "gt",
    }
}
/// Results of comparing a with b, by field of the specification.
type Cmp = Vec<(&'static str, String)>;
fn cmp_fields(eq: bool, ne: bool, het: bool, pc: Option<Ordering>, ops: [bool; 4], teq: bool, cmp: Ordering) -> Cmp {
    vec![
        ("eq", eq.to_string()),
        ("ne", ne.to_string()),
        ("het", het.to_string()),
        ("pc", format!("\"{}\"", name(pc))),
        ("ops", format!("{:?}", ops).replace(' ', "")),
        ("teq", teq.to_string()),
        ("cmp", format!("\"{}\"", name(Some(cmp)))),
    ]
}
fn str_json(s: &str) -> String {
    format!("\"{}\"", s.replace('\n', "|"))
}
fn list_json(v: &[i64]) -> String {
    format!("{:?}", v).replace(' ', "")
}
fn obj(f: &[(&'static str, String)]) -> String {
    format!("{{{}}}", f.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","))
}
fn plain(j: &J) -> String {
    match j {
        J::B(b) => b.to_string(),
        J::N(n) => n.to_string(),
        J::S(s) => format!("\"{}\"", s),
        J::A(v) => format!("[{}]", v.iter().map(plain).collect::<Vec<_>>().join(",")),
        _ => "?".to_string(),
    }
}

/// What was seen for one pair: fields e, r, o, w of the specification, and what else is wrong.
pub struct Seen {
    e: Cmp,
    r: Cmp,
    o: Cmp,
    w: [i64; 2],
    wrong: Vec<(&'static str, String)>,
}

pub struct Made {
    shows: Vec<u8>,
    gone: i64,
    panicked: bool,
    wrong: Vec<(&'static str, String)>,
}

/// An iterator with a size hint of its own, that goes on after its end, and may panic.
struct Odd {
    v: Vec<u8>,
    i: usize,
    hint: (usize, Option<usize>),
    panic_at: usize,
}
impl Iterator for Odd {
    type Item = Dv;
    fn next(&mut self) -> Option<Dv> {
        self.i += 1;
        if self.i == self.panic_at {
            std::panic::panic_any(7u8);
        }
        if self.i > self.v.len() + 40 + self.v.len() / 8 {
            panic!("asked for items again and again after the end");
        }
        if self.i == self.v.len() + 1 {
            return None;
        }
        if self.i > self.v.len() {
            return Some(Dv(77)); // not fused
        }
        Some(Dv(self.v[self.i - 1]))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn generic_borrow<T, B: Borrow<[T]>>(b: &B) -> (*const T, usize) {
    (b.borrow().as_ptr(), b.borrow().len())
}
fn generic_ref<T, B: AsRef<[T]>>(b: &B) -> (*const T, usize) {
    (b.as_ref().as_ptr(), b.as_ref().len())
}
fn generic_mut<T, B: AsMut<[T]> + BorrowMut<[T]>>(b: &mut B) -> [(*const T, usize); 2] {
    let x = (b.as_mut().as_ptr(), b.as_mut().len());
    let y = (b.borrow_mut().as_ptr(), b.borrow_mut().len());
    [x, y]
}

fn numbers(s: &str) -> Vec<i64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn prints<I: DoubleEndedIterator + fmt::Debug>(mut it: I, t: &J) -> Vec<Vec<i64>> {
    let mut keep = vec![];
    for (i, s) in t.get("steps").a().iter().enumerate() {
        let x = if s.s() == "f" { it.next() } else { it.next_back() };
        if i % 2 == 0 {
            keep.push(x);
        }
    }
    vec![numbers(&format!("{:?}", it)), numbers(&format!("{:#?}", it)), numbers(&format!("{:?}", Some((&it,))))]
}

macro_rules! handle {
    ($m:ident, $H:ident, $path:path, $shared:tt) => {
        pub mod $m {
            use super::*;
            use $path as H;

            fn halve<T>(h: &mut H<T>, path: &str, how: usize) -> Vec<H<T>> {
                let mut keep = vec![];
                for (i, c) in path.chars().enumerate() {
                    handle!(@half $shared, h, keep, c, how + i);
                }
                keep
            }

            /// The two handles of a pair; everything that keeps them company is kept in the vector.
            fn pair<T>(p: &Pair, how: usize, mk: impl Fn(u8) -> T) -> (H<T>, H<T>, Vec<H<T>>, *const T) {
                let full = |x: &[u8]| -> H<T> {
                    let v: Vec<T> = x.iter().map(|&y| mk(y)).collect();
                    if how % 2 == 0 { H::from(v) } else { H::from(v.into_boxed_slice()) }
                };
                let mut a = full(&p.a.0);
                let base = a.as_ptr();
                let mut b = handle!(@alias $shared, p, a, full(&p.b.0));
                let mut keep = halve(&mut a, &p.a.1, how);
                keep.extend(halve(&mut b, &p.b.1, how / 2));
                if how % 3 == 0 {
                    keep.clear();
                }
                (a, b, keep, base)
            }

            fn comparisons(p: &Pair, how: usize, swap: bool, wrong: &mut Vec<(&'static str, String)>) -> Cmp {
                let (a, b, _k, _) = pair(p, how, Pv);
                let own = p.same && p.a.1 == p.b.1;
                let (x, y) = match (swap, own && how % 2 == 0) { (_, true) => (&a, &a), (false, _) => (&a, &b), _ => (&b, &a) };
                let (eq, ne, pc) = (x == y, x != y, x.partial_cmp(y));
                let ops = [x < y, x <= y, x > y, x >= y];
                let (_q1, q2, _k2, _) = pair(p, how + 1, |v| Qv(0, v));
                let (q1, _, _k3, _) = pair(p, how + 1, |v| Qv(0, v));
                let het = x == if swap { &q1 } else { &q2 };
                if het == (x != if swap { &q1 } else { &q2 }) {
                    wrong.push(("ne-het", "== and != agree".to_string()));
                }
                let (c, d, _k4, _) = pair(p, how, |v| Tv(v as u16));
                let (s, t) = match (swap, own && how % 2 == 0) { (_, true) => (&c, &c), (false, _) => (&c, &d), _ => (&d, &c) };
                let (teq, cmp) = (s == t, s.cmp(t));
                if s.partial_cmp(t) != Some(cmp) || teq == (s != t) || (s < t) != (cmp == Ordering::Less) || (s >= t) != (cmp != Ordering::Less) {
                    wrong.push(("ord", "the operators disagree".to_string()));
                }
                let mx = if swap { (&d, &c) } else { (&c, &d) };
                if fed(mx.0) == fed(mx.1) && !teq {
                    wrong.push(("hash", "different handles are fed alike".to_string()));
                }
                // sized otherwise
                let all = |n: u8| p.a.0.iter().chain(p.b.0.iter()).all(|&z| z == n);
                if all(9) {
                    let (a, b, _k, _) = pair(p, how, |_| Zn);
                    let (x, y) = if swap { (&b, &a) } else { (&a, &b) };
                    if (x == y) != eq || (x != y) != ne || x.partial_cmp(y) != pc {
                        wrong.push(("zst", "zero-sized items compare otherwise".to_string()));
                    }
                }
                if all(1) {
                    let (a, b, _k, _) = pair(p, how, |_| ());
                    let (x, y) = if swap { (&b, &a) } else { (&a, &b) };
                    if (x == y) != eq || x.cmp(y) != cmp || fed(x) != vec![x.len() as i64] {
                        wrong.push(("zst", "zero-sized items compare or hash otherwise".to_string()));
                    }
                }
                // items with an ordering and a hash of the standard library
                let (a, b, _k, _) = pair(p, how, |v| v);
                let (x, y) = if swap { (&b, &a) } else { (&a, &b) };
                if x.cmp(y) != x[..].cmp(&y[..]) || (x == y) != teq || x.partial_cmp(y) != Some(cmp) {
                    wrong.push(("bytes", "bytes compare otherwise".to_string()));
                }
                if fed(x) != fed(&x[..]) {
                    wrong.push(("bytes", "bytes hash otherwise".to_string()));
                }
                let (a, b, _k, _) = pair(p, how, |v| v.to_string());
                let (x, y) = if swap { (&b, &a) } else { (&a, &b) };
                if x.cmp(y) != cmp || (x == y) != teq || fed(x) != fed(&x[..]) || format!("{:?}{:#?}", x, y) != format!("{:?}{:#?}", &x[..], &y[..]) {
                    wrong.push(("strings", "strings compare, hash or print otherwise".to_string()));
                }
                cmp_fields(eq, ne, het, pc, ops, teq, cmp)
            }

            fn see(p: &Pair, how: usize) -> Seen {
                let mut wrong = vec![];
                let e = comparisons(p, how, false, &mut wrong);
                let r = comparisons(p, how, true, &mut wrong);
                let (a, _b, _k, base) = pair(p, how, |v| Tv(v as u16));
                let (bulk, _, _k2, _) = pair(p, how, |v| Bv(v as u32));
                let (some, _, _k3, _) = pair(p, how, |v| Some(Tv(v as u16)));
                let o = vec![
                    ("each", list_json(&fed(&a))),
                    ("bulk", list_json(&fed(&bulk))),
                    ("d", str_json(&format!("{:?}", a))),
                    ("dw", str_json(&format!("{:03?}", a))),
                    ("da", str_json(&format!("{:#?}", a))),
                    ("ds", str_json(&format!("{:#?}", some))),
                ];
                let at = (a.as_ptr(), a.len());
                if generic_borrow(&a) != at {
                    wrong.push(("borrow", "borrow() gives another slice".to_string()));
                }
                if generic_ref(&a) != at {
                    wrong.push(("as_ref", "as_ref() gives another slice".to_string()));
                }
                let mut a = a;
                handle!(@mutrefs $shared, a, at, wrong);
                let lo = if at.1 == 0 { 0 } else { (at.0 as i64 - base as i64) / std::mem::size_of::<Tv>() as i64 };
                Seen { e, r, o, w: [lo, lo + at.1 as i64], wrong }
            }

            fn made(way: &str, buf: &[u8], k: usize) -> Made {
                gone();
                let mut wrong = vec![];
                let items = |extra: usize| {
                    let mut v = Vec::with_capacity(buf.len() + extra);
                    v.extend(buf.iter().map(|&x| Dv(x)));
                    v
                };
                let n = buf.len();
                let odd = |hint, panic_at| Odd { v: buf.to_vec(), i: 0, hint, panic_at };
                let r = catch_unwind(AssertUnwindSafe(|| -> H<Dv> {
                    match way {
                        "vec" => { let mut v = items(0); v.shrink_to_fit(); v.into() }
                        "vec1" => items(1).into(),
                        "vec5" => items(5).into(),
                        "box" => items(0).into_boxed_slice().into(),
                        "iter" => items(2).into_iter().collect(),
                        "nohint" => odd((0, None), 0).collect(),
                        "low" => odd((n / 2, Some(n / 2)), 0).collect(),
                        "high" => odd((n + 3, Some(n + 3)), 0).collect(),
                        "wild" => odd((n, Some(0)), 0).collect(),
                        "panic" => odd((n, Some(n)), k).collect(),
                        "rest" => {
                            // what is left of a vector's iterator, taken from both ends
                            let mut v = vec![Dv(90)];
                            v.extend(items(0));
                            v.push(Dv(91));
                            let mut it = v.into_iter();
                            it.next();
                            it.next_back();
                            gone();
                            it.collect()
                        }
                        "filter" => items(0).into_iter().filter(|_| true).map(|x| x).collect(),
                        "chain" => {
                            let mut v = items(0);
                            let w = v.split_off(n / 3);
                            v.into_iter().chain(w.into_iter().filter(|x| x.0 != 255)).collect()
                        }
                        "flat" => buf.chunks(3).flat_map(|c| c.iter().map(|&x| Dv(x)).collect::<Vec<_>>()).collect(),
                        "again" => {
                            // collected in turns: handle, vector, handle
                            let h: H<Dv> = items(3).into_iter().collect();
                            let v: Vec<Dv> = h.iter().map(|x| Dv(x.0)).collect();
                            drop(h);
                            gone();
                            v.into_iter().take_while(|x| x.0 != 255).collect()
                        }
                        "onto-less" | "onto-same" | "onto-more" => {
                            // assigned over a handle of other items
                            let n0 = match way { "onto-less" => n / 2, "onto-same" => n, _ => n + 2 };
                            let src: H<Dv> = items(1).into();
                            let mut h: H<Dv> = (0..n0).map(|_| Dv(92)).collect();
                            gone();
                            if n % 2 == 0 { h.clone_from(&src) } else { Clone::clone_from(&mut h, &src) }
                            let g = gone();
                            if g != n0 as i64 {
                                wrong.push(("assigned", format!("assigning over {} items destroyed {}", n0, g)));
                            }
                            drop(src);
                            let (g, want) = (gone(), if handle!(@is $shared) { 0 } else { n as i64 });
                            if g != want {
                                wrong.push(("assigned", format!("dropping what was assigned from destroyed {} of {} items", g, n)));
                            }
                            h
                        }
                        "refs" => H::from_iter(buf.iter().map(|x| Dv(*x))),
                        "mut" => handle!(@other $shared, $m, items(1)),
                        w => panic!("unknown way {}", w),
                    }
                }));
                match r {
                    Err(_) => Made { shows: vec![], gone: gone(), panicked: true, wrong },
                    Ok(h) => {
                        let shows = h.iter().map(|x| x.0).collect();
                        let g = gone();
                        drop(h);
                        let g2 = gone();
                        if g2 != n as i64 {
                            wrong.push(("destroyed", format!("{} of {} items destroyed in the end", g2, n)));
                        }
                        Made { shows, gone: g, panicked: false, wrong }
                    }
                }
            }
            pub fn make(t: &J) -> Made {
                made(t.get("way").s(), &many(t, "buf"), t.get("k").n() as usize)
            }

            /// The numbers an iterator prints after the steps, as {:?}, {:#?} and a reference.
            pub fn iter(t: &J) -> Option<Vec<Vec<i64>>> {
                let n = t.get("n").n();
                // a slice of its own, or the right half of a longer one
                let mut v: Vec<Tv> = (0..n).map(|i| Tv(11 + i as u16)).collect();
                let mut h: H<Tv> = if t.get("steps").a().len() % 2 == 0 || n == 0 {
                    v.into()
                } else {
                    let mut w: Vec<Tv> = (0..n).map(|_| Tv(99)).collect();
                    w.append(&mut v);
                    let mut h = H::from(w);
                    H::split_off_right(&mut h)
                };
                let parts = 1usize << t.get("lg").n();
                handle!(@print $shared, h, t, parts)
            }

            fn key(c: &[u8]) -> H<Tv> {
                let mut v: Vec<Tv> = c.iter().map(|_| Tv(5)).collect();
                v.extend(c.iter().map(|&x| Tv(x as u16)));
                let mut h = H::from(v);
                if c.len() > 0 {
                    let r = H::split_off_right(&mut h);
                    return r;
                }
                h
            }
            /// The results of the operations on a HashMap and a BTreeMap, and the keys in order.
            pub fn map(ops: &[J]) -> Vec<(&'static str, Vec<i64>, Vec<Vec<i64>>)> {
                let mut hm: HashMap<H<Tv>, i64, BuildHasherDefault<std::collections::hash_map::DefaultHasher>> = HashMap::default();
                let mut bm: BTreeMap<H<Tv>, i64> = BTreeMap::new();
                let (mut r1, mut r2) = (vec![], vec![]);
                for (i, op) in ops.iter().enumerate() {
                    let c = bytes(&op.a()[1]);
                    let k: Vec<Tv> = c.iter().map(|&x| Tv(x as u16)).collect();
                    let (x, y) = match op.a()[0].s() {
                        "ins" => (hm.insert(key(&c), i as i64 + 1), bm.insert(key(&c), i as i64 + 1)),
                        "get" => (hm.get(&k[..]).copied(), bm.get(&k[..]).copied()),
                        "rem" => (hm.remove(&k[..]), bm.remove(&k[..])),
                        o => panic!("unknown operation {}", o),
                    };
                    r1.push(x.unwrap_or(0));
                    r2.push(y.unwrap_or(0));
                }
                let show = |h: &H<Tv>| -> Vec<i64> { h.iter().map(|x| x.0 as i64).collect() };
                let mut ks: Vec<_> = hm.into_keys().collect();
                ks.sort();
                vec![("HashMap", r1, ks.iter().map(show).collect()), ("BTreeMap", r2, bm.keys().map(show).collect())]
            }

            pub fn look(p: &Pair, how: usize) -> Result<Seen, String> {
                catch_unwind(AssertUnwindSafe(|| see(p, how))).map_err(|e| {
                    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".to_string())
                })
            }
            pub const NAME: &str = stringify!($H);
        }
    };
    (@half shared, $h:ident, $keep:ident, $c:ident, $how:expr) => {{
        let half = match ($c, $how % 4) {
            ('l', 0) | ('l', 1) => H::clone_left($h),
            ('l', 2) => H::split_off_left($h),
            ('l', _) => { let r = H::split_off_right($h); std::mem::replace($h, r) }
            ('r', 0) | ('r', 1) => H::clone_right($h),
            ('r', 2) => H::split_off_right($h),
            _ => { let r = H::split_off_left($h); std::mem::replace($h, r) }
        };
        $keep.push(std::mem::replace($h, half));
    }};
    (@half mutable, $h:ident, $keep:ident, $c:ident, $how:expr) => {{
        let half = match ($c, $how % 2) {
            ('l', 0) => H::split_off_left($h),
            ('l', _) => { let r = H::split_off_right($h); std::mem::replace($h, r) }
            ('r', 0) => H::split_off_right($h),
            _ => { let r = H::split_off_left($h); std::mem::replace($h, r) }
        };
        $keep.push(std::mem::replace($h, half));
    }};
    (@print shared, $h:ident, $t:ident, $parts:ident) => {
        if $t.get("k").s() != "P" { None } else { Some(prints(H::split_into_parts(std::mem::replace(&mut $h, vec![].into()), $parts), $t)) }
    };
    (@print mutable, $h:ident, $t:ident, $parts:ident) => {
        match $t.get("k").s() {
            "I" => Some(prints(std::mem::replace(&mut $h, vec![].into()).into_iter(), $t)),
            "Q" => Some(prints(H::split_into_parts(std::mem::replace(&mut $h, vec![].into()), $parts), $t)),
            _ => None,
        }
    };
    (@alias shared, $p:ident, $a:ident, $b:expr) => { if $p.same { $a.clone() } else { $b } };
    (@alias mutable, $p:ident, $a:ident, $b:expr) => { $b };
    (@is shared) => { true };
    (@is mutable) => { false };
    (@mutrefs shared, $a:ident, $at:ident, $wrong:ident) => {{
        let m = H::get_mut(&mut $a).map(|s| (s.as_ptr(), s.len()));
        if m.map_or(false, |m| m.1 != $at.1) {
            $wrong.push(("get_mut", "get_mut gives another slice".to_string()));
        }
    }};
    (@mutrefs mutable, $a:ident, $at:ident, $wrong:ident) => {{
        for (m, x) in ["as_mut", "borrow_mut"].iter().zip(generic_mut(&mut $a)) {
            if (x.0 as *const Tv, x.1) != (if x.1 == 0 { x.0 } else { $at.0 as *const Tv }, $at.1) {
                $wrong.push((m, "gives another slice".to_string()));
            }
        }
        // what is written is there
        let n = $a.len();
        if n > 0 {
            let old = $a[n - 1].clone();
            let s: &mut [Tv] = $a.as_mut();
            s[n - 1] = Tv(500);
            let t: &mut [Tv] = $a.borrow_mut();
            let ok1 = t[n - 1] == Tv(500);
            t[n - 1] = Tv(501);
            if !ok1 || $a[n - 1] != Tv(501) {
                $wrong.push(("as_mut", "items written are lost".to_string()));
            }
            $a[n - 1] = old;
        }
    }};
    (@other $k:tt, rs, $v:expr) => { rc_slice::RcSliceMut::from($v).into() };
    (@other $k:tt, $m:ident, $v:expr) => { handle!(@other2 $m, $v) };
    (@other2 as_, $v:expr) => { rc_slice::ArcSliceMut::from($v).into() };
    (@other2 rm, $v:expr) => { std::convert::TryFrom::try_from(rc_slice::RcSlice::from($v)).ok().unwrap() };
    (@other2 am, $v:expr) => { std::convert::TryFrom::try_from(rc_slice::ArcSlice::from($v)).ok().unwrap() };
}

handle!(rs, RcSlice, rc_slice::RcSlice, shared);
handle!(as_, ArcSlice, rc_slice::ArcSlice, shared);
handle!(rm, RcSliceMut, rc_slice::RcSliceMut, mutable);
handle!(am, ArcSliceMut, rc_slice::ArcSliceMut, mutable);

fn esc(s: &str) -> String {
    s.replace('\\', "/").replace('"', "'").replace('\n', "|")
}

fn report(op: &str, fam: &str, detail: &str, test: &str, line: usize) {
    println!(
        "{{\"cls\":\"view\",\"op\":\"{}\",\"kind\":\"-\",\"fam\":\"{}\",\"ty\":\"-\",\"detail\":\"{}\",\"ops\":\"{}\",\"line\":{}}}",
        op, fam, esc(detail), esc(test), line
    );
}

fn compare(op: &str, got: &Cmp, want: &J, fam: &str, t: &Pair, line: usize, n: &mut u64) {
    for (k, v) in got {
        *n += 1;
        let w = plain(want.get(k));
        if &w != v {
            report(&format!("{}{}", k, op), fam, &format!("gives {} instead of {}", v, w), &t.text(), line);
        }
    }
}

fn arg<'a>(args: &'a [String], k: &str) -> &'a str {
    let i = args.iter().position(|x| x == k).unwrap_or_else(|| panic!("{} missing", k));
    &args[i + 1]
}
fn opt(args: &[String], k: &str, d: usize) -> usize {
    args.iter().position(|x| x == k).map_or(d, |i| args[i + 1].parse().unwrap())
}
fn progress(s: &str) {
    if let Ok(p) = std::env::var("PROGRESS") {
        let _ = std::fs::write(p, s);
    }
}

/// Replays the tests TLC printed.
pub fn run(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(arg(args, "--file")).unwrap();
    let (shard, of) = (opt(args, "--shard", 0), opt(args, "--of", 1));
    let only = opt(args, "--only", usize::MAX);
    let (mut tests, mut ops) = (0u64, 0u64);
    for (line, l) in text.lines().enumerate() {
        if l.len() < 3 || !l.starts_with('"') || (line % of != shard && only == usize::MAX) || (only != usize::MAX && line != only) {
            continue;
        }
        if !(l.starts_with("\"T ") || l.starts_with("\"M ") || l.starts_with("\"N ") || l.starts_with("\"I ")) {
            continue;
        }
        let j = J::parse(&J::parse(l).s()[2..]);
        if tests % 64 == 0 || only != usize::MAX {
            progress(&format!("line {} {}", line, "- -"));
        }
        tests += 1;
        match &l[1..2] {
            "T" => {
                let p = Pair::of(j.get("t"));
                for (fam, look) in [(rs::NAME, rs::look as fn(&Pair, usize) -> Result<Seen, String>), (as_::NAME, as_::look), (rm::NAME, rm::look), (am::NAME, am::look)] {
                    match look(&p, line) {
                        Err(e) => report("panic", fam, &e, &p.text(), line),
                        Ok(s) => {
                            compare("", &s.e, j.get("e"), fam, &p, line, &mut ops);
                            compare(" of b and a", &s.r, j.get("r"), fam, &p, line, &mut ops);
                            compare("", &s.o, j.get("o"), fam, &p, line, &mut ops);
                            if nums(j.get("w")) != s.w {
                                report("window", fam, &format!("shows {:?} instead of {:?}", s.w, nums(j.get("w"))), &p.text(), line);
                            }
                            for (k, w) in s.wrong {
                                report(k, fam, &w, &p.text(), line);
                            }
                        }
                    }
                }
            }
            "I" => {
                let t = j.get("t");
                let want = nums(j.get("nums"));
                for (fam, iter) in [(rs::NAME, rs::iter as fn(&J) -> Option<Vec<Vec<i64>>>), (as_::NAME, as_::iter), (rm::NAME, rm::iter), (am::NAME, am::iter)] {
                    let text = format!("{} of {} items, 2^{} parts, after {}", t.get("k").s(), t.get("n").n(), t.get("lg").n(), plain(t.get("steps")));
                    match catch_unwind(AssertUnwindSafe(|| iter(t))) {
                        Err(_) => report("print", fam, "panic", &text, line),
                        Ok(r) => {
                            for x in r.unwrap_or_default() {
                                ops += 1;
                                if x != want {
                                    report("print", fam, &format!("prints {:?} instead of {:?}", x, want), &text, line);
                                }
                            }
                        }
                    }
                }
            }
            "N" => {
                let t = j.get("t");
                let text = match t.get("long").n() {
                    0 => format!("{} of {:?}, k {}", t.get("way").s(), bytes(t.get("buf")), t.get("k").n()),
                    n => format!("{} of {} items, k {}", t.get("way").s(), n, t.get("k").n()),
                };
                for (fam, make) in [(rs::NAME, rs::make as fn(&J) -> Made), (as_::NAME, as_::make), (rm::NAME, rm::make), (am::NAME, am::make)] {
                    let m = make(t);
                    ops += 3;
                    if m.panicked != (t.get("way").s() == "panic") {
                        report("make", fam, "panics, or does not", &text, line);
                    } else if m.shows != many(&j, "shows") || m.gone != j.get("gone").n() {
                        report("make", fam, &format!("shows {} items: {:?}.., {} items destroyed", m.shows.len(), &m.shows[..m.shows.len().min(20)], m.gone), &text, line);
                    }
                    for (k, w) in m.wrong {
                        report(k, fam, &w, &text, line);
                    }
                }
            }
            _ => {
                let o = j.get("ops").a();
                let want: Vec<i64> = o.iter().map(|x| x.a()[2].n()).collect();
                let ord: Vec<Vec<i64>> = j.get("ord").a().iter().map(nums).collect();
                for (fam, map) in [(rs::NAME, rs::map as fn(&[J]) -> _), (as_::NAME, as_::map), (rm::NAME, rm::map), (am::NAME, am::map)] {
                    let r = catch_unwind(AssertUnwindSafe(|| map(o)));
                    match r {
                        Err(_) => report("map", fam, "panic", &plain(j.get("ops")), line),
                        Ok(r) => {
                            for (m, res, ks) in r {
                                ops += 1;
                                if res != want || ks != ord {
                                    report(m, fam, &format!("gives {:?}, keys {:?} instead of {:?}, {:?}", res, ks, want, ord), &plain(j.get("ops")), line);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    println!("{{\"summary\":true,\"tests\":{},\"ops\":{},\"abandoned\":0,\"bypanic\":0}}", tests, ops);
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}

/// Random larger pairs; what was seen goes to a file for the specification to judge.
pub fn record(args: &[String]) {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::BufWriter::new(std::fs::File::create(arg(args, "--out")).unwrap());
    let num = opt(args, "--num", 100);
    let mut r = Rng(opt(args, "--seed", 1) as u64 * 7919 + 13);
    let mut ops = 0;
    for n in 0..num {
        let max = [4, 9, 17, 40, 130][r.next(5) as usize];
        let vals: &[u8] = if r.next(2) == 0 { &[1, 2] } else { &[1, 2, 3, 9] };
        let buf = |r: &mut Rng, len: u64| -> Vec<u8> { (0..len).map(|_| vals[r.next(vals.len() as u64) as usize]).collect() };
        let path = |r: &mut Rng| -> String {
            let n = r.next(4);
            (0..n).map(|_| if r.next(2) == 0 { 'l' } else { 'r' }).collect()
        };
        let la = r.next(max + 1);
        let a = buf(&mut r, la);
        let pa = path(&mut r);
        // b: the same buffer, or equal to a but for an item, or a prefix of it, or any
        let k = r.next(5);
        let (b, pb) = match k {
            0 | 1 => (a.clone(), path(&mut r)),
            2 => {
                let mut b = a.clone();
                let l = b.len().max(1) as u64;
                if let Some(x) = b.get_mut(r.next(l) as usize) {
                    *x = vals[r.next(vals.len() as u64) as usize];
                }
                (b, pa.clone())
            }
            3 => {
                let mut b = a.clone();
                b.truncate(r.next(a.len() as u64 + 1) as usize);
                (b, "".to_string())
            }
            _ => {
                let l = r.next(max + 1);
                (buf(&mut r, l), path(&mut r))
            }
        };
        let p = Pair { same: k == 0, a: (a, pa), b: (b, pb) };
        progress(&format!("pair {} - -", n));
        for (fam, look) in [(rs::NAME, rs::look as fn(&Pair, usize) -> Result<Seen, String>), (as_::NAME, as_::look), (rm::NAME, rm::look), (am::NAME, am::look)] {
            match look(&p, n) {
                Err(e) => report("panic", fam, &e, &p.text(), n),
                Ok(s) => {
                    ops += 20;
                    writeln!(out, "{{\"t\":{},\"e\":{},\"r\":{},\"o\":{},\"w\":{},\"fam\":\"{}\"}}", p.json(), obj(&s.e), obj(&s.r), obj(&s.o), list_json(&s.w), fam).unwrap();
                    for (k, w) in s.wrong {
                        report(k, fam, &w, &p.text(), n);
                    }
                }
            }
        }
    }
    out.flush().unwrap();
    println!("{{\"summary\":true,\"tests\":{},\"ops\":{},\"abandoned\":0,\"bypanic\":0}}", num, ops);
}
