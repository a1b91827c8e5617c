//! Histories of slices of astronomically many zero-sized items, for validation against spec/Huge.tla.
use crate::drive::Rng;
use crate::fam::Fam;
use crate::modes::Ctx;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

enum H<F: Fam, T: 'static> {
    N,
    S(F::S<T>),
    M(F::M<T>),
    I(F::I<T>),
    P(F::P<T>),
    Q(F::Q<T>),
}
impl<F: Fam, T: 'static> H<F, T> {
    fn k(&self) -> &'static str {
        match self {
            H::N => "-",
            H::S(_) => "S",
            H::M(_) => "M",
            H::I(_) => "I",
            H::P(_) => "P",
            H::Q(_) => "Q",
        }
    }
    fn slice(&self) -> Option<&[T]> {
        Some(match self {
            H::N => return None,
            H::S(h) => h,
            H::M(h) => h,
            H::I(h) => F::i_slice(h),
            H::P(h) => F::p_slice(h),
            H::Q(h) => F::q_slice(h),
        })
    }
    /// How many more it says it yields.
    fn left(&self) -> usize {
        match self {
            H::I(h) => h.len(),
            H::P(h) => h.len(),
            H::Q(h) => h.len(),
            _ => 0,
        }
    }
    fn hint_ok(&self) -> bool {
        let n = self.left();
        match self {
            H::I(h) => h.size_hint() == (n, Some(n)),
            H::P(h) => h.size_hint() == (n, Some(n)),
            H::Q(h) => h.size_hint() == (n, Some(n)),
            _ => true,
        }
    }
}

/// Binary digits, least significant first.
fn bits(mut n: usize) -> String {
    let mut s = String::from("[");
    while n > 0 {
        if s.len() > 1 {
            s.push(',');
        }
        s.push(if n & 1 == 1 { '1' } else { '0' });
        n >>= 1;
    }
    s + "]"
}

fn many<T>(n: usize) -> Vec<T> {
    assert_eq!(std::mem::size_of::<T>(), 0);
    assert!(!std::mem::needs_drop::<T>());
    let mut v = Vec::new();
    unsafe { v.set_len(n) }
    v
}

pub fn run<F: Fam, T: Clone + 'static>(cx: &mut Ctx, ty: &str, weights: &[(String, usize)], nslots: usize, nops: usize, seed: u64) -> String {
    cx.tests += 1;
    let mut rng = Rng(seed);
    let mut hs: Vec<H<F, T>> = (0..nslots).map(|_| H::N).collect();
    let tot: usize = weights.iter().map(|x| x.1).sum();
    let mut out = format!("{{\"fam\":\"{}\",\"ty\":\"{}\",\"n\":{},\"st\":[", F::NAME, ty, nslots);
    let mut ops = String::new();
    let (mut done, mut tries) = (0, 0);
    while done < nops && tries < nops * 40 {
        tries += 1;
        let mut r = rng.below(tot);
        let o = weights.iter().find(|x| if r < x.1 { true } else { r -= x.1; false }).unwrap().0.clone();
        let free = hs.iter().position(|h| matches!(h, H::N));
        let mut at = 0usize;
        let s;
        if o == "new" || o == "newm" {
            s = match free { Some(f) => f, None => continue };
            let top = rng.below(65);
            at = (if top == 64 { usize::MAX } else { 1usize << top }).wrapping_sub(rng.below(3)).wrapping_add(rng.below(3));
            if rng.below(4) == 0 {
                at &= rng.next() as usize;
            }
        } else {
            let c: Vec<usize> = (0..nslots).filter(|&i| match o.as_str() {
                "cl" | "cr" | "gm" | "im" => hs[i].k() == "S",
                "clone" => matches!(hs[i].k(), "S" | "P"),
                "sl" | "sr" | "pt" => matches!(hs[i].k(), "S" | "M"),
                "drop" => hs[i].k() != "-",
                "fz" | "it" => hs[i].k() == "M",
                "nx" | "nb" => matches!(hs[i].k(), "I" | "P" | "Q"),
                "sf" | "st" => hs[i].k() == "I",
                _ => false,
            }).collect();
            if c.is_empty() { continue; }
            s = c[rng.below(c.len())];
            let needs = matches!(o.as_str(), "cl" | "cr" | "clone" | "sl" | "sr" | "sf" | "st") || (matches!(o.as_str(), "nx" | "nb") && hs[s].k() != "I");
            if needs && free.is_none() { continue; }
            if o == "pt" {
                at = 1usize << [0, 1, 2, 8, 16, 30, 31, 32, 33, 34, 40, 52, 53, 54, 62, 63][rng.below(16)];
            }
            if o == "sf" || o == "st" {
                let n = hs[s].left();
                at = match rng.below(8) {
                    0 => n,
                    1 => n.wrapping_add(1),
                    2 => usize::MAX,
                    3 => n / 2,
                    4 => n.wrapping_sub(1),
                    5 => rng.next() as usize,
                    6 => rng.next() as usize % n.max(1),
                    _ => rng.below(3),
                };
            }
        }
        cx.ops += 1;
        done += 1;
        let kind = hs[s].k();
        write!(ops, "{}{}({},{})", if ops.is_empty() { "" } else { " " }, o, s + 1, at).unwrap();
        let fresh = free.unwrap_or(0);
        let mut res: (&str, String) = ("ok", String::new());
        let new = |f: usize| ("h", format!("{}", f + 1));
        let h = std::mem::replace(&mut hs[s], H::N);
        match (o.as_str(), h) {
            ("new", _) => { hs[s] = H::S(F::s_from(many(at), rng.below(4))); res = new(s) }
            ("newm", _) => { hs[s] = H::M(F::m_from(many(at), rng.below(4))); res = new(s) }
            ("cl", H::S(h)) => { hs[fresh] = H::S(F::clone_left(&h)); hs[s] = H::S(h); res = new(fresh) }
            ("cr", H::S(h)) => { hs[fresh] = H::S(F::clone_right(&h)); hs[s] = H::S(h); res = new(fresh) }
            ("clone", H::S(h)) => { hs[fresh] = H::S(h.clone()); hs[s] = H::S(h); res = new(fresh) }
            ("clone", H::P(h)) => { hs[fresh] = H::P(h.clone()); hs[s] = H::P(h); res = new(fresh) }
            ("sl", H::S(mut h)) => { hs[fresh] = H::S(F::s_split_left(&mut h)); hs[s] = H::S(h); res = new(fresh) }
            ("sr", H::S(mut h)) => { hs[fresh] = H::S(F::s_split_right(&mut h)); hs[s] = H::S(h); res = new(fresh) }
            ("sl", H::M(mut h)) => { hs[fresh] = H::M(F::m_split_left(&mut h)); hs[s] = H::M(h); res = new(fresh) }
            ("sr", H::M(mut h)) => { hs[fresh] = H::M(F::m_split_right(&mut h)); hs[s] = H::M(h); res = new(fresh) }
            ("gm", H::S(mut h)) => {
                let n = h.len();
                match F::get_mut(&mut h) {
                    Some(x) => { res = if x.len() == n { ("some", String::new()) } else { ("other", String::new()) } }
                    None => res = ("none", String::new()),
                }
                hs[s] = H::S(h);
            }
            ("im", H::S(h)) => match F::into_mut(h, rng.below(2)) {
                Ok(m) => hs[s] = H::M(m),
                Err(h) => { hs[s] = H::S(h); res = ("err", String::new()) }
            },
            ("fz", H::M(h)) => hs[s] = H::S(F::into_immut(h, rng.below(2))),
            ("it", H::M(h)) => hs[s] = H::I(F::into_iter(h)),
            ("pt", H::S(h)) => hs[s] = H::P(F::s_parts(h, at)),
            ("pt", H::M(h)) => hs[s] = H::Q(F::m_parts(h, at)),
            ("nx", H::P(mut h)) | ("nb", H::P(mut h)) => {
                match if o == "nx" { h.next() } else { h.next_back() } {
                    Some(x) => { hs[fresh] = H::S(x); res = new(fresh) }
                    None => res = ("none", String::new()),
                }
                hs[s] = H::P(h);
            }
            ("nx", H::Q(mut h)) | ("nb", H::Q(mut h)) => {
                match if o == "nx" { h.next() } else { h.next_back() } {
                    Some(x) => { hs[fresh] = H::M(x); res = new(fresh) }
                    None => res = ("none", String::new()),
                }
                hs[s] = H::Q(h);
            }
            ("nx", H::I(mut h)) | ("nb", H::I(mut h)) => {
                match if o == "nx" { h.next() } else { h.next_back() } {
                    Some(_) => res = ("item", String::new()),
                    None => res = ("none", String::new()),
                }
                hs[s] = H::I(h);
            }
            ("sf", H::I(mut h)) | ("st", H::I(mut h)) => {
                let r = catch_unwind(AssertUnwindSafe(|| if o == "sf" { F::i_split_from(&mut h, at) } else { F::i_split_to(&mut h, at) }));
                match r {
                    Ok(x) => { hs[fresh] = H::I(x); res = new(fresh) }
                    Err(_) => res = ("panic", String::new()),
                }
                hs[s] = H::I(h);
            }
            ("drop", h) => drop(h),
            (_, h) => hs[s] = h,
        }
        if done > 1 {
            out.push(',');
        }
        write!(out, "{{\"o\":\"{}\",\"k\":\"{}\",\"s\":{},\"a\":{},\"t\":\"{}\",\"v\":[{}],\"h\":[", o, kind, s + 1, bits(at), res.0, res.1).unwrap();
        for (i, h) in hs.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let sl = h.slice();
            if let Some(x) = sl {
                if x.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
                    cx.bad(F::NAME, ty, "misaligned", &o, kind, "", &ops);
                }
            }
            if !h.hint_ok() {
                cx.bad(F::NAME, ty, "len", &o, kind, "size_hint differs from len", &ops);
            }
            write!(out, "[\"{}\",{},{}]", h.k(), bits(sl.map_or(0, |x| x.len())), bits(h.left())).unwrap();
        }
        out.push_str("]}");
    }
    out + "]}"
}
