//! Executes operations of the abstract machine on the real code and projects the real state.
use crate::fam::Fam;
use crate::track::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Hd<F: Fam, T: Item> {
    None,
    S(F::S<T>),
    W(F::W<T>),
    M(F::M<T>),
    I(F::I<T>),
    P(F::P<T>),
    Q(F::Q<T>),
}

/// Ways to consume an iterator, destroying what it yields but the last item.
fn last_of<I: DoubleEndedIterator>(mut it: I, how: usize) -> Option<I::Item> {
    let mut last = None;
    match how % 5 {
        0 => it.last(),
        1 => it.fold(None, |_, x| Some(x)),
        2 => it.rfold(None, |a, x| if a.is_none() { Some(x) } else { a }),
        3 => {
            it.for_each(|x| last = Some(x));
            last
        }
        _ => {
            it.try_for_each(|x| {
                last = Some(x);
                Some(())
            });
            last
        }
    }
}

/// Ways to count what an iterator yields.
fn count_of<I: DoubleEndedIterator>(it: I, how: usize) -> usize {
    let mut n = 0;
    let how = if it.size_hint().0 > 5000 { 0 } else { how };
    match how % 7 {
        0 | 1 => it.count(),
        2 => it.fold(0, |n, _| n + 1),
        3 => it.rfold(0, |n, _| n + 1),
        4 => it.rev().count(),
        5 => {
            it.for_each(|_| n += 1);
            n
        }
        _ => it.collect::<Vec<_>>().len(),
    }
}

impl<F: Fam, T: Item> Hd<F, T> {
    pub fn k(&self) -> &'static str {
        match self {
            Hd::None => "-",
            Hd::S(_) => "S",
            Hd::W(_) => "W",
            Hd::M(_) => "M",
            Hd::I(_) => "I",
            Hd::P(_) => "P",
            Hd::Q(_) => "Q",
        }
    }
    pub fn owner(&self) -> bool {
        !matches!(self, Hd::None | Hd::W(_))
    }
    pub fn slice(&self) -> Option<&[T]> {
        match self {
            Hd::S(h) => Some(h),
            Hd::M(h) => Some(h),
            Hd::I(h) => Some(F::i_slice(h)),
            Hd::P(h) => Some(F::p_slice(h)),
            Hd::Q(h) => Some(F::q_slice(h)),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub o: String,
    pub s: usize,
    pub a: i64,
}

pub struct Mach<F: Fam, T: Item> {
    pub hs: Vec<Hd<F, T>>,
    pub bid: Vec<usize>, // buffer of slot (owners), 1-based, 0 none
    pub lg: Vec<u32>,
    pub bufs: Vec<Option<usize>>, // watch number of buffer index-1
    pub nid: u32,
    pub nwatch: usize,
    pub var: usize,
    pub notes: Vec<(&'static str, String)>, // mismatches noticed while executing
    pub panic_msg: String,
    pub busy: Option<usize>, // slot an unfinished call works on
    pub _pin: std::marker::PhantomPinned, // calls made from inside a call work on the same Mach
}

pub struct Outc {
    pub t: &'static str,
    pub v: Vec<i64>,
    pub d: Vec<(u32, u32)>,
    pub zd: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Show {
    pub k: &'static str,
    pub c: Vec<(u32, u32)>,
    pub y: i64,
}

pub fn runs(mut it: impl Iterator<Item = u32>) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = vec![];
    while let Some(x) = it.next() {
        if let Some(l) = v.last_mut() {
            if l.0.wrapping_add(l.1) == x {
                l.1 += 1;
                continue;
            }
        }
        v.push((x, 1));
    }
    v
}

pub fn contents<T: Item>(s: &[T]) -> Vec<(u32, u32)> {
    if s.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
        err("misaligned", 9);
    }
    if T::ZST {
        if s.is_empty() {
            vec![]
        } else {
            vec![(0, s.len() as u32)]
        }
    } else {
        runs(s.iter().map(|x| x.id()))
    }
}

pub fn reset_world(nid: u32) {
    let r = reg();
    for i in 0..(nid as usize + 64).min(MAXID) {
        r.state[i] = 0;
    }
    r.log.clear();
    r.zmade = 0;
    r.zdrop = 0;
    r.armed = 0;
    r.zarm = -1;
    r.panicked = false;
    r.hook = None;
    r.clone_panic_at = -1;
    let g = g();
    g.nerr = 0;
    g.lib_blocks = 0;
    g.lib_bytes = 0;
    g.quarantine = true;
    g.in_lib = false;
}

impl<F: Fam, T: Item> Mach<F, T> {
    pub fn new(nslots: usize, var: usize) -> Self {
        Mach {
            hs: (0..nslots).map(|_| Hd::None).collect(),
            bid: vec![0; nslots],
            lg: vec![0; nslots],
            bufs: vec![],
            nid: 1,
            nwatch: 0,
            var,
            notes: vec![],
            panic_msg: String::new(),
            busy: None,
            _pin: std::marker::PhantomPinned,
        }
    }
    pub fn free_slot(&self) -> usize {
        (0..self.hs.len()).find(|&i| matches!(self.hs[i], Hd::None) && self.busy != Some(i)).expect("free slot")
    }
    fn free_buf(&self) -> usize {
        let used: Vec<usize> = (0..self.hs.len()).filter(|&i| self.hs[i].owner() || self.busy == Some(i)).map(|i| self.bid[i]).collect();
        (1..).find(|b| !used.contains(b)).unwrap()
    }
    fn place(&mut self, h: Hd<F, T>, b: usize) -> i64 {
        let f = self.free_slot();
        self.hs[f] = h;
        self.bid[f] = b;
        f as i64 + 1
    }
    fn place_new(&mut self, h: Hd<F, T>) -> i64 {
        let b = self.free_buf();
        while self.bufs.len() < b {
            self.bufs.push(None);
        }
        let sl = h.slice().unwrap();
        self.bufs[b - 1] = None;
        if !T::ZST && sl.len() > 0 {
            let w = self.nwatch;
            if watch_buffer(sl.as_ptr() as *const u8, w) {
                self.bufs[b - 1] = Some(w);
                self.nwatch += 1;
            }
        }
        self.place(h, b)
    }
    fn mkvec(&mut self, n: usize) -> Vec<T> {
        let extra = if self.var & 8 != 0 { 3 } else { 0 };
        let mut v = Vec::with_capacity(n + extra);
        for i in 0..n {
            v.push(T::mk(self.nid + i as u32));
        }
        self.nid += n as u32;
        v
    }
    pub fn obs(&mut self) -> Vec<Show> {
        let mut out = vec![];
        for i in 0..self.hs.len() {
            let h = &self.hs[i];
            let c = h.slice().map(contents).unwrap_or_default();
            let mut y = 0i64;
            let n = h.slice().map(|s| s.len()).unwrap_or(0);
            match h {
                Hd::I(it) => {
                    if it.len() != n || it.size_hint() != (n, Some(n)) {
                        self.notes.push(("len", format!("slot {} iterator len {} view {}", i + 1, it.len(), n)));
                    }
                }
                Hd::P(it) => {
                    y = (1usize << self.lg[i]).wrapping_sub(it.len()) as i64;
                    if it.size_hint() != (it.len(), Some(it.len())) {
                        self.notes.push(("len", format!("slot {} size_hint", i + 1)));
                    }
                }
                Hd::Q(it) => {
                    y = (1usize << self.lg[i]).wrapping_sub(it.len()) as i64;
                    if it.size_hint() != (it.len(), Some(it.len())) {
                        self.notes.push(("len", format!("slot {} size_hint", i + 1)));
                    }
                }
                Hd::S(s) => {
                    if s.len() != n {
                        self.notes.push(("len", String::new()));
                    }
                }
                _ => {}
            }
            out.push(Show { k: h.k(), c, y });
        }
        out
    }
    pub fn buf_state(&self) -> Vec<&'static str> {
        self.bufs
            .iter()
            .map(|w| match w {
                None => "?",
                Some(w) => {
                    if g().watch[*w % 4096] == 1 {
                        "L"
                    } else {
                        "F"
                    }
                }
            })
            .collect()
    }
    pub fn drop_slot(&mut self, s: usize) -> bool {
        let h = std::mem::replace(&mut self.hs[s], Hd::None);
        catch_unwind(AssertUnwindSafe(|| lib(move || drop(h)))).is_ok()
    }
    pub fn log_runs() -> Vec<(u32, u32)> {
        let r = reg();
        let mut v = std::mem::take(&mut r.log);
        let snapshot: Vec<u32> = {
            v.sort_unstable();
            v.clone()
        };
        v.clear();
        r.log = v;
        runs(snapshot.into_iter())
    }
    pub fn exec(&mut self, op: &Op) -> Outc {
        reg().log.clear();
        let z0 = reg().zdrop;
        let z_made0 = reg().zmade;
        let _ = z_made0;
        let mut item: Option<T> = None;
        let r = self.exec1(op, &mut item);
        let d = if T::DROPS { Self::log_runs() } else { vec![] };
        let zd = reg().zdrop - z0;
        let (t, v) = r;
        let mut v = v;
        if let Some(it) = item {
            v = vec![it.id() as i64];
            drop(it);
            reg().log.clear();
        }
        Outc { t, v, d, zd }
    }
    pub fn exec1(&mut self, op: &Op, item: &mut Option<T>) -> (&'static str, Vec<i64>) {
        let si = op.s.wrapping_sub(1);
        let var = self.var.wrapping_add(op.s * 7 + op.a.max(0) as usize);
        match op.o.as_str() {
            "new" => {
                let v = self.mkvec(op.a as usize);
                let h = Hd::S(lib(|| F::s_from(v, var)));
                ("h", vec![self.place_new(h)])
            }
            "newm" => {
                let v = self.mkvec(op.a as usize);
                let h = Hd::M(lib(|| F::m_from(v, var)));
                ("h", vec![self.place_new(h)])
            }
            "cp" => {
                let base = self.nid;
                let n = op.a as u32;
                let it = (0..n + 1).map(move |i| if i < n { T::mk(base + i) } else { panic!("the iterator panics") });
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| match var % 3 {
                        0 => Hd::<F, T>::S(it.collect()),
                        1 => Hd::M(it.collect()),
                        // no size known
                        _ => Hd::S(it.filter(|_| true).collect()),
                    })
                }));
                self.nid += n;
                match r {
                    Ok(h) => ("h", vec![self.place_new(h)]),
                    Err(_) => ("panic", vec![]),
                }
            }
            "wn" => {
                let h = Hd::W(lib(|| F::wnew()));
                ("h", vec![self.place(h, 0)])
            }
            "drop" => {
                if self.drop_slot(si) {
                    ("ok", vec![])
                } else {
                    ("panic", vec![])
                }
            }
            "bp" | "pt" => {
                let n = if op.o == "pt" { 1usize << op.a } else { op.a as usize };
                let h = std::mem::replace(&mut self.hs[si], Hd::None);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(move || match h {
                        Hd::S(s) => Hd::<F, T>::P(F::s_parts(s, n)),
                        Hd::M(s) => Hd::<F, T>::Q(F::m_parts(s, n)),
                        _ => unreachable!(),
                    })
                }));
                match r {
                    Ok(h) => {
                        self.hs[si] = h;
                        self.lg[si] = op.a as u32;
                        ("ok", vec![])
                    }
                    Err(_) => ("panic", vec![]),
                }
            }
            "im" | "fz" | "it" => {
                let h = std::mem::replace(&mut self.hs[si], Hd::None);
                let before = h.slice().map(|s| (s.as_ptr() as usize, s.len())).unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(move || match h {
                        Hd::S(s) => match F::into_mut(s, var) {
                            Ok(m) => ("ok", Hd::<F, T>::M(m)),
                            Err(s) => ("err", Hd::<F, T>::S(s)),
                        },
                        Hd::M(m) => {
                            if op.o == "fz" {
                                ("ok", Hd::S(F::into_immut(m, var)))
                            } else {
                                ("ok", Hd::I(F::into_iter(m)))
                            }
                        }
                        _ => unreachable!(),
                    })
                }));
                match r {
                    Ok((t, h)) => {
                        let after = h.slice().map(|s| (s.as_ptr() as usize, s.len())).unwrap();
                        if !T::ZST && before.1 > 0 && before.0 != after.0 {
                            // conversions do not move items
                            self.notes.push(("moved", format!("{} moved the items", op.o)));
                        }
                        self.hs[si] = h;
                        (t, vec![])
                    }
                    Err(_) => ("panic", vec![]),
                }
            }
            "cf" => {
                let ai = op.a as usize - 1;
                let (lo, hi) = self.hs.split_at_mut(si.max(ai));
                let (to, from) = if si < ai { (&mut lo[si], &hi[0]) } else { (&mut hi[0], &lo[ai]) };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| match (to, from) {
                        (Hd::S(t), Hd::S(f)) => if var & 1 == 0 { t.clone_from(f) } else { *t = f.clone() },
                        (Hd::W(t), Hd::W(f)) => t.clone_from(f),
                        (Hd::P(t), Hd::P(f)) => t.clone_from(f),
                        _ => unreachable!(),
                    })
                }));
                self.bid[si] = self.bid[ai];
                self.lg[si] = self.lg[ai];
                (if r.is_ok() { "ok" } else { "panic" }, vec![])
            }
            "cnt" => {
                let h = std::mem::replace(&mut self.hs[si], Hd::None);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(move || match h {
                        Hd::I(s) => count_of(s, var),
                        Hd::P(s) => count_of(s, var),
                        Hd::Q(s) => count_of(s, var),
                        _ => unreachable!(),
                    })
                }));
                match r {
                    Ok(n) => ("n", vec![n as i64]),
                    Err(_) => ("panic", vec![]),
                }
            }
            "gm" => {
                let w = op.a;
                let mut nid = self.nid;
                let mut wrong = false;
                let r = {
                    let h = &mut self.hs[si];
                    let shown = h.slice().map(|s| (s.as_ptr() as usize, s.len())).unwrap();
                    catch_unwind(AssertUnwindSafe(|| {
                        let s = match h {
                            Hd::S(s) => s,
                            _ => unreachable!(),
                        };
                        match lib(|| F::get_mut(s)) {
                            None => false,
                            Some(sl) => {
                                if sl.len() != shown.1 || (!T::ZST && shown.1 > 0 && sl.as_ptr() as usize != shown.0) {
                                    wrong = true;
                                } else {
                                    if sl.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
                                        err("misaligned", 8);
                                    }
                                    if w > 0 && (w as usize) <= sl.len() {
                                        let x = T::mk(nid);
                                        nid += 1;
                                        sl[w as usize - 1] = x;
                                    }
                                }
                                true
                            }
                        }
                    }))
                };
                self.nid = nid;
                if wrong {
                    self.notes.push(("gmslice", "get_mut returned a different slice than the handle shows".into()));
                }
                match r {
                    Ok(true) => ("some", vec![]),
                    Ok(false) => ("none", vec![]),
                    Err(_) => ("panic", vec![]),
                }
            }
            "set" => {
                let nid = self.nid;
                let h = &mut self.hs[si];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let sl: &mut [T] = match h {
                        Hd::M(m) => &mut *m,
                        Hd::I(m) => F::i_slice_mut(m),
                        Hd::Q(m) => F::q_slice_mut(m),
                        _ => unreachable!(),
                    };
                    if sl.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
                        err("misaligned", 7);
                    }
                    sl[op.a as usize] = T::mk(nid);
                }));
                self.nid += 1;
                (if r.is_ok() { "ok" } else { "panic" }, vec![])
            }
            "up" => {
                let h = &self.hs[si];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| match h {
                        Hd::W(w) => F::upgrade(w),
                        _ => unreachable!(),
                    })
                }));
                let b = self.bid[si];
                match r {
                    Ok(Some(s)) => ("h", vec![self.place(Hd::S(s), b)]),
                    Ok(None) => ("none", vec![]),
                    Err(_) => ("panic", vec![]),
                }
            }
            "nx" | "nb" => {
                let back = op.o == "nb";
                let lgv = self.lg[si];
                let h = &mut self.hs[si];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| match h {
                        Hd::I(it) => {
                            *item = if back { it.next_back() } else { it.next() };
                            Ok(item.is_some())
                        }
                        Hd::P(it) => Err(if back { it.next_back() } else { it.next() }.map(Hd::<F, T>::S)),
                        Hd::Q(it) => Err(if back { it.next_back() } else { it.next() }.map(Hd::<F, T>::M)),
                        _ => unreachable!(),
                    })
                }));
                let _ = lgv;
                let b = self.bid[si];
                match r {
                    Ok(Ok(true)) => ("item", vec![]),
                    Ok(Ok(false)) | Ok(Err(None)) => ("none", vec![]),
                    Ok(Err(Some(h))) => ("h", vec![self.place(h, b)]),
                    Err(_) => ("panic", vec![]),
                }
            }
            "nt" | "nk" => {
                let back = op.o == "nk";
                let k = op.a as usize;
                let h = &mut self.hs[si];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| match h {
                        Hd::I(it) => {
                            *item = match (back, var & 1) {
                                (false, 0) => it.nth(k),
                                (true, 0) => it.nth_back(k),
                                (false, _) => it.by_ref().skip(k).next(),
                                (true, _) => it.by_ref().rev().nth(k),
                            };
                            Ok(item.is_some())
                        }
                        Hd::P(it) => Err(if back { it.nth_back(k) } else { it.nth(k) }.map(Hd::<F, T>::S)),
                        Hd::Q(it) => Err(if back { it.nth_back(k) } else { it.nth(k) }.map(Hd::<F, T>::M)),
                        _ => unreachable!(),
                    })
                }));
                let b = self.bid[si];
                match r {
                    Ok(Ok(true)) => ("item", vec![]),
                    Ok(Ok(false)) | Ok(Err(None)) => ("none", vec![]),
                    Ok(Err(Some(h))) => ("h", vec![self.place(h, b)]),
                    Err(_) => ("panic", vec![]),
                }
            }
            "ls" => {
                let f = (0..self.hs.len()).find(|&i| matches!(self.hs[i], Hd::None) && self.busy != Some(i));
                let h = std::mem::replace(&mut self.hs[si], Hd::None);
                let b = self.bid[si];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| match h {
                        Hd::I(it) => {
                            *item = last_of(it, var);
                            Ok(item.is_some())
                        }
                        Hd::P(it) => Err(last_of(it, var).map(Hd::<F, T>::S)),
                        Hd::Q(it) => Err(last_of(it, var).map(Hd::<F, T>::M)),
                        _ => unreachable!(),
                    })
                }));
                match r {
                    Ok(Ok(true)) => ("item", vec![]),
                    Ok(Ok(false)) | Ok(Err(None)) => ("none", vec![]),
                    Ok(Err(Some(h))) => {
                        let mut f = f.expect("free slot");
                        if !matches!(self.hs[f], Hd::None) {
                            f = self.free_slot(); // a call made meanwhile took it
                        }
                        self.hs[f] = h;
                        self.bid[f] = b;
                        ("h", vec![f as i64 + 1])
                    }
                    Err(_) => ("panic", vec![]),
                }
            }
            "clone" if matches!(self.hs[si], Hd::M(_)) => {
                let base = self.nid;
                let rg = reg();
                rg.clone_base = base;
                rg.clone_n = 0;
                rg.clone_src.clear();
                let src: Vec<u32> = self.hs[si].slice().unwrap().iter().map(|x| x.id()).collect();
                let r = {
                    let m = match &self.hs[si] {
                        Hd::M(m) => m,
                        _ => unreachable!(),
                    };
                    catch_unwind(AssertUnwindSafe(|| lib(|| F::m_clone(m))))
                };
                match r {
                    Ok(mut m2) => {
                        let n = m2.len();
                        if n != src.len() {
                            self.notes.push(("clone", format!("clone has {} items, source {}", n, src.len())));
                        } else if !T::ZST {
                            for i in 0..n {
                                let id = m2[i].id();
                                let from = if T::DROPS {
                                    let k = id.wrapping_sub(base) as usize;
                                    reg().clone_src.get(k).copied().unwrap_or(u32::MAX)
                                } else {
                                    id
                                };
                                if from != src[i] {
                                    self.notes.push(("clone", format!("clone position {} is a copy of {} not {}", i, from, src[i])));
                                }
                                m2[i].set_id(base + i as u32);
                            }
                        }
                        self.nid = base + src.len() as u32;
                        let sl = (m2.as_ptr() as usize, self.hs[si].slice().unwrap().as_ptr() as usize);
                        if !T::ZST && n > 0 && sl.0 == sl.1 {
                            self.notes.push(("clone", "clone shares the buffer".into()));
                        }
                        ("h", vec![self.place_new(Hd::M(m2))])
                    }
                    Err(_) => {
                        let n = reg().clone_n;
                        self.nid = base + n;
                        ("panic", vec![n as i64])
                    }
                }
            }
            o => {
                // operations producing one new handle
                let b = self.bid[si];
                let lgv = self.lg[si];
                let h = &mut self.hs[si];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| match (o, h) {
                        ("clone", Hd::S(s)) => Hd::<F, T>::S(s.clone()),
                        ("clone", Hd::W(s)) => Hd::W(s.clone()),
                        ("clone", Hd::P(s)) => Hd::P(s.clone()),
                        ("cl", Hd::S(s)) => Hd::S(F::clone_left(s)),
                        ("cr", Hd::S(s)) => Hd::S(F::clone_right(s)),
                        ("dg", Hd::S(s)) => Hd::W(F::downgrade(s)),
                        ("sl", Hd::S(s)) => Hd::S(F::s_split_left(s)),
                        ("sr", Hd::S(s)) => Hd::S(F::s_split_right(s)),
                        ("sl", Hd::M(s)) => Hd::M(F::m_split_left(s)),
                        ("sr", Hd::M(s)) => Hd::M(F::m_split_right(s)),
                        ("sf", Hd::I(s)) => Hd::I(F::i_split_from(s, op.a as usize)),
                        ("st", Hd::I(s)) => Hd::I(F::i_split_to(s, op.a as usize)),
                        (o, h) => panic!("harness: bad op {} on {}", o, h.k()),
                    })
                }));
                match r {
                    Ok(h) => {
                        let f = self.place(h, b);
                        self.lg[f as usize - 1] = lgv;
                        ("h", vec![f])
                    }
                    Err(_) => ("panic", vec![]),
                }
            }
        }
    }
}
