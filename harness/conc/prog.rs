//! The programs: their operations on the real code, what is recorded and what is checked.
use crate::rt::{self, Ev};
use crate::track::{self, lib, unlib};
use rc_slice::arc::*;
use rc_slice::{ArcSlice, ArcSliceMut};
use std::cell::UnsafeCell;
use std::collections::HashSet;
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Itm {
    id: u32,
    can: u32,
}
impl Drop for Itm {
    fn drop(&mut self) {
        if self.can != !self.id {
            rt::problem("read-garbage", "destroying something that is no item".into());
            return;
        }
        rt::destroyed(self.id);
    }
}

enum H {
    N,
    S(ArcSlice<Itm>),
    W(WeakSlice<Itm>),
    M(ArcSliceMut<Itm>),
    I(ArcSliceMutIter<Itm>),
    P(ArcSliceParts<Itm>),
    Q(ArcSliceMutParts<Itm>),
}
impl H {
    fn k(&self) -> char {
        match self {
            H::N => '-',
            H::S(_) => 'S',
            H::W(_) => 'W',
            H::M(_) => 'M',
            H::I(_) => 'I',
            H::P(_) => 'P',
            H::Q(_) => 'Q',
        }
    }
    fn sl(&self) -> &[Itm] {
        match self {
            H::S(h) => h,
            H::M(h) => h,
            H::I(h) => h.as_slice(),
            H::P(h) => h.as_slice(),
            H::Q(h) => h.as_slice(),
            _ => &[],
        }
    }
    fn left(&self) -> Option<usize> {
        match self {
            H::P(h) => Some(h.len()),
            H::Q(h) => Some(h.len()),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    o: String,
    s: usize,
    a: i64,
    f: usize,
}
#[derive(Clone, Default)]
struct Res {
    done: bool,
    t: &'static str,
    v: Vec<i64>,
    cs: Vec<(u32, u32)>,
    cf: Vec<(u32, u32)>,
    d: Vec<(u32, u32)>,
}

pub struct Prog {
    id: String,
    setup: String,
    text: String,
    n: usize,
    nth: usize,
    ops: Vec<Op>,
    tid: Vec<usize>, // of each operation: 0 setup, 1.. threads, 9 afterwards
}

struct World {
    p: Option<Prog>,
    slots: Vec<H>,
    lg: Vec<u32>,
    res: Vec<Res>,
    bufs: Vec<(u32, u32, bool)>, // item ids, freed
    d0: usize,
}
static W: track::Sync2<World> =
    track::Sync2(UnsafeCell::new(World { p: None, slots: vec![], lg: vec![], res: vec![], bufs: vec![], d0: 0 }));
fn w() -> &'static mut World {
    unsafe { &mut *W.0.get() }
}

fn parse_ops(s: &str) -> Vec<Op> {
    s.split_whitespace()
        .map(|x| {
            let f: Vec<&str> = x.split(',').collect();
            Op { o: f[0].into(), s: f[1].parse().unwrap(), a: f[2].parse().unwrap(), f: f[3].parse().unwrap() }
        })
        .collect()
}
/// id;slots;setup;thread;thread..;@afterwards
fn parse(line: &str) -> Prog {
    let f: Vec<&str> = line.split(';').collect();
    let mut p = Prog { id: f[0].into(), setup: f[2].into(), text: line.into(), n: f[1].parse().unwrap(), nth: 0, ops: vec![], tid: vec![] };
    for (i, x) in f[2..].iter().enumerate() {
        let (t, x) = if x.starts_with('@') { (9, &x[1..]) } else { (i, *x) };
        if t != 9 && i > 0 {
            p.nth += 1;
        }
        for o in parse_ops(x) {
            p.ops.push(o);
            p.tid.push(t);
        }
    }
    p
}

fn runs(v: &[u32]) -> Vec<(u32, u32)> {
    let mut r: Vec<(u32, u32)> = vec![];
    for &x in v {
        if let Some(l) = r.last_mut() {
            if l.0 + l.1 == x + 1 {
                l.1 += 1;
                continue;
            }
        }
        r.push((x + 1, 1));
    }
    r
}

fn look(s: &[Itm], write: bool) -> Vec<(u32, u32)> {
    let mut ids = vec![];
    for x in s {
        if x.can != !x.id {
            rt::problem("read-garbage", "a handle shows something that is no item".into());
            return vec![];
        }
        if !rt::access(x.id, write, if write { "write" } else { "read" }) {
            return vec![];
        }
        ids.push(x.id);
    }
    runs(&ids)
}
/// Use everything the handle in slot s gives access to.
fn touch(s: usize) -> Vec<(u32, u32)> {
    if s == 0 {
        return vec![];
    }
    let h = &w().slots[s];
    look(h.sl(), matches!(h, H::M(_) | H::I(_) | H::Q(_)))
}

fn freed(i: usize) {
    let b = &mut w().bufs[i];
    if b.2 {
        rt::problem("double-free", "buffer freed twice".into());
    }
    b.2 = true;
    rt::buffer_freed(b.0, b.1);
}

fn applies(op: &Op) -> bool {
    let w = w();
    let free = |f: usize| f > 0 && f < w.slots.len() && w.slots[f].k() == '-';
    if op.o == "new" || op.o == "newm" || op.o == "wn" {
        return free(op.f);
    }
    let k = w.slots[op.s].k();
    let (kinds, need) = match op.o.as_str() {
        "clone" => ("SWP", true),
        "cl" | "cr" | "dg" => ("S", true),
        "gm" | "im" => ("S", false),
        "sl" | "sr" => ("SM", true),
        "pt" => ("SM", false),
        "drop" => ("SWMIPQ", false),
        "fz" | "it" => ("M", false),
        "up" => ("W", true),
        "nx" | "nb" => ("IPQ", k != 'I'),
        "cnt" => ("IPQ", false),
        "sf" | "st" => ("I", true),
        "rd" => ("SMIPQ", false),
        x => panic!("operation {}", x),
    };
    if !kinds.contains(k) || (need && !free(op.f)) {
        return false;
    }
    if op.o == "sf" || op.o == "st" {
        return op.a as usize <= w.slots[op.s].sl().len();
    }
    true
}

fn take(s: usize) -> H {
    std::mem::replace(&mut w().slots[s], H::N)
}

/// Execute operation i.
fn exec(i: usize) {
    let op = w().p.as_ref().unwrap().ops[i].clone();
    if !applies(&op) {
        return;
    }
    touch(op.s);
    rt::op_begin(i);
    let d0 = rt::r().destroyed.len();
    let r = catch_unwind(AssertUnwindSafe(|| exec1(i, &op)));
    let (t, v) = match r {
        Ok(x) => x,
        Err(_) => {
            rt::problem("panic", format!("{}({}) panicked", op.o, op.s));
            ("panic", vec![])
        }
    };
    if op.o != "gm" {
        rt::op_end(i);
    }
    let cs = touch(op.s);
    let cf = touch(op.f);
    let mut d = rt::r().destroyed[d0..].to_vec();
    d.sort_unstable();
    let res = &mut w().res[i];
    *res = Res { done: true, t, v, cs, cf, d: runs(&d) };
}

fn exec1(i: usize, op: &Op) -> (&'static str, Vec<i64>) {
    let (s, f) = (op.s, op.f);
    let fv = vec![f as i64];
    let slots = &mut w().slots;
    match op.o.as_str() {
        "new" | "newm" => {
            let n = op.a as usize;
            let id = rt::born(n);
            let v: Vec<Itm> = (0..n as u32).map(|j| Itm { id: id + j, can: !(id + j) }).collect();
            if n > 0 {
                w().bufs.push((id, id + n as u32, false));
                track::watch_buffer(v.as_ptr() as *const u8, w().bufs.len() - 1);
            }
            slots[f] = if op.o == "new" { H::S(lib(|| ArcSlice::from_vec(v))) } else { H::M(lib(|| ArcSliceMut::from_vec(v))) };
            ("h", fv)
        }
        "wn" => {
            slots[f] = H::W(WeakSlice::new());
            ("h", fv)
        }
        "clone" => {
            let h = lib(|| match &slots[s] {
                H::S(h) => H::S(h.clone()),
                H::W(h) => H::W(h.clone()),
                H::P(h) => H::P(h.clone()),
                _ => unreachable!(),
            });
            w().lg[f] = w().lg[s];
            w().slots[f] = h;
            ("h", fv)
        }
        "cl" | "cr" | "dg" => {
            let h = match &slots[s] {
                H::S(h) => lib(|| match op.o.as_str() {
                    "cl" => H::S(ArcSlice::clone_left(h)),
                    "cr" => H::S(ArcSlice::clone_right(h)),
                    _ => H::W(ArcSlice::downgrade(h)),
                }),
                _ => unreachable!(),
            };
            w().slots[f] = h;
            ("h", fv)
        }
        "sl" | "sr" => {
            let l = op.o == "sl";
            let h = lib(|| match &mut slots[s] {
                H::S(h) => H::S(if l { ArcSlice::split_off_left(h) } else { ArcSlice::split_off_right(h) }),
                H::M(h) => H::M(if l { ArcSliceMut::split_off_left(h) } else { ArcSliceMut::split_off_right(h) }),
                _ => unreachable!(),
            });
            w().slots[f] = h;
            ("h", fv)
        }
        "drop" => {
            let h = take(s);
            lib(move || drop(h));
            ("ok", vec![])
        }
        "gm" => {
            let h = match &mut slots[s] {
                H::S(h) => h,
                _ => unreachable!(),
            };
            let own = (h.as_ptr() as usize, h.len());
            let r = lib(|| ArcSlice::get_mut(h));
            rt::op_end(i);
            match r {
                None => ("none", vec![]),
                Some(sl) => {
                    if (sl.as_ptr() as usize, sl.len()) != own {
                        rt::problem("gmslice", "get_mut returned something else than the slice".into());
                    }
                    look(sl, true);
                    rt::pause();
                    look(sl, true);
                    rt::pause();
                    look(sl, true);
                    ("some", vec![])
                }
            }
        }
        "im" => {
            let h = match take(s) {
                H::S(h) => h,
                _ => unreachable!(),
            };
            let r = lib(|| ArcSliceMut::try_from(h));
            match r {
                Ok(m) => {
                    w().slots[s] = H::M(m);
                    ("ok", vec![])
                }
                Err(h) => {
                    w().slots[s] = H::S(h);
                    ("err", vec![])
                }
            }
        }
        "fz" | "it" => {
            let h = match take(s) {
                H::M(h) => h,
                _ => unreachable!(),
            };
            let h = lib(|| if op.o == "fz" { H::S(ArcSliceMut::into_immut(h)) } else { H::I(h.into_iter()) });
            w().slots[s] = h;
            ("ok", vec![])
        }
        "up" => {
            let r = match &slots[s] {
                H::W(h) => lib(|| h.upgrade()),
                _ => unreachable!(),
            };
            match r {
                Some(h) => {
                    w().slots[f] = H::S(h);
                    ("h", fv)
                }
                None => ("none", vec![]),
            }
        }
        "pt" => {
            let n = 1usize << op.a;
            let h = take(s);
            let h = lib(move || match h {
                H::S(h) => H::P(ArcSlice::split_into_parts(h, n)),
                H::M(h) => H::Q(ArcSliceMut::split_into_parts(h, n)),
                _ => unreachable!(),
            });
            w().lg[s] = op.a as u32;
            w().slots[s] = h;
            ("ok", vec![])
        }
        "cnt" => {
            let h = take(s);
            let n = lib(move || match h {
                H::I(h) => h.count(),
                H::P(h) => h.count(),
                H::Q(h) => h.count(),
                _ => unreachable!(),
            });
            ("n", vec![n as i64])
        }
        "sf" | "st" => {
            let at = op.a as usize;
            let h = match &mut slots[s] {
                H::I(h) => lib(|| H::I(if op.o == "sf" { h.split_off_from(at) } else { h.split_off_to(at) })),
                _ => unreachable!(),
            };
            w().slots[f] = h;
            ("h", fv)
        }
        "nx" | "nb" => {
            let b = op.o == "nb";
            let r = match &mut slots[s] {
                H::I(h) => {
                    let r = lib(|| if b { h.next_back() } else { h.next() });
                    return match r {
                        None => ("none", vec![]),
                        Some(x) => {
                            let id = x.id;
                            rt::moved_out(id);
                            std::mem::forget(x);
                            ("item", vec![id as i64 + 1])
                        }
                    };
                }
                H::P(h) => lib(|| if b { h.next_back() } else { h.next() }).map(H::S),
                H::Q(h) => lib(|| if b { h.next_back() } else { h.next() }).map(H::M),
                _ => unreachable!(),
            };
            match r {
                Some(h) => {
                    w().slots[f] = h;
                    ("h", fv)
                }
                None => ("none", vec![]),
            }
        }
        "rd" => ("ok", vec![]),
        x => panic!("operation {}", x),
    }
}

pub fn thread_main(t: usize) {
    let n = w().p.as_ref().unwrap().ops.len();
    for i in 0..n {
        if w().p.as_ref().unwrap().tid[i] == t {
            exec(i);
        }
    }
}

fn jr(o: &mut String, v: &[(u32, u32)]) {
    o.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "[{},{}]", x.0, x.1).unwrap();
    }
    o.push(']');
}

/// One execution. Returns the history (JSON), or None if there is none to judge.
fn once() -> Option<String> {
    rt::reset();
    let w = w();
    let p = w.p.as_ref().unwrap();
    for h in w.slots.drain(..) {
        std::mem::forget(h); // left over from an execution that was given up
    }
    w.slots.extend((0..=p.n).map(|_| H::N));
    w.lg = vec![0; p.n + 1];
    w.res = vec![Res::default(); p.ops.len()];
    w.bufs.clear();
    let g = track::g();
    g.nerr = 0;
    g.lib_blocks = 0;
    g.lib_bytes = 0;
    g.in_lib = false;
    for i in 0..p.ops.len() {
        if p.tid[i] == 0 {
            exec(i);
        }
    }
    rt::r().destroyed.clear(); // what the setup destroyed is known
    if p.nth > 0 {
        rt::run(p.nth);
    }
    let r = rt::r();
    if r.stuck {
        rt::problem("hang", "the threads that are left wait for each other for ever".into());
    }
    if r.abort || r.problems.iter().any(|p| p.0 != "race") {
        return None;
    }
    // quiescence
    let mut q = String::from("\"q\":{\"h\":[");
    for s in 1..=p.n {
        let c = touch(s);
        if s > 1 {
            q.push(',');
        }
        write!(q, "[\"{}\",", w.slots[s].k()).unwrap();
        jr(&mut q, &c);
        let y = w.slots[s].left().map_or(0, |l| (1i64 << w.lg[s]) - l as i64);
        write!(q, ",{}]", y).unwrap();
    }
    let mut d = r.destroyed.clone();
    d.sort_unstable();
    q.push_str("],\"d\":");
    jr(&mut q, &runs(&d));
    q.push('}');
    let nev = r.ev.len();
    let mut post = String::new();
    for i in 0..p.ops.len() {
        if p.tid[i] != 9 {
            continue;
        }
        exec(i);
        let x = &w.res[i];
        if x.done {
            let o = &p.ops[i];
            if !post.is_empty() {
                post.push(',');
            }
            write!(post, "[\"{}\",{},{},{},\"{}\",{:?},", o.o, o.s, o.a, o.f, x.t, x.v).unwrap();
            jr(&mut post, &x.cs);
            post.push(',');
            jr(&mut post, &x.cf);
            post.push(',');
            jr(&mut post, &x.d);
            post.push(']');
        }
    }
    // tear down
    for s in 1..=p.n {
        touch(s);
        let h = take(s);
        let k = h.k();
        if catch_unwind(AssertUnwindSafe(|| lib(move || drop(h)))).is_err() {
            rt::problem("panic", format!("dropping the {} of slot {} at the end panicked", k, s));
        }
    }
    for (i, it) in r.items.iter().enumerate() {
        if it.alive == 1 {
            rt::problem("end-d", format!("item {} is never destroyed", i));
        }
    }
    for b in &w.bufs {
        if !b.2 {
            rt::problem("leak", "the buffer is never freed".into());
        }
    }
    if track::g().lib_blocks != 0 {
        rt::problem("leak", format!("{} blocks of memory left when all handles are gone", track::g().lib_blocks));
    }
    if track::g().nerr > 0 {
        let e = track::g().errs[0];
        rt::problem(e.0, format!("({})", e.1));
    }
    track::flush_quarantine();
    // events up to quiescence, in canonical order
    let mut evs: Vec<(bool, usize)> = r.ev[..nev]
        .iter()
        .map(|e| match e {
            Ev::Call(i) => (true, *i),
            Ev::Ret(i) => (false, *i),
        })
        .filter(|e| p.tid[e.1] >= 1 && p.tid[e.1] < 9)
        .collect();
    let mut i = 0;
    while i < evs.len() {
        let mut j = i;
        while j < evs.len() && evs[j].0 == evs[i].0 {
            j += 1;
        }
        evs[i..j].sort_unstable();
        i = j;
    }
    let mut num = vec![0usize; p.ops.len()];
    let mut k = 0;
    let mut ops = String::new();
    for i in 0..p.ops.len() {
        if p.tid[i] == 0 || p.tid[i] == 9 || !w.res[i].done {
            continue;
        }
        k += 1;
        num[i] = k;
        // does another call overlap this one in time?
        let a = evs.iter().position(|e| *e == (true, i)).unwrap();
        let b = evs.iter().position(|e| *e == (false, i)).unwrap();
        let mut open: i64 = 0;
        let mut ov = false;
        for (x, e) in evs.iter().enumerate() {
            if x == a && open > 0 {
                ov = true;
            }
            if x > a && x < b {
                ov = true;
            }
            if e.1 != i {
                open += if e.0 { 1 } else { -1 };
            }
        }
        if r.stale_used > 0 && rt::unordered(i) {
            ov = true; // other threads' effects need not be visible
        }
        let o = &p.ops[i];
        let x = &w.res[i];
        if k > 1 {
            ops.push(',');
        }
        write!(ops, "[\"{}\",{},{},{},\"{}\",{:?},", o.o, o.s, o.a, o.f, x.t, x.v).unwrap();
        jr(&mut ops, &x.cs);
        ops.push(',');
        jr(&mut ops, &x.cf);
        write!(ops, ",{},{}]", ov, p.tid[i]).unwrap();
    }
    let mut e = String::new();
    for (i, x) in evs.iter().enumerate() {
        if i > 0 {
            e.push(',');
        }
        let n = num[x.1] as i64;
        write!(e, "{}", if x.0 { n } else { -n }).unwrap();
    }
    Some(format!("\"o\":[{}],\"e\":[{}],{},\"post\":[{}]", ops, e, q, post))
}

static FAILED: track::Sync2<(usize, usize)> = track::Sync2(UnsafeCell::new((0, 0)));

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "'").replace('\n', " ")
}
fn report(cls: &str, detail: &str) {
    let t: Vec<String> = rt::r().trail.iter().map(|x| format!("{}", x.0)).collect();
    println!(
        "{{\"cls\":\"{}\",\"prog\":\"{}\",\"detail\":\"{}\",\"trail\":\"{}p{}\"}}",
        cls,
        esc(&w().p.as_ref().unwrap().text),
        esc(detail),
        rt::r().patient,
        t.join(",")
    );
}
fn summary(st: &Stats) {
    println!(
        "{{\"summary\":true,\"programs\":{},\"executions\":{},\"histories\":{},\"capped\":{},\"switches\":{}}}",
        st.progs, st.execs, st.hists, st.capped, rt::r().switches
    );
    std::io::stdout().flush().unwrap();
}
#[derive(Default)]
struct Stats {
    progs: usize,
    execs: usize,
    hists: usize,
    capped: usize,
}
static ST: track::Sync2<Stats> = track::Sync2(UnsafeCell::new(Stats { progs: 0, execs: 0, hists: 0, capped: 0 }));

/// The program cannot go on: report and end the process.
pub fn fatal(cls: &str, s: &str) -> ! {
    track::g().in_lib = false;
    report(cls, s);
    summary(unsafe { &*ST.0.get() });
    std::process::exit(0);
}

pub fn run_all(
    file: &str, shard: usize, of: usize, only: Option<String>, out: Option<String>, preempt: u32, stale: u32, max: usize, random: usize,
    seed: u64, trail: Option<String>,
) {
    std::panic::set_hook(Box::new(|_| {}));
    track::g().quarantine = true;
    track::g().freed = Some(freed);
    let mut outf = out.map(|o| std::io::BufWriter::new(std::fs::File::create(o).unwrap()));
    let progress = std::env::var("PROGRESS").ok();
    let st = unsafe { &mut *ST.0.get() };
    let text = std::fs::read_to_string(file).unwrap();
    for (n, line) in text.lines().enumerate() {
        if n % of != shard || line.is_empty() {
            continue;
        }
        let p = parse(line);
        if let Some(o) = &only {
            if *o != p.id {
                continue;
            }
        }
        if let Some(f) = &progress {
            std::fs::write(f, line).unwrap();
        }
        let (id, setup) = (p.id.clone(), p.setup.clone());
        let slots = p.n;
        w().p = Some(p);
        st.progs += 1;
        let mut seen: HashSet<String> = HashSet::new();
        let r = rt::r();
        r.shared.clear();
        r.new_shared = false;
        r.bound = preempt;
        r.stale_bound = stale;
        r.random = None;
        r.patient = 0;
        let mut failed: Vec<&'static str> = vec![];
        if let Some(t) = &trail {
            // rerun one schedule
            loop {
                let r = rt::r();
                let (pat, t) = t.split_once('p').unwrap_or(("0", t));
                r.patient = pat.parse().unwrap();
                r.trail = t.split(',').filter(|x| !x.is_empty()).map(|x| (x.parse().unwrap(), 0)).collect();
                r.random = Some(0);
                r.new_shared = false;
                let h = once();
                if rt::r().new_shared {
                    continue;
                }
                for (c, d) in &rt::r().problems {
                    report(c, d);
                }
                println!("{:?}", h);
                break;
            }
            continue;
        }
        let mut execs = 0;
        let mut phase = 0;
        let mut k = 0u64;
        r.trail.clear();
        loop {
            let h = once();
            execs += 1;
            st.execs += 1;
            let r = rt::r();
            if r.pos < r.trail.len() && phase == 0 {
                r.trail.truncate(r.pos);
            }
            // (what was found only afterwards, or is a race, leaves the history as it is)
            if let Some(h) = h.filter(|_| !r.abort) {
                if !seen.contains(&h) {
                    if let Some(f) = outf.as_mut() {
                        let t: Vec<String> = r.trail[..r.pos].iter().map(|x| format!("{}", x.0)).collect();
                        writeln!(f, "{{\"p\":\"{}\",\"u\":\"{}\",\"n\":{},{},\"trail\":\"{}p{}\"}}", id, setup, slots, h, r.patient, t.join(",")).unwrap();
                    }
                    seen.insert(h);
                    st.hists += 1;
                }
            }
            if !r.problems.is_empty() {
                let ps: Vec<_> = std::mem::take(&mut r.problems);
                for (c, d) in &ps {
                    if !failed.contains(c) {
                        failed.push(c);
                        report(c, d);
                    }
                }
                if r.abort || failed.len() >= 3 {
                    break;
                }
            }
            if r.new_shared && phase == 0 {
                r.new_shared = false;
                r.trail.clear();
                continue;
            }
            if phase == 0 {
                let more = rt::next_trail();
                if more && execs >= max {
                    st.capped += 1;
                }
                if !more || execs >= max {
                    phase = 1;
                }
            }
            if phase == 1 {
                if k as usize >= random {
                    break;
                }
                k += 1;
                let r = rt::r();
                r.bound = 1000;
                r.stale_bound = 3;
                r.patient = if k % 16 == 1 { 12_000 } else { 1_100 };
                r.random = Some((seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (k.wrapping_mul(0xD134_2543_DE82_EF95)) ^ (n as u64) << 17) | 1);
                r.trail.clear();
            }
        }
    }
    if let Some(f) = outf.as_mut() {
        f.flush().unwrap();
    }
    unlib(|| summary(st));
}
