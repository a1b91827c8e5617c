//! Calls during which the destructor or the clone of an item panics or calls back into the library,
//! logged for validation against spec/Calls.tla.
use crate::fam::Fam;
use crate::mach::*;
use crate::modes::*;
use crate::track::*;
use std::collections::HashSet;
use std::io::Write;

pub fn mix(a: u64, b: u64) -> u64 {
    crate::drive::Rng(a.wrapping_mul(0x1000_0001_B3).wrapping_add(b)).next()
}

/// Does the last operation run destructors or clones of items?
pub fn wanted(steps: &[PStep]) -> bool {
    let l = match steps.last() {
        Some(l) => l,
        None => return false,
    };
    let (d, hs, _) = l.ex.as_ref().unwrap();
    !d.is_empty() || (l.op.o == "clone" && l.t == "h" && hs[l.op.s - 1].0 == "M")
}

#[derive(Clone)]
struct Inner {
    at: usize, // happens when this many items were destroyed / cloned
    op: Op,
    k: &'static str, // kind of the handle it is for
}

#[derive(Clone, Default)]
struct Plan {
    arm: Option<usize>, // this destructor / clone panics
    inner: Vec<Inner>,
    post: usize,
}

struct Call {
    op: Op,
    f: usize,
    t: &'static str,
    v: Vec<i64>,
    cs: Vec<(u32, u32)>,
    cf: Vec<(u32, u32)>,
    ov: bool,
    thr: usize,
}

struct Log {
    calls: Vec<Call>,
    e: Vec<i64>,
}

fn jr(r: &[(u32, u32)]) -> String {
    format!("[{}]", r.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","))
}
fn jv(v: &[i64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

impl Call {
    fn json(&self) -> String {
        format!(
            "[\"{}\",{},{},{},\"{}\",{},{},{},{},{}]",
            self.op.o, self.op.s, self.op.a, self.f, self.t, jv(&self.v), jr(&self.cs), jr(&self.cf), self.ov, self.thr
        )
    }
}

/// Execute a call without looking at what it destroyed.
fn call<F: Fam, T: Item>(m: *mut Mach<F, T>, op: &Op, armed: i64) -> (usize, &'static str, Vec<i64>, Vec<(u32, u32)>, Vec<(u32, u32)>) {
    unsafe {
        let si = op.s.wrapping_sub(1);
        let show = |m: *mut Mach<F, T>, s: usize| if s == 0 { vec![] } else { (&(*m).hs)[s - 1].slice().map(contents).unwrap_or_default() };
        if op.o == "rd" {
            return (0, "ok", vec![], show(m, op.s), vec![]);
        }
        let was_clone = op.o == "clone" && matches!((&(*m).hs)[si], Hd::M(_));
        let mut item = None;
        let before = std::mem::replace(&mut reg().panicked, false);
        let (mut t, mut v) = (*m).exec1(op, &mut item);
        if let Some(it) = item {
            v = vec![it.id() as i64];
            // moved out to the caller, who keeps it
            if T::ZST {
                reg().zmade -= 1;
            } else if T::DROPS {
                reg().state[v[0] as usize] = 2;
            }
            std::mem::forget(it);
        }
        if t == "panic" && reg().panicked {
            reg().panicked = false;
            t = "unw";
            if !was_clone {
                v = vec![if T::ZST { 0 } else { armed }];
            }
        }
        // a call made while another one unwinds
        reg().panicked |= before;
        let f = if t == "h" { v[0] as usize } else { 0 };
        (f, t, v, show(m, op.s), show(m, f))
    }
}

fn inner_ops<F: Fam, T: Item>(m: &Mach<F, T>, busy: usize) -> Vec<(Op, &'static str)> {
    let mut v = vec![];
    let free = (0..m.hs.len()).filter(|&i| matches!(m.hs[i], Hd::None) && i != busy).count();
    for i in 0..m.hs.len() {
        if i == busy {
            continue;
        }
        let names: &[(&str, i64)] = match m.hs[i] {
            Hd::S(_) => &[("clone", 0), ("cl", 0), ("cr", 0), ("gm", 0), ("im", 0), ("dg", 0), ("drop", 0), ("sl", 0), ("sr", 0), ("pt", 1), ("rd", 0)],
            Hd::W(_) => &[("up", 0), ("clone", 0), ("drop", 0), ("up", 0), ("up", 0)],
            Hd::M(_) => &[("fz", 0), ("drop", 0), ("sl", 0), ("sr", 0), ("it", 0), ("pt", 1), ("rd", 0)],
            Hd::I(_) => &[("nx", 0), ("nb", 0), ("nt", 1), ("nk", 1), ("drop", 0), ("cnt", 0), ("rd", 0)],
            Hd::P(_) => &[("nx", 0), ("nb", 0), ("nt", 1), ("nk", 1), ("drop", 0), ("clone", 0), ("cnt", 0)],
            Hd::Q(_) => &[("nx", 0), ("nb", 0), ("nt", 1), ("nk", 1), ("drop", 0), ("cnt", 0), ("rd", 0)],
            Hd::None => &[],
        };
        for (o, a) in names {
            if free == 0 && !matches!(*o, "gm" | "im" | "drop" | "pt" | "rd" | "fz" | "it" | "cnt") {
                continue;
            }
            v.push((Op { o: o.to_string(), s: i + 1, a: *a }, m.hs[i].k()));
        }
    }
    v
}

fn forget_all<F: Fam, T: Item>(m: &mut Mach<F, T>) {
    for h in m.hs.iter_mut() {
        std::mem::forget(std::mem::replace(h, Hd::None));
    }
    reset_world(m.nid);
    flush_quarantine();
}

fn errs<F: Fam, T: Item>(cx: &mut Ctx, what: &str, op: &str, kind: &str) -> bool {
    let n = g().nerr;
    for i in 0..n.min(16) {
        let (e, v) = g().errs[i];
        cx.bad(F::NAME, T::NAME, e, op, kind, &format!("{} ({})", e, v), what);
    }
    g().nerr = 0;
    n > 0
}

/// Bring a machine to the state before the last operation; false if that does not go as expected.
fn prefix<F: Fam, T: Item>(m: &mut Mach<F, T>, steps: &[PStep], setup: &mut String) -> bool {
    reset_world(0);
    for st in &steps[..steps.len() - 1] {
        let out = m.exec(&st.op);
        if out.t != st.t || !(out.v == st.v || (T::ZST && st.t == "item")) || g().nerr > 0 {
            return false;
        }
        let f = if st.t == "h" { st.v[0] } else { 0 };
        setup.push_str(&format!("{},{},{},{},{} ", st.op.o, st.op.s, st.op.a, f, st.t));
    }
    m.notes.clear();
    true
}

/// The last operation as is. Some(inner operations possible) if it does what the specification says.
fn plain<F: Fam, T: Item>(steps: &[PStep], nslots: usize, var: usize) -> Option<Vec<(Op, &'static str)>> {
    let mut m: Mach<F, T> = Mach::new(nslots, var);
    let mut s = String::new();
    let ok = prefix(&mut m, steps, &mut s);
    let st = steps.last().unwrap();
    let mut res = None;
    if ok {
        let mut ops = inner_ops(&m, st.op.s.wrapping_sub(1));
        if st.op.o == "cf" {
            // the handle assigned from stays borrowed
            ops.retain(|(o, _)| o.s as i64 != st.op.a);
        }
        let out = m.exec(&st.op);
        let (d, hs, bs) = st.ex.as_ref().unwrap();
        let ob = m.obs();
        let same = |x: &[(u32, u32)], y: &[(u32, u32)]| if T::ZST { zsum(x) == zsum(y) } else { x == y };
        let good = out.t == st.t
            && out.v == st.v
            && (if T::ZST { out.zd == zsum(d) } else { out.d == *d })
            && hs.iter().enumerate().all(|(j, (k, c, y))| ob[j].k == k && same(&ob[j].c, c) && ob[j].y == *y)
            && bs.iter().zip(m.buf_state()).all(|(e, a)| e == a || e == "?" || a == "?")
            && m.notes.is_empty()
            && g().nerr == 0;
        if good {
            res = Some(ops);
        }
    }
    forget_all(&mut m);
    res
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn execute<F: Fam, T: Item>(cx: &mut Ctx, steps: &[PStep], nslots: usize, var: usize, plan: &Plan, seen: &mut HashSet<u64>, w: &mut dyn Write) {
    cx.tests += 1;
    let mut mm: Mach<F, T> = Mach::new(nslots, var);
    let mut setup = String::new();
    if !prefix(&mut mm, steps, &mut setup) {
        cx.abandoned += 1;
        forget_all(&mut mm);
        return;
    }
    let st = steps.last().unwrap();
    let (d0, _, _) = st.ex.as_ref().unwrap();
    let kind = if st.op.s > 0 { mm.hs[st.op.s - 1].k() } else { "-" };
    let cloning = st.op.o == "clone";
    let what = format!(
        "{} then {}({},{}){}{}",
        setup.trim(), st.op.o, st.op.s, st.op.a,
        plan.arm.map(|k| format!(", {} {} panics", if cloning { "clone" } else { "destructor" }, k + 1)).unwrap_or_default(),
        plan.inner.iter().map(|i| format!(", {} {} calls {}({},{})", if cloning { "clone" } else { "destructor" }, i.at + 1, i.op.o, i.op.s, i.op.a)).collect::<String>()
    );
    reg().log.clear();
    let (zd0, zm0) = (reg().zdrop, reg().zmade);
    let _ = zm0;
    let mut armed = 0u32;
    if let Some(k) = plan.arm {
        if cloning {
            reg().clone_panic_at = k as i64;
        } else if T::ZST {
            reg().zarm = k as i64;
        } else {
            let mut left = k as u32;
            for r in d0 {
                if left < r.1 {
                    armed = r.0 + left;
                    break;
                }
                left -= r.1;
            }
            reg().armed = armed;
        }
    }
    let mut log = Log { calls: vec![], e: vec![] };
    let m: *mut Mach<F, T> = &mut mm;
    let lg: *mut Log = &mut log;
    let bid0 = mm.bid.get(st.op.s.wrapping_sub(1)).copied().unwrap_or(0);
    log.calls.push(Call { op: st.op.clone(), f: 0, t: "", v: vec![], cs: vec![], cf: vec![], ov: false, thr: 1 });
    log.e.push(1);
    mm.busy = if st.op.s > 0 { Some(st.op.s - 1) } else { None };
    if !plan.inner.is_empty() {
        let inner = plan.inner.clone();
        let mut n = 0;
        reg().hook = Some(Box::new(move |_| {
            let now = n;
            n += 1;
            for i in inner.iter().filter(|i| i.at == now) {
                unsafe {
                    // it may be gone or something else by now
                    if (&(*m).hs)[i.op.s - 1].k() != i.k {
                        continue;
                    }
                    (&mut (*lg).calls).push(Call { op: i.op.clone(), f: 0, t: "", v: vec![], cs: vec![], cf: vec![], ov: true, thr: 1 });
                    let k = (*lg).calls.len();
                    (&mut (*lg).e).push(k as i64);
                    let b = (&(*m).bid)[i.op.s - 1];
                    let (f, t, v, cs, cf) = call(m, &i.op, armed as i64);
                    let c = &mut (&mut (*lg).calls)[k - 1];
                    c.f = f;
                    c.t = t;
                    c.v = v;
                    c.cs = cs;
                    c.cf = cf;
                    c.ov = b == bid0;
                    (&mut (*lg).e).push(-(k as i64));
                }
            }
        }));
    }
    let (f, t, v, cs, cf) = call(m, &st.op, armed as i64);
    let log = unsafe { &mut *lg };
    let m = unsafe { &mut *m };
    m.busy = None;
    let nested = log.calls.len() > 1;
    {
        let c = &mut log.calls[0];
        c.f = f;
        c.t = t;
        c.v = v;
        c.cs = cs;
        c.cf = cf;
        c.ov = nested;
        log.e.push(-1);
    }
    let r = reg();
    r.hook = None;
    r.armed = 0;
    r.zarm = -1;
    r.clone_panic_at = -1;
    let fired = log.calls.iter().any(|c| c.t == "unw");
    if fired {
        cx.panics_expected += 1;
    }
    cx.ops += log.calls.len() as u64;
    let op0 = st.op.o.as_str();
    if let Some(c) = log.calls.iter().find(|c| c.t == "panic" && c.op.o != "bp" && c.op.o != "cp") {
        cx.bad(F::NAME, T::NAME, "panic", &c.op.o, kind, &LAST_PANIC.with(|l| l.borrow().clone()), &what);
        forget_all(m);
        return;
    }
    if errs::<F, T>(cx, &what, op0, kind) {
        forget_all(m);
        return;
    }
    // all calls have returned
    let ob = m.obs();
    if errs::<F, T>(cx, &what, op0, kind) {
        forget_all(m);
        return;
    }
    let d = if T::ZST { if reg().zdrop > zd0 { vec![(0, (reg().zdrop - zd0) as u32)] } else { vec![] } } else { Mach::<F, T>::log_runs() };
    let lim: Vec<(u32, u32)> = if T::ZST {
        let shown: i64 = ob.iter().filter(|s| s.k != "-" && s.k != "W").map(|s| zsum(&s.c)).sum::<i64>();
        // shared handles show items several times: what is forgotten shows when everything is gone
        let _ = shown;
        vec![]
    } else {
        let mut shown = HashSet::new();
        for s in &ob {
            for r in &s.c {
                shown.extend(r.0..r.0 + r.1);
            }
        }
        runs((1..m.nid).filter(|&i| reg().state[i as usize] == 1 && !shown.contains(&i)))
    };
    if T::ZST && fired {
        // cannot tell which are forgotten: only the errors above count
        drop_rest(cx, m, &what, op0, kind, true);
        return;
    }
    let q = format!(
        "{{\"h\":[{}],\"d\":{},\"b\":[{}]}}",
        ob.iter().map(|s| format!("[\"{}\",{},{}]", s.k, jr(&s.c), s.y)).collect::<Vec<_>>().join(","),
        jr(&d),
        m.buf_state().iter().map(|b| format!("\"{}\"", b)).collect::<Vec<_>>().join(",")
    );
    // afterwards
    let n = m.hs.len();
    let mut todo: Vec<Op> = vec![];
    let of = |k: &str, m: &Mach<F, T>| -> Vec<usize> { (0..n).filter(|&i| m.hs[i].k() == k).collect() };
    match plan.post % 4 {
        2 => {
            for i in of("S", m) {
                todo.push(Op { o: "gm".into(), s: i + 1, a: 0 });
            }
            for i in of("W", m) {
                todo.push(Op { o: "up".into(), s: i + 1, a: 0 });
            }
        }
        3 => {
            for i in of("S", m) {
                todo.push(Op { o: "im".into(), s: i + 1, a: 0 });
            }
        }
        _ => {}
    }
    let mut post: Vec<String> = vec![];
    let mut i = 0;
    let mut dropping = 0;
    loop {
        let op = if i < todo.len() {
            i += 1;
            todo[i - 1].clone()
        } else if dropping < n {
            let s = if plan.post % 2 == 0 { dropping } else { n - 1 - dropping };
            dropping += 1;
            if matches!(m.hs[s], Hd::None) {
                continue;
            }
            Op { o: "drop".into(), s: s + 1, a: 0 }
        } else {
            break;
        };
        if op.o == "up" && (0..n).all(|i| !matches!(m.hs[i], Hd::None)) {
            continue;
        }
        reg().log.clear();
        let z = reg().zdrop;
        let (f, t, v, cs, cf) = call(m as *mut _, &op, 0);
        let pd = if T::ZST { if reg().zdrop > z { vec![(0, (reg().zdrop - z) as u32)] } else { vec![] } } else { Mach::<F, T>::log_runs() };
        post.push(format!("[\"{}\",{},{},{},\"{}\",{},{},{},{}]", op.o, op.s, op.a, f, t, jv(&v), jr(&cs), jr(&cf), jr(&pd)));
        if t == "panic" {
            cx.bad(F::NAME, T::NAME, "panic", &op.o, kind, &LAST_PANIC.with(|l| l.borrow().clone()), &what);
            forget_all(m);
            return;
        }
        if errs::<F, T>(cx, &what, &op.o, kind) {
            forget_all(m);
            return;
        }
    }
    for (c, s) in std::mem::take(&mut m.notes) {
        cx.bad(F::NAME, T::NAME, c, op0, kind, &s, &what);
    }
    drop_rest(cx, m, &what, op0, kind, fired);
    let key = format!(
        "\"n\":{},\"z\":{},\"s\":\"{}\",\"o\":[{}],\"e\":{},\"q\":{},\"lim\":{},\"post\":[{}]",
        n, T::ZST, setup.trim(),
        log.calls.iter().map(|c| c.json()).collect::<Vec<_>>().join(","),
        jv(&log.e), q, jr(&lim), post.join(",")
    );
    if seen.insert(fnv(&key)) {
        writeln!(w, "{{\"fam\":\"{}\",\"ty\":\"{}\",\"line\":{},\"what\":\"{}\",{}}}", F::NAME, T::NAME, cx.lineno, esc(&what), key).unwrap();
    }
}

/// Everything goes; buffers and, if nothing panicked, all memory must be free then.
fn drop_rest<F: Fam, T: Item>(cx: &mut Ctx, m: &mut Mach<F, T>, what: &str, op: &str, kind: &str, fired: bool) {
    for i in 0..m.hs.len() {
        if !m.drop_slot(i) {
            cx.bad(F::NAME, T::NAME, "panic", "end", kind, &LAST_PANIC.with(|l| l.borrow().clone()), what);
        }
    }
    errs::<F, T>(cx, what, op, kind);
    if m.buf_state().iter().any(|b| *b == "L") {
        cx.bad(F::NAME, T::NAME, "buf-late", op, kind, "a buffer was never freed", what);
    }
    if !fired {
        if g().lib_blocks != 0 {
            cx.bad(F::NAME, T::NAME, "leak", op, kind, &format!("{} blocks ({} bytes) not freed", g().lib_blocks, g().lib_bytes), what);
        }
        if T::ZST && T::DROPS && reg().zmade != reg().zdrop {
            cx.bad(F::NAME, T::NAME, "end-d", op, kind, &format!("{} made {} destroyed", reg().zmade, reg().zdrop), what);
        }
    }
    reset_world(m.nid);
    flush_quarantine();
}

pub fn run<F: Fam, T: Item>(cx: &mut Ctx, steps: &[PStep], nslots: usize, seed: u64, seen: &mut HashSet<u64>, w: &mut dyn Write) {
    let st = steps.last().unwrap();
    let ns = nslots + 2;
    let var = (seed % 64) as usize;
    let inner = match plain::<F, T>(steps, ns, var) {
        Some(i) => i,
        None => {
            cx.abandoned += 1;
            return;
        }
    };
    let (d, hs, _) = st.ex.as_ref().unwrap();
    let n = if st.op.o == "clone" { zsum(&hs[st.op.s - 1].1) } else { zsum(d) } as usize;
    if n == 0 {
        return;
    }
    let mut at = vec![0, n / 2, n - 1];
    at.dedup();
    let mut plans: Vec<Plan> = vec![];
    let mut h = seed;
    let mut rnd = |k: usize| {
        h = mix(h, 77);
        (h % k.max(1) as u64) as usize
    };
    // an operation that panics by itself must not meet another panic
    // (and Iterator::last of the standard library leaks what it holds when a destructor panics)
    let arm = st.t != "panic" && st.op.o != "ls";
    for &k in at.iter().filter(|_| arm) {
        plans.push(Plan { arm: Some(k), inner: vec![], post: rnd(4) });
    }
    if !inner.is_empty() {
        let at = &at;
        let mut pick = || {
            let at = at[rnd(at.len())];
            let (op, k) = inner[rnd(inner.len())].clone();
            Inner { at, op, k }
        };
        for post in 0..4 {
            let i = pick();
            plans.push(Plan { arm: None, inner: vec![i], post: post + 1 });
        }
        let post = (seed >> 7) as usize % 4;
        let i = pick();
        let j = pick();
        plans.push(Plan { arm: None, inner: vec![i, j], post });
        for post in (0..2).filter(|_| arm) {
            let i = pick();
            plans.push(Plan { arm: Some(at[(seed >> (9 + post)) as usize % at.len()]), inner: vec![i], post: post + 1 });
        }
    }
    for p in &plans {
        execute::<F, T>(cx, steps, ns, var, p, seen, w);
    }
}
