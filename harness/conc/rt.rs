//! Cooperative scheduler, memory model (release/acquire clocks, bounded stale reads) and checks.
use crate::track;
use std::cell::UnsafeCell;
use std::collections::HashSet;

pub const NT: usize = 5; // thread 0 sets up and takes down, 1..=4 run the program
pub type Vc = [u32; NT];

#[repr(C)]
pub struct Meta {
    val: UnsafeCell<u64>,
    id: UnsafeCell<u32>,
    run: UnsafeCell<u32>,
    magic: u64,
}
const MAGIC: u64 = 0xA70A_1C00_5EED_BEEF;

fn join(a: &mut Vc, b: &Vc) {
    for i in 0..NT {
        a[i] = a[i].max(b[i]);
    }
}

struct Store {
    val: u64,
    tid: usize,
    clk: u32,
    rel: Vc, // what an acquiring reader learns
    sc: u32, // from when on every SC observer must see it (u32::MAX: not yet)
}
struct Loc {
    st: Vec<Store>,
    base: usize, // index of st[0] in the modification order
    reads: [Vec<(u32, usize)>; NT], // (epoch, index read), for coherence
    key: u64,
    first: usize, // the thread that used it so far, NT = several
}

pub struct Th {
    pub vc: Vc,
    acq: Vc,      // learnt by relaxed loads, effective at the next acquire fence
    rel: Vc,      // clock of the last release fence
    bumped: bool, // the clock moved on after a release, and nothing visible since
    fence_sc: u32, // time of the last SC fence
    pend_sc: Vec<(usize, usize)>, // own stores waiting for an SC fence
    pub done: bool,
    blocked: Option<(usize, usize)>, // spinning on (loc, length of its modification order)
    last: (usize, usize), // last load that changed nothing: (loc, length)
    still: u32,   // operations since something changed
    same: u32,    // how often in a row the last load was repeated
    made: u32,    // locations registered
    yielded: bool,
    patience: u32, // goes on although it seems to be waiting
    ops: u32,
    sp: *mut u8,
    stack: Vec<u8>,
    in_lib: bool,
    pub cur_op: usize,   // operation whose call is not logged yet, usize::MAX none
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ev {
    Call(usize),
    Ret(usize),
}

pub struct Item {
    pub alive: u8, // 0 unborn 1 live 2 destroyed
    w: (usize, u32),
    r: Vc,
}

/// The value of a live Arc: the handles inside it, and who used them.
struct Payload {
    lo: usize,
    hi: usize,
    at: Vec<(usize, (usize, u32), Vc)>,
}

pub struct R {
    payloads: Vec<Payload>,
    pub active: bool,
    pub cur: usize,
    pub n: usize,
    pub th: Vec<Th>,
    locs: Vec<Loc>,
    run: u32,
    pub time: u32,
    pub shared: HashSet<u64>,
    pub new_shared: bool,
    // exploration
    pub trail: Vec<(u16, u16)>, // (chosen, number of options)
    pub pos: usize,
    pub random: Option<u64>,
    can_wait: bool,
    pub patient: u32, // how long a thread may go on that seems to be waiting, once per execution
    pub bound: u32,
    pub preempted: u32,
    pub stale_bound: u32,
    pub stale_used: u32,
    pub ev: Vec<Ev>,
    pub span: Vec<(usize, usize, Vc, Vc)>, // operation, thread, clocks at call and return
    pub problems: Vec<(&'static str, String)>,
    pub items: Vec<Item>,
    pub stuck: bool,
    pub abort: bool,
    pub steps: u32,
    pub switches: u32,
    pub maxsteps: u32,
    probes: u32,
    main_sp: *mut u8,
    pub destroyed: Vec<u32>,
}
static RR: track::Sync2<Option<R>> = track::Sync2(UnsafeCell::new(None));
pub fn r() -> &'static mut R {
    unsafe { (*RR.0.get()).as_mut().unwrap() }
}

const STACK: usize = 256 * 1024;

fn new_th() -> Th {
    Th {
        vc: [0; NT], acq: [0; NT], rel: [0; NT], bumped: false, fence_sc: 0, pend_sc: vec![], done: true, blocked: None, last: (usize::MAX, 0), still: 0, same: 0,
        made: 0, yielded: false, patience: 0, ops: 0, sp: std::ptr::null_mut(), stack: vec![], in_lib: false, cur_op: usize::MAX,
    }
}

pub fn init() {
    let mut th = vec![];
    for i in 0..NT {
        let mut t = new_th();
        if i > 0 {
            t.stack = vec![0u8; STACK];
        }
        th.push(t);
    }
    unsafe {
        *RR.0.get() = Some(R {
            payloads: vec![], active: false, cur: 0, n: 0, th, locs: Vec::new(), run: 0, time: 1, shared: HashSet::new(), new_shared: false,
            trail: vec![], pos: 0, random: None, can_wait: false, patient: 0, bound: 2, preempted: 0, stale_bound: 0, stale_used: 0, ev: vec![], span: vec![], problems: vec![],
            items: vec![], stuck: false, abort: false, steps: 0, switches: 0, maxsteps: 20000, probes: 0, main_sp: std::ptr::null_mut(), destroyed: vec![],
        });
    }
}

pub fn problem(c: &'static str, s: String) {
    track::unlib(|| {
        let r = r();
        if r.problems.len() < 8 && !r.problems.iter().any(|p| p.0 == c) {
            r.problems.push((c, s));
        }
    })
}

// ---------------------------------------------------------------- coroutines

std::arch::global_asm!(
    ".global vf_switch",
    "vf_switch:",
    "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
    "ret",
);
extern "C" {
    fn vf_switch(save: *mut *mut u8, to: *mut u8);
}

extern "C" fn entry() -> ! {
    crate::prog::thread_main(r().cur);
    let r = r();
    r.th[r.cur].done = true;
    finish_thread();
    std::process::abort();
}

fn prepare(t: &mut Th) {
    unsafe {
        let top = (t.stack.as_mut_ptr().add(STACK) as usize & !63) as *mut u64;
        // layout popped by vf_switch: 6 registers, return address; rsp = 8 mod 16 at entry
        let sp = top.sub(8);
        for i in 0..8 {
            *sp.add(i) = 0;
        }
        *sp.add(6) = entry as usize as u64;
        t.sp = sp as *mut u8;
    }
}

fn goto(to: usize) {
    let r = r();
    let from = r.cur;
    if from == to {
        return;
    }
    r.switches += 1;
    r.th[from].in_lib = track::g().in_lib;
    r.cur = to;
    track::g().in_lib = r.th[to].in_lib;
    let save: *mut *mut u8 = &mut r.th[from].sp;
    let to_sp = r.th[to].sp;
    unsafe { vf_switch(save, to_sp) };
}

fn runnable(r: &R, t: usize) -> bool {
    let th = &r.th[t];
    !th.done && th.blocked.map_or(true, |(l, n)| r.locs[l].base + r.locs[l].st.len() != n)
}

fn choose(n: usize) -> usize {
    let r = r();
    if n <= 1 {
        return 0;
    }
    if r.pos < r.trail.len() {
        let c = r.trail[r.pos];
        if c.1 as usize != n && r.random.is_none() {
            // not deterministic: the program must not depend on addresses
            problem("harness", format!("schedule replay diverged at {}: {} options, had {}", r.pos, n, c.1));
        }
        r.pos += 1;
        return (c.0 as usize).min(n - 1);
    }
    let c = if let Some(s) = r.random.as_mut() {
        *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = (*s >> 33) as usize;
        // stay with the current choice most of the time
        if x % 4 != 0 { 0 } else { (x / 4) % n }
    } else {
        0
    };
    track::unlib(|| r.trail.push((c as u16, n as u16)));
    r.pos += 1;
    c
}

/// The current thread cannot or need not go on: pick another one.
fn elsewhere() -> bool {
    let r = r();
    let cur = r.cur;
    let mut opts = [0usize; NT];
    let mut n = 0;
    for i in 1..=r.n {
        let t = (cur + i - 1) % r.n + 1;
        if t != cur && runnable(r, t) {
            opts[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        // everybody waits: perhaps not really (reading the same place again is not always waiting)
        r.probes += 1;
        if r.probes > 64 {
            return false;
        }
        for i in 1..=r.n {
            let t = (cur + i - 1) % r.n + 1;
            r.th[t].blocked = None;
            if t != cur && !r.th[t].done {
                opts[n] = t;
                n += 1;
            }
        }
        if n == 0 {
            return !r.th[cur].done;
        }
        goto(opts[0]);
        return true;
    }
    // a forced choice among several threads; with the preemption bound used up take the first
    let c = choose(n);
    goto(opts[c]);
    true
}

fn finish_thread() {
    let r = r();
    if !elsewhere() {
        // all done, or the rest is stuck
        if (1..=r.n).any(|t| !r.th[t].done) && !r.abort {
            r.stuck = true;
        }
        let cur = r.cur;
        r.cur = 0;
        track::g().in_lib = false;
        let save: *mut *mut u8 = &mut r.th[cur].sp;
        unsafe { vf_switch(save, r.main_sp) };
    }
}

/// Give up this execution: back to the main program, leaving the threads where they are.
fn give_up() -> ! {
    let r = r();
    r.abort = true;
    let cur = r.cur;
    r.cur = 0;
    track::g().in_lib = false;
    let save: *mut *mut u8 = &mut r.th[cur].sp;
    unsafe { vf_switch(save, r.main_sp) };
    std::process::abort();
}

/// Run the threads 1..=n to the end.
pub fn run(n: usize) {
    let r = r();
    r.n = n;
    r.th[0].vc[0] += 1;
    let vc0 = r.th[0].vc;
    let f0 = r.time;
    for t in 1..=n {
        prepare(&mut r.th[t]);
        let th = &mut r.th[t];
        th.vc = vc0;
        th.vc[t] = 1;
        th.acq = [0; NT];
        th.rel = [0; NT];
        th.fence_sc = f0; // starting a thread synchronises
        th.pend_sc.clear();
        th.done = false;
        th.blocked = None;
        th.last = (usize::MAX, 0);
        th.still = 0;
        th.made = 0;
        th.ops = 0;
        th.yielded = false;
        th.patience = 0;
        th.in_lib = false;
        th.cur_op = usize::MAX;
    }
    r.active = true;
    r.can_wait = r.patient > 0;
    let c = choose(n);
    r.cur = c + 1;
    let to = r.th[r.cur].sp;
    let save: *mut *mut u8 = &mut r.main_sp;
    unsafe { vf_switch(save, to) };
    // back
    let r = crate::rt::r();
    r.active = false;
    r.cur = 0;
    let mut vc = r.th[0].vc;
    for t in 1..=n {
        join(&mut vc, &r.th[t].vc);
    }
    r.th[0].vc = vc;
    r.th[0].vc[0] += 1;
}

pub fn reset() {
    let r = r();
    r.run += 1;
    track::unlib(|| {
        r.locs.clear();
        r.payloads.clear();
    });
    r.time = 1;
    r.cur = 0;
    r.active = false;
    r.pos = 0;
    r.preempted = 0;
    r.stale_used = 0;
    r.ev.clear();
    r.span.clear();
    r.problems.clear();
    r.items.clear();
    r.stuck = false;
    r.abort = false;
    r.steps = 0;
    r.probes = 0;
    r.destroyed.clear();
    for t in &mut r.th {
        t.vc = [0; NT];
        t.acq = [0; NT];
        t.rel = [0; NT];
        t.done = true;
        t.blocked = None;
        t.made = 0;
        t.pend_sc.clear();
        t.fence_sc = 0;
    }
    r.th[0].vc[0] = 1;
}

/// Next schedule to explore (depth first); false when all are done.
pub fn next_trail() -> bool {
    let r = r();
    r.trail.truncate(r.pos);
    while let Some((c, n)) = r.trail.pop() {
        if c + 1 < n {
            r.trail.push((c + 1, n));
            return true;
        }
    }
    false
}

// ---------------------------------------------------------------- visible operations

fn log_call() {
    let r = r();
    let t = r.cur;
    if t > 0 && r.th[t].cur_op != usize::MAX {
        let o = r.th[t].cur_op;
        r.th[t].cur_op = usize::MAX;
        let vc = r.th[t].vc;
        track::unlib(|| {
            r.ev.push(Ev::Call(o));
            r.span.push((o, t, vc, vc));
        });
    }
}
pub fn op_begin(o: usize) {
    let r = r();
    let t = r.cur;
    r.th[t].cur_op = o;
    r.th[t].ops = 0;
    r.th[t].still = 0;
    r.th[t].last = (usize::MAX, 0);
}
pub fn op_end(o: usize) {
    log_call();
    let r = r();
    let t = r.cur;
    let mut vc = r.th[t].vc;
    if r.th[t].bumped {
        vc[t] -= 1; // whoever sees the last release comes after this call
    }
    if let Some(x) = r.span.iter_mut().rev().find(|x| x.0 == o) {
        x.3 = vc;
    }
    track::unlib(|| r.ev.push(Ev::Ret(o)));
}
/// Is operation o unordered (by happens-before) with an operation of another thread?
pub fn unordered(o: usize) -> bool {
    let r = r();
    let (_, t, c, e) = match r.span.iter().find(|x| x.0 == o) {
        Some(x) => *x,
        None => return false,
    };
    r.span.iter().any(|&(_, u, c2, e2)| u != t && !(e2[u] <= c[u]) && !(e[t] <= c2[t]))
}

fn loc(m: &Meta) -> usize {
    let r = r();
    if m.magic != MAGIC {
        problem("uaf", "use of an atomic in freed memory".into());
        if r.active {
            give_up();
        }
    }
    unsafe {
        if *m.run.get() != r.run {
            *m.run.get() = r.run;
            *m.id.get() = r.locs.len() as u32;
            let t = r.cur;
            let k = r.th[t].made;
            r.th[t].made += 1;
            track::unlib(|| {
                r.locs.push(Loc {
                    st: vec![Store { val: *m.val.get(), tid: t, clk: 0, rel: [0; NT], sc: 0 }],
                    base: 0,
                    reads: Default::default(),
                    key: (t as u64) << 32 | k as u64,
                    first: t,
                })
            });
        }
        *m.id.get() as usize
    }
}

/// Called before every visible operation.
fn point(l: usize) {
    let r = r();
    r.time += 1;
    let t = r.cur;
    r.th[t].bumped = false;
    if !r.active {
        r.th[t].vc[t] += 1;
        return;
    }
    r.steps += 1;
    r.th[t].ops += 1;
    if r.steps > r.maxsteps {
        problem("hang", format!("no end after {} steps (thread {})", r.maxsteps, t));
        give_up();
    }
    if l != usize::MAX {
        let lc = &mut r.locs[l];
        if lc.first != t && lc.first != NT {
            if lc.first == 0 && !r.shared.contains(&lc.key) {
                lc.first = t; // made during setup, used by one thread only so far
            } else {
                lc.first = NT;
                if !r.shared.contains(&lc.key) {
                    let k = lc.key;
                    track::unlib(|| r.shared.insert(k));
                    r.new_shared = true;
                }
            }
        }
        let k = r.locs[l].key;
        if !r.shared.contains(&k) {
            r.th[t].vc[t] += 1;
            return;
        }
    }
    if !std::thread::panicking() && r.th[t].patience == 0 {
        let me = r.th[t].yielded;
        r.th[t].yielded = false;
        if me {
            // asked for others to run: not a preemption
            elsewhere();
        } else if r.preempted < r.bound {
            let mut opts = [0usize; NT];
            opts[0] = t;
            let mut n = 1;
            for i in 1..r.n {
                let u = (t + i - 1) % r.n + 1;
                if runnable(r, u) {
                    opts[n] = u;
                    n += 1;
                }
            }
            let c = choose(n);
            if c > 0 {
                r.preempted += 1;
                goto(opts[c]);
            }
        }
    }
    let r = crate::rt::r();
    r.time += 1;
    log_call();
    let t = r.cur;
    r.th[t].bumped = false;
    r.th[t].vc[t] += 1;
}

fn changed(t: usize) {
    r().probes = 0;
    let th = &mut r().th[t];
    th.still = 0;
    th.same = 0;
    th.patience = 0;
    th.last = (usize::MAX, 0);
}

/// The thread saw l (length n) and changed nothing. If it keeps doing so it is waiting.
fn unchanged(t: usize, l: usize, n: usize) {
    let r = r();
    let th = &mut r.th[t];
    th.still += 1;
    if !r.active || std::thread::panicking() {
        if th.still > 20_000 {
            crate::prog::fatal("hang", "endless wait although no other thread runs");
        }
        return;
    }
    if th.last == (l, n) {
        th.same += 1;
    } else {
        th.same = 0;
    }
    th.last = (l, n);
    if th.patience > 0 {
        th.patience -= 1;
        r.steps -= 1;
        th.still = 0;
        th.same = 3;
        if th.patience > 0 {
            return;
        }
    } else if th.same == 2 && r.can_wait && choose(2) == 1 {
        // a loop that does not wait for ever
        let r = crate::rt::r();
        r.can_wait = false;
        r.th[t].patience = r.patient;
        return;
    }
    let th = &mut crate::rt::r().th[t];
    if th.same >= 2 {
        th.same = 0;
        th.blocked = Some((l, n));
        if !elsewhere() {
            problem("hang", format!("thread {} waits forever, and no other thread can go on", t));
            give_up();
        }
        crate::rt::r().th[t].blocked = None;
    } else if th.still % 300 == 0 {
        elsewhere();
    }
}

fn acq(o: u8) -> bool {
    o == 1 || o >= 3
}
fn rel(o: u8) -> bool {
    o >= 2
}

fn floor(t: usize, l: usize, o: u8) -> usize {
    // index of the oldest store the thread may read
    let r = r();
    let lc = &r.locs[l];
    let th = &r.th[t];
    let mut f = lc.base;
    let obs = if o == 4 { r.time } else { th.fence_sc };
    for (i, s) in lc.st.iter().enumerate() {
        if s.clk <= th.vc[s.tid] || s.sc < obs {
            f = f.max(lc.base + i);
        }
    }
    for u in 0..NT {
        for &(e, i) in lc.reads[u].iter().rev() {
            if e <= th.vc[u] {
                f = f.max(i);
                break;
            }
        }
    }
    f
}

fn do_read(t: usize, l: usize, idx: usize, o: u8) -> u64 {
    let r = r();
    let (v, rl) = {
        let lc = &r.locs[l];
        let s = &lc.st[idx - lc.base];
        (s.val, s.rel)
    };
    let th = &mut r.th[t];
    join(&mut th.acq, &rl);
    if acq(o) {
        join(&mut th.vc, &rl);
    }
    let e = th.vc[t];
    let rd = &mut r.locs[l].reads[t];
    track::unlib(|| {
        if let Some(x) = rd.last_mut() {
            if x.1 == idx {
                return;
            }
        }
        rd.push((e, idx))
    });
    v
}

fn do_store(t: usize, l: usize, v: u64, o: u8, m: &Meta, rmw: bool) {
    let r = r();
    let mut rl = if rel(o) { r.th[t].vc } else { r.th[t].rel };
    if rmw {
        // release sequence
        let p = r.locs[l].st.last().unwrap().rel;
        join(&mut rl, &p);
    }
    let clk = r.th[t].vc[t];
    let sc = if o == 4 { r.time } else { u32::MAX };
    track::unlib(|| {
        let lc = &mut r.locs[l];
        lc.st.push(Store { val: v, tid: t, clk, rel: rl, sc });
        let idx = lc.base + lc.st.len() - 1;
        if lc.st.len() > 24 {
            lc.st.remove(0);
            lc.base += 1;
        }
        lc.reads[t].push((clk, idx));
        if sc == u32::MAX && r.th[t].pend_sc.len() < 4000 {
            r.th[t].pend_sc.push((l, idx));
        }
    });
    unsafe { *m.val.get() = v };
    // what the thread does from here on is not covered by this store
    r.th[t].vc[t] += 1;
    r.th[t].bumped = true;
}

#[no_mangle]
fn vf_load(m: &Meta, o: u8) -> u64 {
    let l = loc(m);
    point(l);
    let r = r();
    let t = r.cur;
    let last = r.locs[l].base + r.locs[l].st.len() - 1;
    let mut idx = last;
    if r.active && r.stale_used < r.stale_bound && r.shared.contains(&r.locs[l].key) {
        let f = floor(t, l, o);
        if f < last {
            let n = (last - f + 1).min(3);
            let c = choose(n);
            if c > 0 {
                r.stale_used += 1;
                idx = last - c;
            }
        }
    }
    let v = do_read(t, l, idx, o);
    if idx == last {
        unchanged(t, l, last + 1);
    }
    v
}
#[no_mangle]
fn vf_store(m: &Meta, v: u64, o: u8) {
    let l = loc(m);
    point(l);
    let t = r().cur;
    do_store(t, l, v, o, m, false);
    changed(t);
}
#[no_mangle]
fn vf_rmw(m: &Meta, o: u8, f: &mut dyn FnMut(u64) -> u64) -> u64 {
    let l = loc(m);
    point(l);
    let t = r().cur;
    let last = r().locs[l].base + r().locs[l].st.len() - 1;
    let old = do_read(t, l, last, o);
    let new = f(old);
    do_store(t, l, new, o, m, true);
    if new == old {
        // (the length of the modification order grows, but nothing changed)
        let n = r().locs[l].base + r().locs[l].st.len();
        unchanged(t, l, n);
    } else {
        changed(t);
    }
    old
}
#[no_mangle]
fn vf_cas(m: &Meta, old: u64, new: u64, ok: u8, fail: u8) -> Result<u64, u64> {
    let l = loc(m);
    point(l);
    cas(m, l, old, new, ok, fail)
}
fn cas(m: &Meta, l: usize, old: u64, new: u64, ok: u8, fail: u8) -> Result<u64, u64> {
    let t = r().cur;
    let last = r().locs[l].base + r().locs[l].st.len() - 1;
    let cur = unsafe { *m.val.get() };
    if cur == old {
        do_read(t, l, last, ok);
        do_store(t, l, new, ok, m, true);
        changed(t);
        Ok(cur)
    } else {
        do_read(t, l, last, fail);
        unchanged(t, l, last + 1);
        Err(cur)
    }
}
/// A weak compare-and-exchange may fail for no reason (counted with the stale reads).
#[no_mangle]
fn vf_cas_weak(m: &Meta, old: u64, new: u64, ok: u8, fail: u8) -> Result<u64, u64> {
    let l = loc(m);
    let r = r();
    if r.active && !std::thread::panicking() && unsafe { *m.val.get() } == old && r.stale_used < r.stale_bound {
        point(l);
        let cur = unsafe { *m.val.get() };
        let r = crate::rt::r();
        if cur == old && r.stale_used < r.stale_bound && choose(2) == 1 {
            let r = crate::rt::r();
            r.stale_used += 1;
            let last = r.locs[l].base + r.locs[l].st.len() - 1;
            do_read(r.cur, l, last, fail);
            return Err(cur);
        }
        return cas(m, l, old, new, ok, fail);
    }
    vf_cas(m, old, new, ok, fail)
}
#[no_mangle]
fn vf_fence(o: u8) {
    // SC fences take part in the scheduling, others only act on the thread itself
    let r = r();
    if o == 4 {
        point(usize::MAX);
    }
    let t = r.cur;
    let time = r.time;
    let th = &mut r.th[t];
    if acq(o) {
        let a = th.acq;
        join(&mut th.vc, &a);
    }
    if rel(o) {
        th.rel = th.vc;
        th.vc[t] += 1;
        th.bumped = true;
    }
    if o == 4 {
        th.fence_sc = time;
        let p = std::mem::take(&mut th.pend_sc);
        for (l, i) in &p {
            let lc = &mut r.locs[*l];
            if *i >= lc.base {
                let s = &mut lc.st[*i - lc.base];
                s.sc = s.sc.min(time);
            }
        }
        track::unlib(|| drop(p));
        r.th[t].pend_sc = Vec::new();
        r.time += 1;
    }
}
#[no_mangle]
fn vf_yield() {
    let r = r();
    let t = r.cur;
    r.th[t].yielded = true;
    r.th[t].still += 1;
}
#[no_mangle]
fn vf_touch(m: &Meta) {
    // exclusive access: forget the history of the location
    unsafe {
        *m.run.get() = 0;
    }
}
#[no_mangle]
fn vf_problem(what: &'static str) {
    problem("uaf", what.into());
    if r().active {
        give_up();
    }
}
#[no_mangle]
fn vf_init_stamp() -> u64 {
    let r = r();
    (r.cur as u64) << 32 | r.th[r.cur].vc[r.cur] as u64
}
#[no_mangle]
fn vf_init_check(s: u64) {
    let r = r();
    let (t, c) = ((s >> 32) as usize, s as u32);
    if t < NT && r.th[r.cur].vc[t] < c {
        problem("race", format!("thread {} uses shared data whose creation by thread {} does not happen before", r.cur, t));
    }
}

#[no_mangle]
fn vf_payload(at: usize, len: usize, live: bool) {
    let r = r();
    track::unlib(|| {
        r.payloads.retain(|p| !(p.lo < at + len.max(1) && at < p.hi));
        if live && len > 0 {
            r.payloads.push(Payload { lo: at, hi: at + len, at: vec![] });
        }
    });
}
#[no_mangle]
fn vf_handle(at: usize, write: bool) {
    let r = r();
    let t = r.cur;
    let vc = r.th[t].vc;
    let p = match r.payloads.iter_mut().find(|p| p.lo <= at && at < p.hi) {
        Some(p) => p,
        None => return,
    };
    let k = match p.at.iter().position(|x| x.0 == at) {
        Some(k) => k,
        None => {
            track::unlib(|| p.at.push((at, (t, 0), [0; NT])));
            p.at.len() - 1
        }
    };
    let x = &mut p.at[k];
    let bad = x.1 .1 > vc[x.1 .0] || write && (0..NT).any(|u| x.2[u] > vc[u]);
    if write {
        x.1 = (t, vc[t]);
    } else {
        x.2[t] = vc[t];
    }
    if bad {
        problem("race", format!("{} of a shared handle by thread {} races with another access", if write { "replacing" } else { "use" }, t));
    }
}

// ---------------------------------------------------------------- items

pub fn born(n: usize) -> u32 {
    let r = r();
    let id = r.items.len() as u32;
    let t = r.cur;
    let c = r.th[t].vc[t];
    track::unlib(|| {
        for _ in 0..n {
            r.items.push(Item { alive: 1, w: (t, c), r: [0; NT] });
        }
    });
    id
}
/// An access to item id by the current thread.
pub fn access(id: u32, write: bool, what: &'static str) -> bool {
    log_call();
    let r = r();
    let t = r.cur;
    let vc = r.th[t].vc;
    let it = match r.items.get_mut(id as usize) {
        Some(i) => i,
        None => {
            problem("read-garbage", format!("{}: not an item", what));
            return false;
        }
    };
    if it.alive != 1 {
        problem(if what == "destroy" { "destroyed-twice" } else { "read-stale-item" }, format!("{} of item {} which is destroyed", what, id));
        return false;
    }
    if it.w.1 > vc[it.w.0] {
        let w = it.w.0;
        problem("race", format!("{} of item {} by thread {} races with a write by thread {}", what, id, t, w));
    }
    if write {
        for u in 0..NT {
            if it.r[u] > vc[u] {
                problem("race", format!("{} of item {} by thread {} races with a read by thread {}", what, id, t, u));
            }
        }
        it.w = (t, vc[t]);
    } else {
        it.r[t] = vc[t];
    }
    true
}
pub fn destroyed(id: u32) {
    if access(id, true, "destroy") {
        let r = r();
        r.items[id as usize].alive = 2;
        track::unlib(|| r.destroyed.push(id));
    }
}
/// The buffer that holds items lo..hi is freed.
pub fn buffer_freed(lo: u32, hi: u32) {
    let r = r();
    let t = r.cur;
    let vc = r.th[t].vc;
    for id in lo..hi {
        let it = &r.items[id as usize];
        if it.alive == 1 {
            problem("buf-early", format!("buffer freed while item {} is alive", id));
        }
        if it.w.1 > vc[it.w.0] || (0..NT).any(|u| it.r[u] > vc[u]) {
            problem("race", format!("freeing the buffer races with an access to item {}", id));
        }
    }
}
/// A moment in which other threads may run, in user code.
pub fn pause() {
    point(usize::MAX);
}
/// The item leaves the slices (returned by value).
pub fn moved_out(id: u32) {
    if access(id, true, "move") {
        r().items[id as usize].alive = 2;
    }
}
