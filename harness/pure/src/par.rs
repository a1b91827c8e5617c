//! Programs of several threads (as in tools/concgen.py), BOMB times: number of slots, then setup, threads and the list of
//! slots that several threads use, with a space before each.  Operations are four bytes: index in OPS, slot, argument, slot of what it yields.
use super::{num, once, OPS, Hd, Item, Ref};
use crate::fam::{ArcF, Fam};
use std::cell::UnsafeCell;
use std::sync::{Arc, Barrier, Mutex};

type H<T> = Hd<ArcF, T>;
struct Slots<T: Item>(Vec<UnsafeCell<H<T>>>);
unsafe impl<T: Item> Sync for Slots<T> {}

/// What can be done with a handle that others use as well.
fn shared<T: Item>(h: &H<T>, op: &str) -> Option<H<T>> {
    Some(match (op, h) {
        ("clone", Hd::S(s)) => Hd::S(s.clone()),
        ("clone", Hd::W(s)) => Hd::W(s.clone()),
        ("clone", Hd::P(s)) => Hd::P(s.clone()),
        ("cl", Hd::S(s)) => Hd::S(ArcF::clone_left(s)),
        ("cr", Hd::S(s)) => Hd::S(ArcF::clone_right(s)),
        ("dg", Hd::S(s)) => Hd::W(ArcF::downgrade(s)),
        ("up", Hd::W(w)) => return ArcF::upgrade(w).map(Hd::S),
        _ => return None,
    })
}

fn owned<T: Item>(h: &mut H<T>, op: &str, a: usize, var: usize) -> Option<H<T>> {
    match (op, &mut *h) {
        ("drop", _) => {
            *h = Hd::None;
            None
        }
        ("gm", Hd::S(s)) => {
            if let Some(m) = ArcF::get_mut(s) {
                once(&mut [Ref::Ex(m)]);
            }
            None
        }
        ("im", Hd::S(_)) | ("fz", Hd::M(_)) | ("it", Hd::M(_)) | ("pt", Hd::S(_)) | ("pt", Hd::M(_)) => {
            *h = match (op, std::mem::replace(h, Hd::None)) {
                ("im", Hd::S(s)) => match ArcF::into_mut(s, var) {
                    Ok(m) => Hd::M(m),
                    Err(s) => Hd::S(s),
                },
                ("fz", Hd::M(m)) => Hd::S(ArcF::into_immut(m, var)),
                ("it", Hd::M(m)) => Hd::I(ArcF::into_iter(m)),
                (_, Hd::S(s)) => Hd::P(ArcF::s_parts(s, 1 << a)),
                (_, Hd::M(s)) => Hd::Q(ArcF::m_parts(s, 1 << a)),
                _ => unreachable!(),
            };
            None
        }
        ("sl", Hd::S(s)) => Some(Hd::S(ArcF::s_split_left(s))),
        ("sr", Hd::S(s)) => Some(Hd::S(ArcF::s_split_right(s))),
        ("sl", Hd::M(s)) => Some(Hd::M(ArcF::m_split_left(s))),
        ("sr", Hd::M(s)) => Some(Hd::M(ArcF::m_split_right(s))),
        ("nx", Hd::P(s)) => s.next().map(Hd::S),
        ("nb", Hd::P(s)) => s.next_back().map(Hd::S),
        ("nx", Hd::Q(s)) => s.next().map(Hd::M),
        ("nb", Hd::Q(s)) => s.next_back().map(Hd::M),
        ("nx", Hd::I(s)) => {
            if let Some(mut x) = s.next() {
                x.write();
            }
            None
        }
        _ => shared(h, op),
    }
}

type Op = (&'static str, usize, usize, usize);

fn parse(s: &[u8]) -> Vec<Op> {
    s.chunks(4).map(|o| (OPS[num(o[0])], num(o[1]), num(o[2]), num(o[3]))).collect()
}

/// All items of a handle; exclusive ones are written.
fn look<T: Item>(h: &mut H<T>) {
    match h {
        Hd::None | Hd::W(_) => {}
        Hd::S(s) => once(&mut [Ref::Sh(s)]),
        Hd::P(s) => once(&mut [Ref::Sh(ArcF::p_slice(s))]),
        Hd::M(s) => once(&mut [Ref::Ex(s)]),
        Hd::I(s) => once(&mut [Ref::Ex(ArcF::i_slice_mut(s))]),
        Hd::Q(s) => once(&mut [Ref::Ex(ArcF::q_slice_mut(s))]),
    }
}

fn look_shared<T: Item>(h: &H<T>) {
    if let Hd::S(s) = h {
        once(&mut [Ref::Sh(s)]);
    }
}

fn step<T: Item>(slots: &Slots<T>, o: Op, all: &[usize], var: usize) {
    let (op, s, a, d) = o;
    let y = match op {
        "new" | "newm" => {
            let v: Vec<T> = (0..a).map(|i| T::mk(i as u32 + 1)).collect();
            Some(if op == "new" { Hd::S(ArcF::s_from(v, var)) } else { Hd::M(ArcF::m_from(v, var)) })
        }
        // the slot is another thread's as well: nobody changes it
        _ if all.contains(&s) => {
            let h = unsafe { &*slots.0[s].get() };
            look_shared(h);
            shared(h, op)
        }
        _ => owned(unsafe { &mut *slots.0[s].get() }, op, a, var),
    };
    if let Some(y) = y {
        unsafe { *slots.0[d].get() = y };
    }
}

type Job = Arc<dyn Fn(usize) + Send + Sync>;

/// Three threads that run what they are given at the same time.
pub struct Crew {
    start: Arc<Barrier>,
    end: Arc<Barrier>,
    job: Arc<Mutex<Option<Job>>>,
}

impl Crew {
    pub fn new() -> Self {
        let c = Crew { start: Arc::new(Barrier::new(4)), end: Arc::new(Barrier::new(4)), job: Arc::new(Mutex::new(None)) };
        for i in 0..3 {
            let (start, end, job) = (c.start.clone(), c.end.clone(), c.job.clone());
            std::thread::spawn(move || loop {
                start.wait();
                let j = job.lock().unwrap().clone();
                let Some(j) = j else { return };
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j(i))).is_err() {
                    eprintln!("error: the evaluated program panicked in a thread");
                    std::process::exit(1);
                }
                drop(j);
                end.wait();
            });
        }
        c
    }
    fn go(&self, j: Job) {
        *self.job.lock().unwrap() = Some(j);
        self.start.wait();
        self.end.wait();
        *self.job.lock().unwrap() = None;
    }
}

impl Drop for Crew {
    fn drop(&mut self) {
        self.start.wait();
    }
}

pub fn run<T: Item + Send + Sync>(crew: &Crew, text: &[u8], var: usize, times: usize) {
    super::BOMB.store(0, std::sync::atomic::Ordering::Relaxed);
    let n = num(text[0]);
    let mut f: Vec<&[u8]> = text[2..].split(|b| *b == b' ').collect();
    let all: Arc<Vec<usize>> = Arc::new(f.pop().unwrap().iter().map(|b| num(*b)).collect());
    let setup = parse(f[0]);
    let threads: Arc<Vec<Vec<Op>>> = Arc::new(f[1..].iter().map(|t| parse(t)).collect());
    for k in 0..times {
        let slots: Slots<T> = Slots((0..=n).map(|_| UnsafeCell::new(Hd::None)).collect());
        for o in &setup {
            step(&slots, *o, &[], var + k);
        }
        let slots = Arc::new(slots);
        let job: Job = {
            let (slots, threads, all) = (slots.clone(), threads.clone(), all.clone());
            Arc::new(move |i: usize| {
                let Some(t) = threads.get(i) else { return };
                let mut own: Vec<usize> = t.iter().flat_map(|o| [o.1, o.3]).filter(|s| *s > 0 && !all.contains(s)).collect();
                own.sort();
                own.dedup();
                for o in t {
                    step(&slots, *o, &all, var + k + i);
                    for &s in &own {
                        look(unsafe { &mut *slots.0[s].get() });
                    }
                }
                // every other time handles die in their thread
                if (var + k + i) % 2 == 0 {
                    for &s in &own {
                        unsafe { *slots.0[s].get() = Hd::None };
                    }
                }
            })
        };
        crew.go(job);
        let mut slots = Arc::try_unwrap(slots).ok().expect("workers are done");
        let mut hs: Vec<H<T>> = slots.0.drain(..).map(|c| c.into_inner()).collect();
        super::touch(super::Mach::refs(&mut hs, k % 2 == 1));
        if k % 2 == 1 {
            hs.reverse();
        }
    }
}
