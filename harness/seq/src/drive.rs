//! Random histories on the real code, logged for validation against the specification.
use crate::fam::Fam;
use crate::mach::*;
use crate::modes::*;
use crate::track::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

pub struct Profile {
    pub w: Vec<(String, usize)>,
    pub lens: Vec<usize>,
    pub lgs: Vec<i64>,
}
impl Profile {
    pub fn parse(w: &str, lens: &str, lgs: &str) -> Self {
        Profile {
            w: w.split(',').filter(|x| !x.is_empty()).map(|x| {
                let mut p = x.split(':');
                (p.next().unwrap().to_string(), p.next().unwrap_or("1").parse().unwrap())
            }).collect(),
            lens: lens.split(',').map(|x| x.parse().unwrap()).collect(),
            lgs: lgs.split(',').map(|x| x.parse().unwrap()).collect(),
        }
    }
}

fn applies(o: &str, k: &str) -> bool {
    match o {
        "cl" | "cr" | "gm" | "im" | "dg" => k == "S",
        "clone" => matches!(k, "S" | "W" | "M" | "P"),
        "cf" => matches!(k, "S" | "W" | "P"),
        "sl" | "sr" | "pt" | "bp" => matches!(k, "S" | "M"),
        "drop" => k != "-",
        "fz" | "it" => k == "M",
        "up" => k == "W",
        "set" => matches!(k, "M" | "I" | "Q"),
        "nx" | "nb" | "nt" | "nk" | "ls" | "cnt" => matches!(k, "I" | "P" | "Q"),
        "sf" | "st" => k == "I",
        _ => false,
    }
}

fn jr(r: &[(u32, u32)]) -> String {
    format!("[{}]", r.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","))
}

pub fn step_json<F: Fam, T: Item>(m: &mut Mach<F, T>, op: &Op, out: &Outc) -> String {
    let ob = m.obs();
    let bs = m.buf_state();
    let d = if T::ZST { if T::DROPS { out.zd } else { -1 } } else if T::DROPS { 0 } else { -1 };
    format!(
        "{{\"o\":\"{}\",\"s\":{},\"a\":{},\"t\":\"{}\",\"v\":[{}],\"d\":{},\"zd\":{},\"h\":[{}],\"b\":[{}]}}",
        op.o, op.s, op.a, out.t,
        out.v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        jr(&out.d), d,
        ob.iter().map(|s| format!("{{\"k\":\"{}\",\"c\":{},\"y\":{}}}", s.k, jr(&s.c), s.y)).collect::<Vec<_>>().join(","),
        bs.iter().map(|b| format!("\"{}\"", b)).collect::<Vec<_>>().join(","),
    )
}

pub fn run<F: Fam, T: Item>(cx: &mut Ctx, p: &Profile, nslots: usize, nops: usize, seed: u64) -> String {
    cx.tests += 1;
    let mut rng = Rng(seed);
    let mut m: Mach<F, T> = Mach::new(nslots, rng.below(1 << 20));
    reset_world(0);
    let mut ops: Vec<Op> = vec![];
    let mut steps: Vec<String> = vec![];
    let tot: usize = p.w.iter().map(|x| x.1).sum();
    let mut clean = true;
    let mut tries = 0;
    let mut live_items = 0usize;
    while ops.len() < nops && tries < nops * 40 {
        tries += 1;
        let mut r = rng.below(tot);
        let o = p.w.iter().find(|x| { if r < x.1 { true } else { r -= x.1; false } }).unwrap().0.clone();
        let free = m.hs.iter().filter(|h| matches!(h, Hd::None)).count();
        let mut op = Op { o: o.clone(), s: 0, a: 0 };
        if o == "new" || o == "newm" {
            if free == 0 { continue; }
            op.a = p.lens[rng.below(p.lens.len())] as i64;
            live_items += op.a as usize;
            if live_items > 200_000 { continue; }
        } else if o == "cp" {
            op.a = p.lens[rng.below(p.lens.len())].min(40) as i64;
        } else if o == "wn" {
            if free == 0 { continue; }
        } else {
            let c: Vec<usize> = (0..nslots).filter(|&i| applies(&o, m.hs[i].k())).collect();
            if c.is_empty() { continue; }
            let i = c[rng.below(c.len())];
            op.s = i + 1;
            let n = m.hs[i].slice().map(|s| s.len()).unwrap_or(0);
            let needs = matches!(o.as_str(), "clone" | "cl" | "cr" | "sl" | "sr" | "dg" | "up" | "sf" | "st")
                || (matches!(o.as_str(), "nx" | "nb" | "nt" | "nk" | "ls") && matches!(m.hs[i], Hd::P(_) | Hd::Q(_)));
            if needs && free == 0 { continue; }
            match o.as_str() {
                "gm" => op.a = if rng.below(2) == 0 || n == 0 { 0 } else { rng.below(n) as i64 + 1 },
                "cf" => {
                    let c: Vec<usize> = (0..nslots).filter(|&j| j != i && m.hs[j].k() == m.hs[i].k()).collect();
                    if c.is_empty() { continue; }
                    op.a = c[rng.below(c.len())] as i64 + 1;
                }
                "set" => { if n == 0 { continue; } op.a = rng.below(n) as i64 }
                "sf" | "st" => op.a = if rng.below(12) == 0 { n as i64 + 1 + rng.below(3) as i64 } else { rng.below(n + 1) as i64 },
                "pt" => op.a = p.lgs[rng.below(p.lgs.len())],
                "bp" => op.a = [0i64, 3, 5, 6, 12, 24, 1 << 20 | 2][rng.below(7)],
                "nt" | "nk" => {
                    if m.lg[i] > 30 && !matches!(m.hs[i], Hd::I(_)) { continue; }
                    let top = if rng.below(3) == 0 { n + 3 } else { 4 };
                    op.a = rng.below(top) as i64;
                }
                "ls" => { if m.lg[i] > 10 && !matches!(m.hs[i], Hd::I(_)) { continue; } }
                "cnt" => { if m.lg[i] > 30 && !matches!(m.hs[i], Hd::I(_)) { continue; } }
                "clone" if matches!(m.hs[i], Hd::M(_)) => { live_items += n; if live_items > 200_000 { continue; } }
                _ => {}
            }
        }
        cx.ops += 1;
        let kind = if op.s > 0 { m.hs[op.s - 1].k() } else { "-" };
        let out = m.exec(&op);
        ops.push(op.clone());
        steps.push(step_json(&mut m, &op, &out));
        let mut bad = false;
        for i in 0..g().nerr.min(16) {
            let (e, v) = g().errs[i];
            cx.bad(F::NAME, T::NAME, e, &op.o, kind, &format!("{} ({})", e, v), &ops_str(&ops));
            bad = true;
        }
        g().nerr = 0;
        for (c, s) in std::mem::take(&mut m.notes) {
            cx.bad(F::NAME, T::NAME, c, &op.o, kind, &s, &ops_str(&ops));
            bad = true;
        }
        if out.t == "panic" && !(op.o == "bp" || op.o == "cp" || op.o == "sf" || op.o == "st") {
            let pm = LAST_PANIC.with(|l| l.borrow().clone());
            cx.bad(F::NAME, T::NAME, "panic", &op.o, kind, &pm, &ops_str(&ops));
            bad = true;
        }
        if bad {
            clean = false;
            break;
        }
    }
    finish(cx, &mut m, clean, &ops);
    format!("{{\"fam\":\"{}\",\"ty\":\"{}\",\"n\":{},\"clean\":{},\"st\":[{}]}}", F::NAME, T::NAME, nslots, clean, steps.join(","))
}
