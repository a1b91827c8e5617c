use crate::{drive, huge};
use crate::fam::*;
use crate::json::J;
use crate::mach::*;
use crate::track::*;
use crate::unwind;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub struct Ctx {
    pub mism: BTreeMap<(String, String, String, String, String), u64>,
    pub shown: usize,
    pub tests: u64,
    pub ops: u64,
    pub abandoned: u64,
    pub panics_expected: u64,
    pub prog: Option<std::fs::File>,
    pub lineno: u64,
}

pub fn esc(s: &str) -> String {
    s.chars().filter(|c| *c >= ' ').map(|c| if c == '"' || c == '\\' { '\'' } else { c }).collect()
}

impl Ctx {
    pub fn new() -> Self {
        let prog = std::env::var("PROGRESS").ok().map(|p| std::fs::File::create(p).unwrap());
        Ctx { mism: BTreeMap::new(), shown: 0, tests: 0, ops: 0, abandoned: 0, panics_expected: 0, prog, lineno: 0 }
    }
    pub fn mark(&mut self, what: &str) {
        if let Some(f) = &self.prog {
            use std::os::unix::fs::FileExt;
            let s = format!("{:<70}\n", what);
            let _ = f.write_at(s.as_bytes(), 0);
        }
    }
    pub fn bad(&mut self, fam: &str, ty: &str, cls: &str, op: &str, kind: &str, detail: &str, ops: &str) {
        let key = (fam.to_string(), ty.to_string(), cls.to_string(), op.to_string(), kind.to_string());
        let n = self.mism.entry(key).or_insert(0);
        *n += 1;
        if *n <= 25 && self.shown < 4000 {
            self.shown += 1;
            println!(
                "{{\"line\":{},\"fam\":\"{}\",\"ty\":\"{}\",\"cls\":\"{}\",\"op\":\"{}\",\"kind\":\"{}\",\"detail\":\"{}\",\"ops\":\"{}\"}}",
                self.lineno, fam, ty, cls, op, kind, esc(detail), esc(ops)
            );
        }
    }
    pub fn summary(&self) {
        let tot: u64 = self.mism.values().sum();
        println!(
            "{{\"summary\":true,\"tests\":{},\"ops\":{},\"abandoned\":{},\"mismatches\":{},\"bypanic\":{}}}",
            self.tests, self.ops, self.abandoned, tot, self.panics_expected
        );
    }
}

pub fn ops_str(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{}({},{})", o.o, o.s, o.a)).collect::<Vec<_>>().join(" ")
}

fn jruns(j: &J) -> Vec<(u32, u32)> {
    j.a().iter().map(|r| (r.a()[0].n() as u32, r.a()[1].n() as u32)).collect()
}

pub struct PStep {
    pub op: Op,
    pub t: String,
    pub v: Vec<i64>,
    pub dc: bool,
    pub ex: Option<(Vec<(u32, u32)>, Vec<(String, Vec<(u32, u32)>, i64)>, Vec<String>)>,
}

pub fn parse_ob(d: &J, ob: &J) -> (Vec<(u32, u32)>, Vec<(String, Vec<(u32, u32)>, i64)>, Vec<String>) {
    (
        jruns(d),
        ob.get("h").a().iter().map(|h| (h.get("k").s().to_string(), jruns(h.get("c")), h.get("y").n())).collect(),
        ob.get("b").a().iter().map(|b| b.s().to_string()).collect(),
    )
}

/// {"p":[[o,s,a,t,v] or [o,s,a,t,v,dc,d,ob]...],"dc":..,"d":..,"ob":..}
pub fn parse_test(j: &J) -> Vec<PStep> {
    let p = j.get("p").a();
    let n = p.len();
    p.iter()
        .enumerate()
        .map(|(i, x)| {
            let x = x.a();
            let mut st = PStep {
                op: Op { o: x[0].s().to_string(), s: x[1].n() as usize, a: x[2].n() },
                t: x[3].s().to_string(),
                v: x[4].a().iter().map(|y| y.n()).collect(),
                dc: true,
                ex: None,
            };
            if x.len() > 5 {
                st.dc = x[5].b();
                st.ex = Some(parse_ob(&x[6], &x[7]));
            } else if i == n - 1 {
                st.dc = j.get("dc").b();
                st.ex = Some(parse_ob(j.get("d"), j.get("ob")));
            }
            st
        })
        .collect()
}

pub fn zsum(r: &[(u32, u32)]) -> i64 {
    r.iter().map(|x| x.1 as i64).sum()
}

fn flush_errs(cx: &mut Ctx, fam: &str, ty: &str, op: &str, kind: &str, ops: &str) -> bool {
    let n = g().nerr;
    for i in 0..n.min(16) {
        let (e, v) = g().errs[i];
        cx.bad(fam, ty, e, op, kind, &format!("{} ({})", e, v), ops);
    }
    g().nerr = 0;
    n > 0
}

pub fn replay<F: Fam, T: Item>(cx: &mut Ctx, steps: &[PStep], nslots: usize, var: usize) {
    cx.tests += 1;
    let mut m: Mach<F, T> = Mach::new(nslots, var);
    reset_world(0);
    let ops: Vec<Op> = steps.iter().map(|s| s.op.clone()).collect();
    let mut clean = true;
    for (i, st) in steps.iter().enumerate() {
        if T::TOP - m.nid < 40 + st.op.a.max(0) as u32 {
            cx.abandoned += 1;
            break;
        }
        cx.ops += 1;
        let s0 = st.op.s.wrapping_sub(1);
        let kind = if st.op.s > 0 { m.hs[s0].k() } else { "-" };
        let shown0 = if st.op.s > 0 { m.hs[s0].slice().map(|s| s.len()).unwrap_or(0) } else { 0 };
        let _ = shown0;
        let out = m.exec(&st.op);
        let path = ops_str(&ops[..=i]);
        let opn = st.op.o.as_str();
        let same_v = out.v == st.v || (T::ZST && st.t == "item");
        if out.t != st.t || !same_v {
            if st.ex.is_some() && !st.dc {
                let pm = if out.t == "panic" { LAST_PANIC.with(|l| l.borrow().clone()) } else { String::new() };
                let cls = if out.t == "panic" { "panic" } else if st.t == "panic" { "nopanic" } else { "res" };
                cx.bad(F::NAME, T::NAME, cls, opn, kind, &format!("expected {}{:?} got {}{:?} {}", st.t, st.v, out.t, out.v, pm), &path);
            } else {
                cx.abandoned += 1;
            }
            clean = false;
            if flush_errs(cx, F::NAME, T::NAME, opn, kind, &path) { }
            break;
        }
        if st.t == "panic" {
            cx.panics_expected += 1;
        }
        let notes = std::mem::take(&mut m.notes);
        if flush_errs(cx, F::NAME, T::NAME, opn, kind, &path) {
            clean = false;
            break;
        }
        if let Some((d, hs, bs)) = &st.ex {
            for (c, s) in &notes {
                cx.bad(F::NAME, T::NAME, c, opn, kind, s, &path);
                clean = false;
            }
            if T::ZST {
                if T::DROPS {
                    let moved = if st.t == "item" { 0 } else { 0 };
                    if out.zd != zsum(d) + moved {
                        cx.bad(F::NAME, T::NAME, "d", opn, kind, &format!("expected {} destroyed got {}", zsum(d), out.zd), &path);
                        clean = false;
                    }
                }
            } else if T::DROPS && out.d != *d {
                cx.bad(F::NAME, T::NAME, "d", opn, kind, &format!("expected destroyed {:?} got {:?}", d, out.d), &path);
                clean = false;
            }
            let ob = m.obs();
            for (j, (k, c, y)) in hs.iter().enumerate() {
                if ob[j].k != k {
                    cx.bad(F::NAME, T::NAME, "kind", opn, k, &format!("slot {} is {} expected {}", j + 1, ob[j].k, k), &path);
                    clean = false;
                    continue;
                }
                let okc = if T::ZST { zsum(&ob[j].c) == zsum(c) } else { ob[j].c == *c };
                if !okc {
                    cx.bad(F::NAME, T::NAME, "c", opn, k, &format!("slot {} shows {:?} expected {:?}", j + 1, ob[j].c, c), &path);
                    clean = false;
                }
                if ob[j].y != *y {
                    cx.bad(F::NAME, T::NAME, "y", opn, k, &format!("slot {} yielded {} expected {}", j + 1, ob[j].y, y), &path);
                    clean = false;
                }
            }
            for (c, s) in std::mem::take(&mut m.notes) {
                cx.bad(F::NAME, T::NAME, c, opn, kind, &s, &path);
                clean = false;
            }
            if flush_errs(cx, F::NAME, T::NAME, opn, kind, &path) {
                clean = false;
            }
            for (j, (e, a)) in bs.iter().zip(m.buf_state()).enumerate() {
                if e == "L" && a == "F" {
                    cx.bad(F::NAME, T::NAME, "buf-early", opn, kind, &format!("buffer {} freed while in use", j + 1), &path);
                    clean = false;
                }
                if e == "F" && a == "L" {
                    cx.bad(F::NAME, T::NAME, "buf-late", opn, kind, &format!("buffer {} not freed", j + 1), &path);
                    clean = false;
                }
            }
        }
        if !clean {
            break;
        }
    }
    finish(cx, &mut m, clean, &ops);
}

/// Drop all that is left; everything must then be destroyed once and freed.
pub fn finish<F: Fam, T: Item>(cx: &mut Ctx, m: &mut Mach<F, T>, clean: bool, ops: &[Op]) {
    if !clean {
        // the state is not what it should be: do not run more library code on it
        for h in m.hs.iter_mut() {
            std::mem::forget(std::mem::replace(h, Hd::None));
        }
        reset_world(m.nid);
        flush_quarantine();
        return;
    }
    let path = ops_str(ops);
    let n = m.hs.len();
    for i in 0..n {
        // vary the order in which handles go away
        let s = (i * 3 + m.var) % n;
        let s = if n % 3 == 0 { i } else { s };
        if !m.drop_slot(s) {
            cx.bad(F::NAME, T::NAME, "panic", "end", "-", &LAST_PANIC.with(|l| l.borrow().clone()), &path);
        }
    }
    m.hs.iter_mut().for_each(|h| assert!(matches!(h, Hd::None)));
    flush_errs(cx, F::NAME, T::NAME, "end", "-", &path);
    if T::DROPS {
        if T::ZST {
            if reg().zmade != reg().zdrop {
                cx.bad(F::NAME, T::NAME, "end-d", "end", "-", &format!("{} made {} destroyed", reg().zmade, reg().zdrop), &path);
            }
        } else if let Some(i) = (1..m.nid as usize).find(|&i| reg().state[i] == 1) {
            cx.bad(F::NAME, T::NAME, "end-d", "end", "-", &format!("item {} never destroyed", i), &path);
        }
    }
    if g().lib_blocks != 0 {
        cx.bad(F::NAME, T::NAME, "leak", "end", "-", &format!("{} blocks ({} bytes) not freed", g().lib_blocks, g().lib_bytes), &path);
    }
    for (j, a) in m.buf_state().iter().enumerate() {
        if *a == "L" {
            cx.bad(F::NAME, T::NAME, "buf-late", "end", "-", &format!("buffer {} never freed", j + 1), &path);
        }
    }
    let nid = m.nid;
    reset_world(nid);
    flush_quarantine();
}

/// {"pre":[[o,s,a]],"cyc":[[o,s,a]]}: memory must not grow over repetitions
pub fn cycle<F: Fam, T: Item>(cx: &mut Ctx, pre: &[Op], cyc: &[Op], nslots: usize, var: usize) {
    cx.tests += 1;
    let mut m: Mach<F, T> = Mach::new(nslots, var);
    reset_world(0);
    let mut res: Vec<(&'static str, Vec<i64>)> = vec![];
    let all = format!("{} then repeat: {}", ops_str(pre), ops_str(cyc));
    for o in pre {
        cx.ops += 1;
        m.exec(o);
    }
    let mut base = (0i64, 0i64);
    let mut clean = true;
    const K: usize = 24;
    'l: for k in 0..K {
        for (i, o) in cyc.iter().enumerate() {
            cx.ops += 1;
            if o.s > 0 && matches!(m.hs[o.s - 1], Hd::None) {
                clean = false;
                break 'l;
            }
            let out = m.exec(o);
            if out.t == "panic" && o.o != "bp" && o.o != "cp" && !((o.o == "sf" || o.o == "st")) {
                clean = false;
                break 'l;
            }
            let v = if out.t == "item" { vec![] } else { out.v.clone() };
            if k == 0 {
                res.push((out.t, v));
            } else if res[i] != (out.t, v) {
                clean = false;
                break 'l;
            }
        }
        if k == 3 {
            base = (g().lib_blocks, g().lib_bytes);
        }
        flush_quarantine();
    }
    if !clean {
        cx.abandoned += 1;
        for h in m.hs.iter_mut() {
            std::mem::forget(std::mem::replace(h, Hd::None));
        }
        reset_world(m.nid);
        flush_quarantine();
        return;
    }
    let now = (g().lib_blocks, g().lib_bytes);
    if now.0 > base.0 || now.1 > base.1 {
        cx.bad(F::NAME, T::NAME, "grow", cyc.last().map(|o| o.o.as_str()).unwrap_or("-"), "-",
            &format!("library memory grew from {:?} to {:?} (blocks, bytes) over {} repetitions", base, now, K - 4), &all);
    }
    finish(cx, &mut m, true, pre);
}

macro_rules! dispatch {
    ($fam:expr, $ty:expr, $f:ident, $($a:expr),*) => {
        match ($fam, $ty) {
            ("rc", "t8") => $f::<RcF, T8>($($a),*),
            ("rc", "big") => $f::<RcF, Big>($($a),*),
            ("rc", "odd") => $f::<RcF, Odd>($($a),*),
            ("rc", "zst") => $f::<RcF, Z1>($($a),*),
            ("rc", "zst32") => $f::<RcF, Z32>($($a),*),
            ("rc", "byte") => $f::<RcF, Byte>($($a),*),
            ("rc", "plain") => $f::<RcF, Plain>($($a),*),
            ("rc", "zplain") => $f::<RcF, ZPlain>($($a),*),
            ("arc", "t8") => $f::<ArcF, T8>($($a),*),
            ("arc", "big") => $f::<ArcF, Big>($($a),*),
            ("arc", "odd") => $f::<ArcF, Odd>($($a),*),
            ("arc", "zst") => $f::<ArcF, Z1>($($a),*),
            ("arc", "zst32") => $f::<ArcF, Z32>($($a),*),
            ("arc", "byte") => $f::<ArcF, Byte>($($a),*),
            ("arc", "plain") => $f::<ArcF, Plain>($($a),*),
            ("arc", "zplain") => $f::<ArcF, ZPlain>($($a),*),
            x => panic!("no instance {:?}", x),
        }
    };
}

pub fn arg<'a>(a: &'a [String], k: &str, d: &'a str) -> &'a str {
    a.iter().position(|x| x == k).map(|i| a[i + 1].as_str()).unwrap_or(d)
}

fn jops(j: &J) -> Vec<Op> {
    j.a().iter().map(|x| Op { o: x.a()[0].s().to_string(), s: x.a()[1].n() as usize, a: x.a()[2].n() }).collect()
}

pub fn main(args: &[String]) {
    let mode = args[0].as_str();
    let fams: Vec<&str> = arg(args, "--fams", "rc,arc").split(',').collect();
    let types: Vec<&str> = arg(args, "--types", "t8").split(',').collect();
    let nslots: usize = arg(args, "--slots", "4").parse().unwrap();
    let mut cx = Ctx::new();
    match mode {
        "replay" | "cycle" => {
            // lines: {"p":...} or TLC's "T {...}" ; shard i of n
            let shard: u64 = arg(args, "--shard", "0").parse().unwrap();
            let of: u64 = arg(args, "--of", "1").parse().unwrap();
            let only: i64 = arg(args, "--only", "-1").parse().unwrap();
            let f = std::io::BufReader::new(std::fs::File::open(arg(args, "--file", "")).unwrap());
            for (i, l) in f.lines().enumerate() {
                let i = i as u64;
                let l = l.unwrap();
                if (only < 0 && i % of != shard) || (only >= 0 && i as i64 != only) {
                    continue;
                }
                let body = if let Some(b) = l.strip_prefix("\"T ") {
                    b[..b.len() - 1].replace("\\\"", "\"")
                } else if l.starts_with('{') {
                    l.clone()
                } else {
                    continue;
                };
                let j = J::parse(&body);
                cx.lineno = i;
                if mode == "replay" {
                    let steps = parse_test(&j);
                    for f in &fams {
                        for t in &types {
                            cx.mark(&format!("{} {} {} {}", mode, i, f, t));
                            dispatch!(*f, *t, replay, &mut cx, &steps, nslots, i as usize);
                        }
                    }
                } else {
                    let (pre, cyc) = (jops(j.get("pre")), jops(j.get("cyc")));
                    for f in &fams {
                        for t in &types {
                            cx.mark(&format!("{} {} {} {}", mode, i, f, t));
                            dispatch!(*f, *t, cycle, &mut cx, &pre, &cyc, nslots, i as usize);
                        }
                    }
                }
            }
            cx.summary();
        }
        "unwind" => {
            // the same lines, but destructors and clones of items panic and call back
            let shard: u64 = arg(args, "--shard", "0").parse().unwrap();
            let of: u64 = arg(args, "--of", "1").parse().unwrap();
            let keep: u64 = arg(args, "--keep", "1").parse().unwrap();
            let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
            let only: i64 = arg(args, "--only", "-1").parse().unwrap();
            let mut w = std::io::BufWriter::new(std::fs::File::create(arg(args, "--out", "/dev/null")).unwrap());
            let mut seen = std::collections::HashSet::new();
            let f = std::io::BufReader::new(std::fs::File::open(arg(args, "--file", "")).unwrap());
            for (i, l) in f.lines().enumerate() {
                let i = i as u64;
                let l = l.unwrap();
                if (only < 0 && i % of != shard) || (only >= 0 && i as i64 != only) {
                    continue;
                }
                let b = match l.strip_prefix("\"T ") {
                    Some(b) if only >= 0 || unwind::mix(seed, i) % keep == 0 => b,
                    _ => continue,
                };
                let steps = parse_test(&J::parse(&b[..b.len() - 1].replace("\\\"", "\"")));
                if !unwind::wanted(&steps) {
                    continue;
                }
                cx.lineno = i;
                for f in &fams {
                    for t in &types {
                        cx.mark(&format!("{} {} {} {}", mode, i, f, t));
                        dispatch!(*f, *t, unwind_one, &mut cx, &steps, nslots, unwind::mix(seed, i), &mut seen, &mut w);
                    }
                }
            }
            w.flush().unwrap();
            cx.summary();
        }
        "drive" => {
            let mut w = std::io::BufWriter::new(std::fs::File::create(arg(args, "--out", "/dev/null")).unwrap());
            let n: u64 = arg(args, "--traces", "10").parse().unwrap();
            let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
            let nops: usize = arg(args, "--ops", "60").parse().unwrap();
            let prof = drive::Profile::parse(arg(args, "--weights", ""), arg(args, "--lens", "1,2,3"), arg(args, "--lgs", "0,1,2"));
            for i in 0..n {
                for f in &fams {
                    for t in &types {
                        cx.lineno = i;
                        cx.mark(&format!("drive {} {} {}", i, f, t));
                        let line = dispatch!(*f, *t, drive_one, &mut cx, &prof, nslots, nops, seed.wrapping_mul(1000003).wrapping_add(i));
                        writeln!(w, "{}", line).unwrap();
                    }
                }
            }
            w.flush().unwrap();
            cx.summary();
        }
        "huge" => {
            let mut w = std::io::BufWriter::new(std::fs::File::create(arg(args, "--out", "/dev/null")).unwrap());
            let n: u64 = arg(args, "--traces", "10").parse().unwrap();
            let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
            let nops: usize = arg(args, "--ops", "60").parse().unwrap();
            let prof = drive::Profile::parse(arg(args, "--weights", ""), "1", "0");
            for i in 0..n {
                cx.lineno = i;
                let s = seed.wrapping_mul(1000003).wrapping_add(i);
                cx.mark(&format!("huge {} rc zplain", i));
                writeln!(w, "{}", huge::run::<RcF, ()>(&mut cx, "unit", &prof.w, nslots, nops, s)).unwrap();
                writeln!(w, "{}", huge::run::<RcF, [u64; 0]>(&mut cx, "zarr", &prof.w, nslots, nops, s ^ 77)).unwrap();
                cx.mark(&format!("huge {} arc zplain", i));
                writeln!(w, "{}", huge::run::<ArcF, ()>(&mut cx, "unit", &prof.w, nslots, nops, s ^ 7)).unwrap();
                writeln!(w, "{}", huge::run::<ArcF, [u64; 0]>(&mut cx, "zarr", &prof.w, nslots, nops, s ^ 777)).unwrap();
            }
            w.flush().unwrap();
            cx.summary();
        }
        m => panic!("mode {}", m),
    }
    std::io::stdout().flush().unwrap();
}

fn drive_one<F: Fam, T: Item>(cx: &mut Ctx, p: &drive::Profile, nslots: usize, nops: usize, seed: u64) -> String {
    drive::run::<F, T>(cx, p, nslots, nops, seed)
}

fn unwind_one<F: Fam, T: Item>(cx: &mut Ctx, steps: &[PStep], nslots: usize, seed: u64, seen: &mut std::collections::HashSet<u64>, w: &mut dyn Write) {
    unwind::run::<F, T>(cx, steps, nslots, seed, seen, w)
}
