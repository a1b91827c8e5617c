//! Explores the interleavings of small programs over the real ArcSlice code, which is compiled
//! against shim_core / shim_alloc, and records the distinct histories.
#![allow(static_mut_refs, dead_code)]
extern crate rc_slice;
#[path = "../seq/src/track.rs"]
mod track;
mod prog;
mod rt;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str, d: u64| get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    rt::init();
    track::init();
    prog::run_all(
        &get("--file").expect("--file"),
        num("--shard", 0) as usize,
        num("--of", 1) as usize,
        get("--only"),
        get("--out"),
        num("--preempt", 2) as u32,
        num("--stale", 1) as u32,
        num("--max", 3000) as usize,
        num("--random", 100) as usize,
        num("--seed", 1),
        get("--trail"),
    );
}
