//! Deterministic simulation of the httlib-rs codecs. See /verif/DESIGN.md.

#[macro_use]
mod core;
mod gen;
mod props;
mod refm;
mod world;

use crate::core::runner::{self, Args, Prop};
use std::path::PathBuf;

#[global_allocator]
static A: crate::core::alloc::Counting = crate::core::alloc::Counting;

fn find(id: &str) -> &'static Prop {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

/// Runs execute on a thread with a stack of one megabyte, so that recursion
/// that grows with the input shows.
fn small_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    match std::thread::Builder::new().stack_size(1 << 20).spawn(f).map(|h| h.join()) { Ok(Ok(c)) => c, _ => 2 }
}

fn main() {
    crate::core::ctx::install_panic_hook();
    if let Err(e) = crate::core::seam::selftest() { eprintln!("HARNESS ERROR: {}", e); std::process::exit(2) }
    let v: Vec<String> = std::env::args().skip(1).collect();
    let cmd = v.first().cloned().unwrap_or_default();
    let a = Args::parse(&v);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let env_n = |k: &str, d: u64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let cores = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16);
    let code = match cmd.as_str() {
        "check" => {
            let tier = a.m.get("tier").cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let seed = a.m.get("seed").and_then(|x| x.parse().ok()).unwrap_or_else(|| env_n("VERIF_SEED", 1));
            runner::check(find(&a.s("prop")), &root, seed, &tier, a.m.get("runs").and_then(|x| x.parse().ok()), a.opt("workers", cores))
        }
        "worker" => small_stack(move || runner::worker(find(&a.s("prop")), &a)),
        "exec" => small_stack(move || runner::exec(find(&a.s("prop")), &a)),
        "shrink" => runner::shrink(find(&a.s("prop")), &a),
        "replay" => {
            let path = PathBuf::from(v.get(1).cloned().unwrap_or_default());
            match runner::Replay::load(&path) {
                Some(r) => runner::replay(find(&r.prop), &path),
                None => { eprintln!("cannot read replay file {}", path.display()); 2 }
            }
        }
        "determinism" => determinism(&a, cores),
        "list" => { for p in props::ALL { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: sim check prop=C01 [seed=N] [tier=quick] [runs=N] | replay FILE | determinism [props=..] [seeds=N] [runs=N]"); 2 }
    };
    std::process::exit(code);
}

/// Every run of many seeds twice, in different processes and at different
/// worker counts; the event-log hashes must agree run by run.
fn determinism(a: &Args, cores: u64) -> i32 {
    let runs = a.opt("runs", 300);
    let seeds = a.opt("seeds", 10);
    let mut bad = 0;
    for p in props::ALL {
        if let Some(l) = a.m.get("props") { if !l.split(',').any(|x| x == p.id) { continue; } }
        let (mut total, mut diff) = (0, 0);
        for s in 0..seeds {
            let seed = 1000 + s;
            let x = runner::batch(p, seed, "quick", runs, cores, 600_000, true);
            let y = runner::batch(p, seed, "quick", runs, 1 + s % 3, 600_000, true);
            total += x.hashes.len().max(y.hashes.len());
            diff += x.hashes.iter().zip(y.hashes.iter()).filter(|(a, b)| a != b).count() + x.hashes.len().abs_diff(y.hashes.len());
            if x.viol.is_some() != y.viol.is_some() { diff += 1; }
        }
        println!("{}: {} runs executed twice over {} seeds, {} differences", p.id, total, seeds, diff);
        bad += diff;
    }
    if bad == 0 { 0 } else { 1 }
}
