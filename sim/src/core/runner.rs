//! Batches of runs over worker processes, violation handling and evidence.

use super::ctx::{Ctx, Fail, R};
use super::json::quote;
use super::shrink::{budget, Outcome, Shrinker};
use super::src::{fnv, mix, Src};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// Counters that a full batch must have moved; listed when stuck at zero.
    pub expect: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub states: &'static str,
    pub assumptions: &'static [&'static str],
}

use super::seam::clock_gettime;
extern "C" {
    fn _exit(code: i32) -> !;
}

pub fn cpu_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed, fnv(prop.as_bytes())), idx)
}

pub enum Verdict { Held, Violated(Fail), Harness(String) }

pub fn run_one(p: &Prop, src: Src, tracing: bool) -> (Verdict, Ctx) {
    let mut ctx = Ctx::new(src, tracing);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
    super::alloc::set_hook(None);
    ctx.src.close_all();
    let v = match r {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(f)) => Verdict::Violated(f),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Verdict::Harness(m)
        }
    };
    (v, ctx)
}

// ---------------------------------------------------------------- watchdog

static RUN_START_CPU: AtomicU64 = AtomicU64::new(u64::MAX);
static RUN_START_WALL: AtomicU64 = AtomicU64::new(0);
static ELSEWHERE: AtomicBool = AtomicBool::new(false);
pub const EXIT_HANG: i32 = 9;

/// Whether this process waits for one it started, which is watched by itself.
pub fn elsewhere(on: bool) { ELSEWHERE.store(on, Ordering::Relaxed); }

/// Kills this process when one run burns too much CPU or blocks for good: when
/// it gets next to no CPU done over 300 wake-ups of this thread.
pub fn watchdog(cpu_limit_ms: u64, wall_limit_ms: u64) {
    let t0 = Instant::now();
    let (mut idle, mut idle_from, mut idle_run) = (0, 0, u64::MAX);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let s = RUN_START_CPU.load(Ordering::Relaxed);
        if s == u64::MAX || ELSEWHERE.load(Ordering::Relaxed) { idle_run = u64::MAX; RUN_START_WALL.store(0, Ordering::Relaxed); continue; }
        let cpu = cpu_ms();
        if idle_run != s || cpu > idle_from + 100 { idle = 0; idle_from = cpu; idle_run = s; } else { idle += 1; }
        if idle > 300 { unsafe { _exit(EXIT_HANG) } }
        let now = t0.elapsed().as_millis() as u64;
        let w = RUN_START_WALL.load(Ordering::Relaxed);
        let w = if w == 0 { RUN_START_WALL.store(now + 1, Ordering::Relaxed); now + 1 } else { w };
        if cpu_ms().saturating_sub(s) > cpu_limit_ms || now.saturating_sub(w) > wall_limit_ms {
            unsafe { _exit(EXIT_HANG) }
        }
    });
}
pub fn run_begins() {
    RUN_START_WALL.store(0, Ordering::Relaxed);
    RUN_START_CPU.store(cpu_ms(), Ordering::Relaxed);
}
pub fn run_ends() { RUN_START_CPU.store(u64::MAX, Ordering::Relaxed); }

// ------------------------------------------------------------------ worker

pub struct Args { pub m: BTreeMap<String, String> }
impl Args {
    pub fn parse(v: &[String]) -> Args {
        let mut m = BTreeMap::new();
        for a in v {
            if let Some((k, x)) = a.split_once('=') { m.insert(k.to_string(), x.to_string()); }
        }
        Args { m }
    }
    pub fn s(&self, k: &str) -> String { self.m.get(k).cloned().unwrap_or_else(|| panic!("missing {}=", k)) }
    pub fn n(&self, k: &str) -> u64 { self.s(k).parse().unwrap_or_else(|_| panic!("bad {}=", k)) }
    pub fn opt(&self, k: &str, d: u64) -> u64 { self.m.get(k).map(|x| x.parse().expect("number")).unwrap_or(d) }
}

/// Runs indices start, start+stride, ... below count.
pub fn worker(p: &Prop, a: &Args) -> i32 {
    let (seed, start, stride, count) = (a.n("seed"), a.n("start"), a.n("stride"), a.n("count"));
    let dir = PathBuf::from(a.s("dir"));
    let wid = a.n("wid");
    let wall = Duration::from_millis(a.n("wall"));
    let cur = fs::File::create(dir.join(format!("cur.{}", wid))).expect("cur file");
    let stop = dir.join("stop");
    watchdog(a.opt("cpu", 20_000), 240_000);
    let t0 = Instant::now();
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: Vec<(u64, u64, u8)> = Vec::new();
    let mut states: HashSet<u64> = HashSet::new();
    let (mut done, mut sim_time, mut sut_calls, mut steps) = (0u64, 0u64, 0u64, 0u64);
    let mut viol: Option<(u64, Fail, Vec<u64>, Vec<(u32, u32)>)> = None;
    let mut idx = start;
    let mut harness = None;
    let mut slow = (0u64, 0u64);
    let mut truncated = 0;
    while idx < count {
        if done % 16 == 0 {
            if t0.elapsed() > wall { truncated = 1; break; }
            if let Ok(s) = fs::read_to_string(&stop) {
                if s.trim().parse::<u64>().map(|v| v < idx).unwrap_or(false) { break; }
            }
        }
        let _ = cur.write_at(&(idx + 1).to_le_bytes(), 0);
        run_begins();
        let c0 = cpu_ms();
        let (v, ctx) = run_one(p, Src::seeded(run_seed(seed, p.id, idx)), false);
        slow = slow.max((cpu_ms().saturating_sub(c0), idx));
        run_ends();
        done += 1;
        for (k, n) in ctx.stats() { *stats.entry(k).or_insert(0) += n; }
        if states.len() < 2_000_000 { states.extend(ctx.states.iter().copied()); }
        sim_time += ctx.now;
        if ctx.pace > 1 { *stats.entry("fault:clock_runs_fast").or_insert(0) += 1; }
        if ctx.skewed { *stats.entry("fault:wall_clock_jumps").or_insert(0) += 1; }
        sut_calls += ctx.sut_calls;
        steps += ctx.steps;
        hashes.push((idx, ctx.log_hash(), ctx.nontrivial as u8));
        match v {
            Verdict::Held => {}
            Verdict::Violated(f) => {
                viol = Some((idx, f, ctx.src.rec.clone(), ctx.src.spans.clone()));
                let _ = fs::write(&stop, format!("{}", idx));
                break;
            }
            Verdict::Harness(m) => { harness = Some((idx, m)); break; }
        }
        idx += stride;
    }
    let _ = cur.write_at(&0u64.to_le_bytes(), 0);
    let mut out = String::new();
    let (clocks, randoms) = super::seam::reads();
    stats.insert("probe:clock_reads_by_code_under_test", clocks);
    stats.insert("probe:random_seeds_served", randoms);
    for (k, v) in &stats { out.push_str(&format!("STAT {} {}\n", k, v)); }
    out.push_str(&format!("DONE {} {} {} {} {}\n", done, sim_time, sut_calls, steps, truncated));
    out.push_str(&format!("SLOW {} {}\n", slow.0, slow.1));
    if let Some((i, f, rec, _)) = &viol {
        out.push_str(&format!("VIOL {} {} {}\n", i, f.class, f.msg.replace('\n', " ")));
        let c: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
        out.push_str(&format!("CHOICES {}\n", c.join(" ")));
    }
    if let Some((i, m)) = &harness { out.push_str(&format!("HARNESS {} {}\n", i, m.replace('\n', " "))); }
    let mut hb = Vec::with_capacity(hashes.len() * 17);
    for (i, h, n) in &hashes {
        hb.extend_from_slice(&i.to_le_bytes());
        hb.extend_from_slice(&h.to_le_bytes());
        hb.push(*n);
    }
    let _ = fs::write(dir.join(format!("hash.{}", wid)), hb);
    let mut sb = Vec::with_capacity(states.len() * 8);
    for s in &states { sb.extend_from_slice(&s.to_le_bytes()); }
    let _ = fs::write(dir.join(format!("state.{}", wid)), sb);
    fs::write(dir.join(format!("res.{}", wid)), out).expect("result file");
    0
}

// ------------------------------------------------------------------- batch

#[derive(Default)]
pub struct Batch {
    pub done: u64,
    pub sim_time: u64,
    pub sut_calls: u64,
    pub steps: u64,
    pub truncated: bool,
    pub stats: BTreeMap<String, u64>,
    pub hashes: Vec<(u64, u64, u8)>,
    pub states: HashSet<u64>,
    /// index, class, message, choices (None when the run died)
    pub viol: Option<(u64, String, String, Option<Vec<u64>>)>,
    pub harness: Option<String>,
    pub wall: f64,
    /// CPU milliseconds and index of the slowest run
    pub slow: (u64, u64),
}

pub fn scratch(name: &str) -> PathBuf {
    let base = std::env::current_exe().ok().and_then(|e| e.parent().map(|p| p.to_path_buf())).unwrap_or_else(std::env::temp_dir);
    let d = base.join(format!("scratch-{}-{}", name, std::process::id()));
    fs::create_dir_all(&d).expect("scratch dir");
    d
}

fn wait_status(c: &mut std::process::Child) -> (Option<i32>, Option<i32>) {
    match c.wait() { Ok(s) => (s.code(), s.signal()), Err(_) => (None, None) }
}

pub fn batch(p: &Prop, seed: u64, tier: &str, count: u64, workers: u64, wall_ms: u64, log: bool) -> Batch {
    batch_cpu(p, seed, tier, count, workers, wall_ms, log, 20_000)
}

#[allow(clippy::too_many_arguments)]
pub fn batch_cpu(p: &Prop, seed: u64, tier: &str, count: u64, workers: u64, wall_ms: u64, log: bool, cpu: u64) -> Batch {
    let t0 = Instant::now();
    let dir = scratch(p.id);
    let exe = std::env::current_exe().expect("own path");
    let mut kids = vec![];
    for w in 0..workers {
        let c = Command::new(&exe)
            .arg("worker").arg(format!("prop={}", p.id)).arg(format!("seed={}", seed)).arg(format!("tier={}", tier))
            .arg(format!("start={}", w)).arg(format!("stride={}", workers)).arg(format!("count={}", count))
            .arg(format!("dir={}", dir.display())).arg(format!("wid={}", w)).arg(format!("wall={}", wall_ms)).arg(format!("cpu={}", cpu))
            .stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("spawn worker");
        kids.push(c);
    }
    let mut b = Batch::default();
    let mut errs = String::new();
    for (w, c) in kids.iter_mut().enumerate() {
        let mut e = String::new();
        if let Some(mut s) = c.stderr.take() {
            let mut v = vec![];
            let _ = s.read_to_end(&mut v);
            e = String::from_utf8_lossy(&v).to_string();
        }
        let (code, sig) = wait_status(c);
        let died_at = fs::read(dir.join(format!("cur.{}", w))).ok().filter(|x| x.len() >= 8)
            .map(|x| u64::from_le_bytes(x[..8].try_into().unwrap())).unwrap_or(0);
        if code != Some(0) {
            let (class, msg) = if code == Some(EXIT_HANG) { ("hang", "the run did not end".to_string()) }
                else { ("abort", format!("the process died (code {:?}, signal {:?}): {}", code, sig, e.lines().next().unwrap_or(""))) };
            if died_at == 0 {
                b.harness = Some(format!("worker {} failed: {} {}", w, msg, e));
            } else {
                let idx = died_at - 1;
                let _ = fs::write(dir.join("stop"), format!("{}", idx));
                if b.viol.as_ref().map(|v| idx < v.0).unwrap_or(true) {
                    b.viol = Some((idx, class.to_string(), msg, None));
                }
            }
            continue;
        }
        errs.push_str(&e);
        let res = fs::read_to_string(dir.join(format!("res.{}", w))).unwrap_or_default();
        let mut viol: Option<(u64, String, String)> = None;
        let mut choices = None;
        for l in res.lines() {
            let f: Vec<&str> = l.splitn(4, ' ').collect();
            match f[0] {
                "STAT" => *b.stats.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "DONE" => {
                    let n: Vec<u64> = l.split(' ').skip(1).map(|x| x.parse().unwrap_or(0)).collect();
                    b.done += n[0]; b.sim_time += n[1]; b.sut_calls += n[2]; b.steps += n[3];
                    b.truncated |= n[4] != 0;
                }
                "VIOL" => viol = Some((f[1].parse().unwrap_or(0), f[2].to_string(), f.get(3).unwrap_or(&"").to_string())),
                "CHOICES" => choices = Some(l[8..].split_whitespace().map(|x| x.parse().unwrap_or(0)).collect::<Vec<u64>>()),
                "SLOW" => b.slow = b.slow.max((f[1].parse().unwrap_or(0), f[2].parse().unwrap_or(0))),
                "HARNESS" => b.harness = Some(l.to_string()),
                _ => {}
            }
        }
        if let Some((i, c, m)) = viol {
            if b.viol.as_ref().map(|v| i < v.0).unwrap_or(true) { b.viol = Some((i, c, m, choices)); }
        }
        let hb = fs::read(dir.join(format!("hash.{}", w))).unwrap_or_default();
        for c in hb.chunks_exact(17) {
            b.hashes.push((u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..16].try_into().unwrap()), c[16]));
        }
        let sb = fs::read(dir.join(format!("state.{}", w))).unwrap_or_default();
        for c in sb.chunks_exact(8) { b.states.insert(u64::from_le_bytes(c.try_into().unwrap())); }
    }
    b.hashes.sort();
    b.wall = t0.elapsed().as_secs_f64();
    if log && !errs.is_empty() { eprint!("{}", errs); }
    let _ = fs::remove_dir_all(&dir);
    b
}

// ------------------------------------------------------------------ replay

pub struct Replay {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub tier: String,
    pub class: String,
    pub msg: String,
    pub hash: Option<u64>,
    pub choices: Option<Vec<u64>>,
    /// Earlier runs of the same batch to execute first in the same process,
    /// for a violation that needs what they left behind.
    pub history: Vec<u64>,
    /// Whether candidates and replays need a process of their own.
    pub fresh: bool,
}

impl Replay {
    pub fn load(path: &Path) -> Option<Replay> {
        let t = fs::read_to_string(path).ok()?;
        let mut m: BTreeMap<&str, &str> = BTreeMap::new();
        for l in t.lines() {
            if l == "trace:" { break; }
            if let Some((k, v)) = l.split_once(':') { m.insert(k, v.trim()); }
        }
        Some(Replay {
            prop: m.get("property")?.to_string(),
            seed: m.get("seed")?.parse().ok()?,
            run: m.get("run")?.parse().ok()?,
            tier: m.get("tier")?.to_string(),
            class: m.get("class")?.to_string(),
            msg: m.get("message").unwrap_or(&"").to_string(),
            hash: m.get("log_hash").and_then(|x| u64::from_str_radix(x, 16).ok()),
            history: m.get("history").map(|x| x.split_whitespace().filter_map(|y| y.parse().ok()).collect()).unwrap_or_default(),
            fresh: m.contains_key("fresh"),
            choices: m.get("choices").and_then(|x| if *x == "from-seed" { None } else { Some(x.split_whitespace().filter_map(|y| y.parse().ok()).collect()) }),
        })
    }
    pub fn store(&self, path: &Path, trace: &[String]) {
        let mut o = String::new();
        o.push_str("httlib-sim replay v1\n");
        o.push_str(&format!("property: {}\nseed: {}\nrun: {}\nrun_seed: {:x}\ntier: {}\nclass: {}\nmessage: {}\n",
            self.prop, self.seed, self.run, run_seed(self.seed, &self.prop, self.run), self.tier, self.class, self.msg.replace('\n', " ")));
        if let Some(h) = self.hash { o.push_str(&format!("log_hash: {:x}\n", h)); }
        if self.fresh { o.push_str("fresh: yes\n"); }
        if !self.history.is_empty() { o.push_str(&format!("history: {}\n", self.history.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))); }
        match &self.choices {
            Some(c) => o.push_str(&format!("choices: {}\n", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))),
            None => o.push_str("choices: from-seed\n"),
        }
        o.push_str("trace:\n");
        for l in trace { o.push_str(l); o.push('\n'); }
        let tmp = path.with_extension("tmp");
        let _ = fs::write(&tmp, o);
        let _ = fs::rename(&tmp, path);
    }
    pub fn src(&self) -> Src {
        match &self.choices {
            Some(c) => Src::replay(c.clone()),
            None => Src::seeded(run_seed(self.seed, &self.prop, self.run)),
        }
    }
}

/// The runs that come first, when the violation needs what they leave behind.
fn run_history(p: &Prop, seed: u64, history: &[u64]) {
    for i in history {
        let _ = run_one(p, Src::seeded(run_seed(seed, p.id, *i)), false);
    }
}

/// Executes one choice list in this process and writes the outcome (used as a
/// child by the shrinker when runs may die or leave something behind).
pub fn exec(p: &Prop, a: &Args) -> i32 {
    watchdog(a.opt("cpu", 20_000), 120_000);
    if let Some(f) = a.m.get("history") {
        run_history(p, a.n("seed"), &read_words(Path::new(f)));
    }
    let mut src = match a.m.get("choices") {
        Some(f) => Src::replay(read_words(Path::new(f))),
        None => Src::seeded(a.n("run_seed")),
    };
    if let Some(t) = a.m.get("tee") { src.tee = fs::File::create(t).ok(); }
    run_begins();
    let (v, mut ctx) = run_one(p, src, a.m.contains_key("trace"));
    run_ends();
    let mut msg = String::new();
    let mut o = match v {
        Verdict::Held => "held\n".to_string(),
        Verdict::Violated(f) => { msg = f.msg.replace('\n', " "); format!("violated {}\n", f.class) }
        Verdict::Harness(m) => format!("harness {}\n", m.replace('\n', " ")),
    };
    o.push_str(&ctx.src.spans.iter().map(|s| format!("{}-{}", s.0, s.1)).collect::<Vec<_>>().join(" "));
    o.push_str(&format!("\n{:x}\n{}\n", ctx.log_hash(), msg));
    for l in ctx.take_trace() { o.push_str(&l.replace('\n', " ")); o.push('\n'); }
    fs::write(a.s("out"), o).expect("out");
    0
}

fn read_words(f: &Path) -> Vec<u64> {
    fs::read(f).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn write_words(f: &Path, v: &[u64]) {
    let mut b = vec![];
    for x in v { b.extend_from_slice(&x.to_le_bytes()); }
    let _ = fs::write(f, b);
}

/// What a child process is to execute.
struct Job<'a> { p: &'a Prop, seed: u64, run: u64, tier: &'a str, dir: &'a Path }

#[derive(Default)]
struct Detail { hash: Option<u64>, msg: String, trace: Vec<String> }

impl Job<'_> {
    fn exec(&self, history: &[u64], choices: Option<&[u64]>, cpu: u64) -> Outcome { self.exec_t(history, choices, cpu, false).0 }
    fn exec_t(&self, history: &[u64], choices: Option<&[u64]>, cpu: u64, trace: bool) -> (Outcome, Detail) {
        let exe = std::env::current_exe().expect("own path");
        let (cf, of, tf, hf) = (self.dir.join("c"), self.dir.join("o"), self.dir.join("t"), self.dir.join("h"));
        let _ = fs::remove_file(&of);
        let mut cmd = Command::new(exe);
        cmd.arg("exec").arg(format!("prop={}", self.p.id)).arg(format!("tier={}", self.tier)).arg(format!("cpu={}", cpu))
            .arg(format!("out={}", of.display())).arg(format!("tee={}", tf.display()))
            .arg(format!("seed={}", self.seed)).arg(format!("run_seed={}", run_seed(self.seed, self.p.id, self.run)));
        if let Some(c) = choices { write_words(&cf, c); cmd.arg(format!("choices={}", cf.display())); }
        if !history.is_empty() { write_words(&hf, history); cmd.arg(format!("history={}", hf.display())); }
        if trace { cmd.arg("trace=1"); }
        let st = cmd.stdout(Stdio::null()).stderr(Stdio::null()).status();
        let rec = read_words(&tf);
        let code = st.ok().and_then(|s| s.code());
        let txt = fs::read_to_string(&of).unwrap_or_default();
        let mut l = txt.lines();
        let class = if code == Some(EXIT_HANG) { Some("hang".to_string()) }
            else if code != Some(0) { Some("abort".to_string()) }
            else { l.next().and_then(|x| x.strip_prefix("violated ")).map(|s| s.to_string()) };
        let spans = l.next().unwrap_or("").split_whitespace().filter_map(|s| s.split_once('-')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect();
        let hash = l.next().and_then(|x| u64::from_str_radix(x, 16).ok());
        let msg = l.next().unwrap_or("").to_string();
        (Outcome { class, rec, spans }, Detail { hash, msg, trace: l.map(|x| x.to_string()).collect() })
    }
}

/// Which earlier runs of the same worker does the violation need? Empty when
/// it needs none, None when it does not come back within the budget.
fn find_history(job: &Job, class: &str, stride: u64, budget: Duration) -> Option<Vec<u64>> {
    let t0 = Instant::now();
    let hits = |h: &[u64]| job.exec(h, None, 60_000).class.as_deref() == Some(class);
    if hits(&[]) { return Some(vec![]); }
    let all: Vec<u64> = (0..job.run / stride).map(|k| job.run % stride + k * stride).collect();
    let mut k = 1;
    let mut best = loop {
        if all.is_empty() || t0.elapsed() > budget { return None; }
        let h = &all[all.len() - k.min(all.len())..];
        if hits(h) { break h.to_vec(); }
        if k >= all.len() { return None; }
        k *= 4;
    };
    // leave out what is not needed, in ever smaller pieces
    let mut piece = best.len().div_ceil(2);
    while piece > 0 && t0.elapsed() < budget {
        let mut at = 0;
        while at < best.len() && t0.elapsed() < budget {
            let mut c = best.clone();
            c.drain(at..(at + piece).min(best.len()));
            if hits(&c) { best = c } else { at += piece }
        }
        piece = if piece == 1 { 0 } else { piece.div_ceil(2) };
    }
    Some(best)
}

/// Minimises the replay file in place (run as a child process).
pub fn shrink(p: &Prop, a: &Args) -> i32 {
    let path = PathBuf::from(a.s("file"));
    let mut r = match Replay::load(&path) { Some(r) => r, None => return 2 };
    let deadline = budget(a.opt("secs", 20));
    let dies = r.class == "hang" || r.class == "abort";
    // one process per candidate when runs may die or leave something behind
    let apart = dies || r.fresh || !r.history.is_empty();
    let dir = scratch("shrink");
    let tier = r.tier.clone();
    let history = r.history.clone();
    let job = Job { p, seed: r.seed, run: r.run, tier: &tier, dir: &dir };
    let first = if apart { job.exec(&history, r.choices.as_deref(), 20_000) } else {
        let (v, ctx) = run_one(p, r.src(), false);
        Outcome { class: match v { Verdict::Violated(f) => Some(f.class), _ => None }, rec: ctx.src.rec.clone(), spans: ctx.src.spans.clone() }
    };
    if first.class.as_deref() != Some(&r.class) { let _ = fs::remove_dir_all(&dir); return 3; }
    let class = r.class.clone();
    let best;
    let evals;
    {
        let mut eval = |c: &[u64]| -> Outcome {
            if apart { job.exec(&history, Some(c), if dies { 3_000 } else { 20_000 }) } else {
                run_begins();
                let (v, ctx) = run_one(p, Src::replay(c.to_vec()), false);
                run_ends();
                Outcome { class: match v { Verdict::Violated(f) => Some(f.class), _ => None }, rec: ctx.src.rec, spans: ctx.src.spans }
            }
        };
        let mut last_save = Instant::now() - Duration::from_secs(9);
        let mut save = |c: &[u64]| {
            if last_save.elapsed() > Duration::from_millis(300) {
                r.choices = Some(c.to_vec());
                r.hash = None;
                r.store(&path, &[]);
                last_save = Instant::now();
            }
        };
        if !apart { watchdog(10_000, 60_000); }
        let mut s = Shrinker { eval: &mut eval, save: &mut save, class, best: first.rec, spans: first.spans, deadline, max_evals: if apart { 400 } else { 200_000 }, evals: 0 };
        s.run();
        best = s.best.clone();
        evals = s.evals;
    }
    r.choices = Some(best);
    r.hash = None;
    let (o, d) = job.exec_t(&history, r.choices.as_deref(), 20_000, true);
    if dies {
        r.store(&path, &["(the run does not end or kills its process; no event log)".to_string()]);
    } else {
        if o.class.as_deref() == Some(&r.class) { r.msg = d.msg; r.hash = d.hash; }
        r.store(&path, &d.trace);
    }
    let _ = fs::remove_dir_all(&dir);
    eprintln!("minimised with {} evaluations to {} choices", evals, r.choices.as_ref().map(|c| c.len()).unwrap_or(0));
    if o.class.as_deref() == Some(&r.class) { 0 } else { 3 }
}

/// Re-executes a replay file. Exit 1 when the violation is reproduced.
pub fn replay(p: &Prop, path: &Path) -> i32 {
    let r = match Replay::load(path) { Some(r) => r, None => { eprintln!("cannot read {}", path.display()); return 2; } };
    let dir = scratch("replay");
    let job = Job { p, seed: r.seed, run: r.run, tier: &r.tier, dir: &dir };
    let (o, d) = job.exec_t(&r.history, r.choices.as_deref(), 60_000, true);
    let _ = fs::remove_dir_all(&dir);
    if !r.history.is_empty() { println!("after the {} earlier runs {:?}:", r.history.len(), r.history); }
    for l in &d.trace { println!("{}", l); }
    match o.class {
        Some(c) => {
            let same = c == r.class;
            println!("{}: class {} (recorded {}), log hash {:x} (recorded {:x})", if same { "reproduced" } else { "different violation" },
                c, r.class, d.hash.unwrap_or(0), r.hash.unwrap_or(0));
            println!("message: {}", d.msg);
            println!("VIOLATION property={} replay={}", r.prop, path.display());
            if same && (r.hash.is_none() || r.hash == d.hash) { 1 } else { 4 }
        }
        None => { println!("not reproduced: the run held"); 0 }
    }
}

// ------------------------------------------------------------------- check

pub fn check(p: &Prop, root: &Path, seed: u64, tier: &str, runs: Option<u64>, workers: u64) -> i32 {
    let t0 = Instant::now();
    let count = runs.unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let wall_ms = if tier == "thorough" { 3_000_000 } else { 240_000 };
    println!("{}: seed {} tier {} runs {} workers {}", p.id, seed, tier, count, workers);
    let mut b = batch(p, seed, tier, count, workers, wall_ms, true);
    if let Some((idx, class, _, _)) = b.viol.clone() {
        // a run that was only slow, on a machine busy with other things, ends
        // when given more time; then the batch is run again with that time
        if class == "hang" {
            let dir = scratch("confirm");
            let o = Job { p, seed, run: idx, tier, dir: &dir }.exec(&[], None, 60_000);
            let _ = fs::remove_dir_all(&dir);
            if o.class.as_deref() != Some("hang") {
                println!("{}: run {} was slow but ended; running the batch again with more time per run", p.id, idx);
                b = batch_cpu(p, seed, tier, count, workers, wall_ms, true, 100_000);
            }
        }
    }
    let mut exit = 0;
    let mut viol_line = None;
    let mut viol_note = String::new();
    if let Some(h) = &b.harness {
        if b.viol.is_none() {
            eprintln!("{}: HARNESS ERROR: {}", p.id, h);
            return 2;
        }
    }
    if let Some((idx, class, msg, choices)) = &b.viol {
        let dir = root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-s{}-r{}.replay", p.id, seed, idx));
        let mut r = Replay { prop: p.id.into(), seed, run: *idx, tier: tier.into(), class: class.clone(), msg: msg.clone(), hash: None, choices: choices.clone(), history: vec![], fresh: false };
        r.store(&path, &[]);
        println!("{}: violation in run {} (run seed {:x}), class {}: {}", p.id, idx, run_seed(seed, p.id, *idx), class, msg);
        let exe = std::env::current_exe().expect("own path");
        let secs = if tier == "thorough" { 60 } else { 20 };
        let shrunk = |r: &Replay, secs: u64| -> bool {
            r.store(&path, &[]);
            let ok = Command::new(&exe).arg("shrink").arg(format!("prop={}", p.id)).arg(format!("file={}", path.display()))
                .arg(format!("secs={}", secs)).stdout(Stdio::null()).status().map(|s| s.success()).unwrap_or(false);
            let out = Command::new(&exe).arg("replay").arg(format!("{}", path.display())).output();
            ok && out.map(|o| o.status.code() == Some(1)).unwrap_or(false)
        };
        let mut confirmed = shrunk(&r, secs);
        if !confirmed {
            // something outlives a run: find what the violation needs
            r.fresh = true;
            let dir = scratch("history");
            let h = find_history(&Job { p, seed, run: *idx, tier, dir: &dir }, class, workers, Duration::from_secs(4 * secs));
            let _ = fs::remove_dir_all(&dir);
            if let Some(h) = h {
                if !h.is_empty() { println!("{}: needs {} earlier runs of the same process: {:?}", p.id, h.len(), &h[..h.len().min(20)]); }
                r.history = h;
                r.choices = None;
                confirmed = shrunk(&r, secs);
            } else {
                r.store(&path, &[]);
            }
        }
        if let Some(r) = Replay::load(&path) {
            println!("{}: minimised to {} choices; {}", p.id, r.choices.map(|c| c.len()).unwrap_or(0), r.msg);
        }
        println!("{}: replay in a fresh process {}", p.id, if confirmed { "fails identically" } else { "did NOT reproduce exactly" });
        viol_note = format!("{}: {}", class, msg);
        viol_line = Some(format!("VIOLATION property={} replay={}", p.id, path.display()));
        exit = 1;
    }
    // evidence
    let mut distinct = HashSet::new();
    let mut digest = 0u64;
    for (i, h, n) in &b.hashes {
        digest = digest.wrapping_add(mix(*i, *h));
        if *n != 0 { distinct.insert(*h); }
    }
    let stuck: Vec<&str> = p.expect.iter().copied().filter(|k| b.stats.get(*k).copied().unwrap_or(0) == 0).collect();
    let mut samples = vec![];
    for i in 0..3u64.min(count) {
        let (_, mut c) = if exit == 0 { run_one(p, Src::seeded(run_seed(seed, p.id, i)), true) } else { break };
        let t = c.take_trace();
        let n = t.len();
        let mut t: Vec<String> = t.into_iter().take(24).map(|s| if s.len() > 240 { s.chars().take(240).collect::<String>() + "..." } else { s }).collect();
        if n > 24 { t.push(format!("... {} more events", n - 24)); }
        samples.push(format!("{{\"run\": {}, \"run_seed\": \"{:x}\", \"choices\": {}, \"log_hash\": \"{:x}\", \"events\": [{}]}}",
            i, run_seed(seed, p.id, i), c.src.rec.len(), c.log_hash(), t.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", ")));
    }
    if samples.is_empty() { samples.push(quote(&viol_note)); }
    let grp = |pre: &str| b.stats.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| format!("{}: {}", quote(&k[pre.len()..]), v)).collect::<Vec<_>>().join(", ");
    let list = |v: &[&str]| v.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", ");
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = if b.wall > 0.0 { (b.done as f64 / b.wall * 3600.0) as u64 } else { 0 };
    let ev = format!(concat!("{{\n\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n\"coverage\": {{\n",
        "\"evaluations\": {}, \"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [\n{}\n],\n",
        "\"simulated_runs\": {}, \"runs_per_hour\": {}, \"seeds_per_hour\": {}, \"workers\": {},\n",
        "\"simulated_time_s\": {:.3}, \"scheduler_steps\": {}, \"calls_into_code_under_test\": {},\n",
        "\"faults_injected\": {{{}}},\n\"probes\": {{{}}},\n\"probes_stuck_at_zero\": [{}],\n",
        "\"distinct_states\": {}, \"state_measure\": {},\n\"batch_digest\": \"{:x}\", \"truncated_by_wall_clock\": {},\n",
        "\"real_components\": [{}],\n\"stub_components\": [{}]\n}},\n",
        "\"assumptions\": [{}],\n\"wall_s\": {:.3}, \"violations\": {}\n}}\n"),
        quote(p.id), quote(tier), seed, b.done, distinct.len(), quote(p.rule), samples.join(",\n"),
        b.done, per_hour, per_hour, workers, b.sim_time as f64 / 1e6, b.steps, b.sut_calls,
        grp("fault:"), grp("probe:"), list(&stuck), b.states.len(), quote(p.states), digest, b.truncated,
        list(p.real), list(p.stub), list(p.assumptions), wall, if exit == 1 { 1 } else { 0 });
    let evdir = root.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if fs::write(evdir.join(format!("{}.json", p.id)), ev).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    println!("{}: {} runs, {} distinct non-trivial, {} states, {} calls, {:.1} s, slowest run {} ms (run {}), digest {:x}{}", p.id, b.done, distinct.len(), b.states.len(), b.sut_calls, wall, b.slow.0, b.slow.1, digest,
        if b.truncated { " (truncated by wall clock)" } else { "" });
    for k in stuck { println!("{}: warning: probe {} stuck at zero", p.id, k); }
    if let Some(l) = viol_line { println!("{}", l); let _ = std::io::stdout().flush(); }
    exit
}
