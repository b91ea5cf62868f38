//! Batches of simulated runs: seeds, worker threads, watchdog, minimisation,
//! replay files and evidence.

use crate::kernel::{self, Input, Outcome, Tapes};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type MainFut = Pin<Box<dyn Future<Output = ()>>>;

/// One kind of world
#[derive(Clone, Copy)]
pub struct Scn {
    pub name: &'static str,
    pub main: fn() -> MainFut,
    /// whether tasks may be stalled
    pub stalls: bool,
    /// whether others may run in the middle of a task's step
    pub preempt: bool,
    /// share of the runs
    pub weight: u32,
}

pub struct Check {
    pub prop: &'static str,
    pub scns: Vec<Scn>,
    pub quick: u64,
    pub thorough: u64,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// probes that must have been reached at least once
    pub must: &'static [&'static str],
}

pub fn run_seed(vseed: u64, prop: &str, idx: u64) -> u64 {
    let mut x = vseed ^ kernel::hash_bytes(prop.as_bytes());
    let a = kernel::splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    kernel::splitmix(&mut y)
}

pub fn scn_of(c: &Check, idx: u64) -> &Scn {
    let tot: u64 = c.scns.iter().map(|s| s.weight as u64).sum();
    let mut i = idx % tot;
    // spread: interleave by weight
    for s in &c.scns {
        if i < s.weight as u64 {
            return s;
        }
        i -= s.weight as u64;
    }
    unreachable!()
}

fn scn_by_name<'a>(c: &'a Check, n: &str) -> Option<&'a Scn> {
    c.scns.iter().find(|s| s.name == n)
}

pub fn exec(prop: &str, s: &Scn, input: Input<'_>, trace: bool) -> Outcome {
    kernel::run(prop, input, s.stalls, s.preempt && !NO_PREEMPT.load(Ordering::Relaxed), trace, s.main)
}

/// Tasks only ever change places where they wait (see `check`)
static NO_PREEMPT: AtomicBool = AtomicBool::new(false);
pub fn no_preempt() {
    NO_PREEMPT.store(true, Ordering::Relaxed);
}

// ------------------------------------------------------------------ batch

#[derive(Default)]
struct Stats {
    runs: u64,
    sim_ms: u64,
    steps: u64,
    events: u64,
    choices: u64,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    per_scn: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    foreign: BTreeMap<String, u64>,
    chain: u64,
}

pub struct BatchResult {
    stats: Stats,
    first: Option<(u64, String, String)>,
}

/// Slots for the watchdog
struct Slot {
    idx: AtomicU64,
    since: AtomicU64,
}

fn run_batch(c: &Check, vseed: u64, from: u64, to: u64, threads: usize, cur: Option<&Path>) -> BatchResult {
    let next = AtomicU64::new(from);
    let best = AtomicU64::new(u64::MAX);
    let first: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    let total = Mutex::new(Stats::default());
    let t0 = Instant::now();
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot { idx: AtomicU64::new(u64::MAX), since: AtomicU64::new(0) })
        .collect();
    let done = AtomicBool::new(false);
    let hashes_ordered: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        // watchdog: a run that does not come back within HANG_S real seconds
        sc.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for s in &slots {
                    let i = s.idx.load(Ordering::SeqCst);
                    let since = s.since.load(Ordering::SeqCst);
                    if i != u64::MAX && now.saturating_sub(since) > HANG_S * 1000 {
                        if let Some(p) = cur {
                            let _ = std::fs::write(p.join("hang"), format!("{i}"));
                        }
                        std::process::exit(77);
                    }
                }
            }
        });
        let mut hs = vec![];
        for slot in slots.iter().take(threads) {
            let (next, best, first, total, hashes_ordered) = (&next, &best, &first, &total, &hashes_ordered);
            let tid = hs.len();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        let mut local = vec![];
                        let cur_file = cur.map(|p| {
                            std::fs::OpenOptions::new()
                                .create(true)
                                .write(true)
                                .truncate(true)
                                .open(p.join(format!("cur.{tid}")))
                                .unwrap()
                        });
                        loop {
                            let idx = next.fetch_add(1, Ordering::SeqCst);
                            if idx >= to || idx > best.load(Ordering::SeqCst) {
                                break;
                            }
                            if let Some(f) = &cur_file {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_at(format!("{idx:>20}").as_bytes(), 0);
                            }
                            slot.since.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                            slot.idx.store(idx, Ordering::SeqCst);
                            let s = scn_of(c, idx);
                            let seed = run_seed(vseed, c.prop, idx);
                            let o = exec(c.prop, s, Input::Seed(seed), false);
                            slot.idx.store(u64::MAX, Ordering::SeqCst);
                            st.runs += 1;
                            st.sim_ms += o.sim_ms;
                            st.steps += o.steps;
                            st.events += o.nev;
                            st.choices += o.tapes.iter().map(|t| t.len() as u64).sum::<u64>();
                            for (k, v) in &o.faults {
                                *st.faults.entry(k).or_default() += v;
                            }
                            for (k, v) in &o.probes {
                                *st.probes.entry(k).or_default() += v;
                            }
                            for k in &o.foreign {
                                *st.foreign.entry(k.clone()).or_default() += 1;
                            }
                            *st.per_scn.entry(s.name).or_default() += 1;
                            st.hashes.insert(o.hash);
                            if o.nontrivial {
                                st.nontrivial.insert(o.hash);
                            }
                            if st.samples.is_empty() || (st.samples.len() < 2 && !o.faults.is_empty()) {
                                st.samples.push(json!({
                                    "run": idx, "scenario": s.name, "seed": format!("{seed:#x}"),
                                    "sim_ms": o.sim_ms, "steps": o.steps, "events": o.nev,
                                    "event_log_hash": format!("{:016x}", o.hash),
                                    "faults": o.faults, "probes": o.probes,
                                }));
                            }
                            local.push((idx, o.hash));
                            if let Some(v) = &o.violation {
                                best.fetch_min(idx, Ordering::SeqCst);
                                let mut f = first.lock().unwrap();
                                if f.as_ref().is_none_or(|(i, _, _)| *i > idx) {
                                    *f = Some((idx, v.kind.clone(), v.msg.clone()));
                                }
                            }
                        }
                        hashes_ordered.lock().unwrap().extend(local);
                        let mut t = total.lock().unwrap();
                        t.runs += st.runs;
                        t.sim_ms += st.sim_ms;
                        t.steps += st.steps;
                        t.events += st.events;
                        t.choices += st.choices;
                        for (k, v) in st.faults {
                            *t.faults.entry(k).or_default() += v;
                        }
                        for (k, v) in st.probes {
                            *t.probes.entry(k).or_default() += v;
                        }
                        for (k, v) in st.per_scn {
                            *t.per_scn.entry(k).or_default() += v;
                        }
                        for (k, v) in st.foreign {
                            *t.foreign.entry(k).or_default() += v;
                        }
                        t.hashes.extend(st.hashes);
                        t.nontrivial.extend(st.nontrivial);
                        t.samples.extend(st.samples);
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness error: a worker thread panicked");
                std::process::exit(3);
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut stats = total.into_inner().unwrap();
    let mut chain = 0u64;
    for (i, h) in hashes_ordered.into_inner().unwrap() {
        chain = (chain ^ h ^ i).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    }
    stats.chain = chain;
    BatchResult { stats, first: first.into_inner().unwrap() }
}

const HANG_S: u64 = 25;

// ------------------------------------------------------------------ shrink

fn total_len(t: &Tapes) -> usize {
    t.iter().map(|x| x.len()).sum()
}
fn weight(t: &Tapes) -> (usize, u64) {
    (
        t.iter().map(|x| x.iter().filter(|v| **v != 0).count()).sum(),
        t.iter().flat_map(|x| x.iter().map(|v| *v as u64)).sum(),
    )
}

fn strip(mut t: Tapes) -> Tapes {
    for x in t.iter_mut() {
        while x.last() == Some(&0) {
            x.pop();
        }
    }
    t
}

/// Minimise the tapes of a failing run, keeping the kind of the violation.
fn shrink(prop: &str, s: &Scn, tapes: Tapes, kind: &str, budget: Duration) -> (Tapes, u64) {
    let t0 = Instant::now();
    let tries = std::cell::Cell::new(0u64);
    let fails = |t: &Tapes| -> Option<Tapes> {
        tries.set(tries.get() + 1);
        let o = exec(prop, s, Input::Tapes(t), false);
        match &o.violation {
            Some(v) if v.kind == kind => Some(strip(o.tapes)),
            _ => None,
        }
    };
    let mut best = strip(tapes);
    let out = |t0: Instant| t0.elapsed() > budget;
    let mut progress = true;
    while progress && !out(t0) {
        progress = false;
        // 1. whole tapes: drop the schedule, then the faults
        for d in [1usize, 2, 0] {
            if best[d].is_empty() {
                continue;
            }
            let mut c = best.clone();
            c[d].clear();
            if let Some(n) = fails(&c) {
                best = n;
                progress = true;
            }
        }
        // 2. chunks: truncate, delete, zero
        for d in [0usize, 2, 1] {
            let mut size = (best[d].len() / 2).max(1);
            while size >= 1 && !out(t0) {
                let mut i = 0;
                while i < best[d].len() && !out(t0) {
                    let end = (i + size).min(best[d].len());
                    // delete
                    let mut c = best.clone();
                    c[d].drain(i..end);
                    if let Some(n) = fails(&c) {
                        if total_len(&n) < total_len(&best) || weight(&n) < weight(&best) {
                            best = n;
                            progress = true;
                            continue;
                        }
                    }
                    // zero
                    if i < best[d].len() && best[d][i..end.min(best[d].len())].iter().any(|v| *v != 0) {
                        let mut c = best.clone();
                        let e = end.min(c[d].len());
                        c[d][i..e].fill(0);
                        if let Some(n) = fails(&c) {
                            if weight(&n) < weight(&best) {
                                best = n;
                                progress = true;
                            }
                        }
                    }
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // 3. smaller values
        for d in [0usize, 2, 1] {
            let mut i = 0;
            while i < best[d].len() && !out(t0) {
                let v = best[d][i];
                if v > 1 {
                    for n in [1, v / 2, v - 1] {
                        let mut c = best.clone();
                        c[d][i] = n;
                        if let Some(nn) = fails(&c) {
                            if weight(&nn) < weight(&best) {
                                best = nn;
                                progress = true;
                                break;
                            }
                        }
                    }
                }
                i += 1;
            }
        }
    }
    (best, tries.get())
}

// ------------------------------------------------------------------ replay file

fn root() -> PathBuf {
    std::env::var("PRPC_SIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Replay {
    prop: String,
    scn: String,
    seed: Option<u64>,
    tapes: Option<Tapes>,
    kind: String,
    hash: Option<u64>,
    no_preempt: bool,
}

fn read_replay(p: &Path) -> Option<Replay> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok()?;
    let tapes = v.get("tapes").and_then(|t| t.as_array()).map(|t| {
        let mut o: Tapes = Default::default();
        for (i, x) in t.iter().enumerate().take(3) {
            o[i] = x.as_array().map(|a| a.iter().map(|n| n.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
        }
        o
    });
    Some(Replay {
        prop: v["property"].as_str()?.into(),
        scn: v["scenario"].as_str()?.into(),
        seed: v["seed"].as_str().and_then(|s| u64::from_str_radix(s.trim_start_matches("0x"), 16).ok()),
        tapes,
        kind: v["violation"]["kind"].as_str()?.into(),
        no_preempt: v["no_preempt"].as_bool().unwrap_or(false),
        hash: v["event_log_hash"].as_str().and_then(|s| u64::from_str_radix(s, 16).ok()),
    })
}

/// `replay FILE`: 1 and the violation when it reproduces exactly
pub fn replay(checks: &[Check], file: &Path, verbose: bool) -> i32 {
    let Some(r) = read_replay(file) else {
        eprintln!("cannot read replay file {}", file.display());
        return 2;
    };
    let Some(c) = checks.iter().find(|c| c.prop == r.prop) else {
        eprintln!("unknown property {}", r.prop);
        return 2;
    };
    let Some(s) = scn_by_name(c, &r.scn) else {
        eprintln!("unknown scenario {}", r.scn);
        return 2;
    };
    if r.no_preempt {
        no_preempt();
    }
    let o = match (&r.tapes, r.seed) {
        (Some(t), _) => exec(c.prop, s, Input::Tapes(t), verbose),
        (None, Some(seed)) => exec(c.prop, s, Input::Seed(seed), verbose),
        _ => return 2,
    };
    if verbose {
        for l in &o.trace {
            println!("{l}");
        }
    }
    match &o.violation {
        Some(v) => {
            println!("reproduced kind={} hash={:016x}: {}", v.kind, o.hash, v.msg);
            if v.kind != r.kind || r.hash.is_some_and(|h| h != o.hash) {
                println!("but the file says kind={} hash={:?}", r.kind, r.hash.map(|h| format!("{h:016x}")));
                return 4;
            }
            println!("VIOLATION property={} replay={}", r.prop, file.display());
            1
        }
        None => {
            println!("no violation (hash={:016x})", o.hash);
            0
        }
    }
}

// ------------------------------------------------------------------ commands

/// Child: run the batch, write result.json into `dir`
pub fn work(checks: &[Check], prop: &str, vseed: u64, from: u64, to: u64, threads: usize, dir: &Path) -> i32 {
    let c = checks.iter().find(|c| c.prop == prop).unwrap();
    let t0 = Instant::now();
    let b = run_batch(c, vseed, from, to, threads, Some(dir));
    let st = &b.stats;
    let mut violation = Value::Null;
    if let Some((idx, kind, msg)) = &b.first {
        let s = scn_of(c, *idx);
        let seed = run_seed(vseed, prop, *idx);
        let o = exec(prop, s, Input::Seed(seed), false);
        let mut tapes = o.tapes.clone();
        let mut tries = 0;
        if o.violation.as_ref().map(|v| &v.kind) == Some(kind) {
            let (t, n) = shrink(prop, s, o.tapes.clone(), kind, Duration::from_secs(45));
            tapes = t;
            tries = n;
        }
        let f = exec(prop, s, Input::Tapes(&tapes), true);
        let shrunk_ok = f.violation.as_ref().map(|v| &v.kind) == Some(kind);
        let rd = root().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{prop}-{vseed}-{idx}.json"));
        let (fin, use_tapes) = if shrunk_ok {
            (f, true)
        } else {
            (exec(prop, s, Input::Seed(seed), true), false)
        };
        let mut trace = fin.trace.clone();
        if trace.len() > 4000 {
            let n = trace.len();
            trace = trace.split_off(n - 4000);
        }
        let v = json!({
            "property": prop,
            "scenario": s.name,
            "seed": format!("{seed:#x}"),
            "verif_seed": vseed,
            "run_index": idx,
            "no_preempt": NO_PREEMPT.load(Ordering::Relaxed),
            "violation": {"kind": kind, "message": fin.violation.as_ref().map(|v| v.msg.clone()).unwrap_or(msg.clone())},
            "event_log_hash": format!("{:016x}", fin.hash),
            "tapes": if use_tapes { json!(tapes) } else { Value::Null },
            "tape_names": ["workload", "schedule", "faults"],
            "decisions": {"original": total_len(&o.tapes), "minimised": total_len(&tapes), "candidates_tried": tries},
            "faults": fin.faults,
            "trace": trace,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        violation = json!({"path": path.to_string_lossy(), "kind": kind, "msg": v["violation"]["message"], "idx": idx});
    }
    let mut samples = st.samples.clone();
    samples.sort_by_key(|v| v["run"].as_u64());
    samples.truncate(4);
    let res = json!({
        "runs": st.runs, "sim_ms": st.sim_ms, "steps": st.steps, "events": st.events, "choices": st.choices,
        "faults": st.faults, "probes": st.probes, "distinct": st.hashes.len(), "nontrivial": st.nontrivial.len(),
        "per_scn": st.per_scn, "samples": samples, "violation": violation, "foreign": st.foreign,
        "chain": format!("{:016x}", st.chain), "wall": t0.elapsed().as_secs_f64(),
    });
    std::fs::write(dir.join("result.json"), serde_json::to_string(&res).unwrap()).unwrap();
    0
}

fn child(args: &[String], limit: Duration) -> Option<i32> {
    let exe = std::env::current_exe().unwrap();
    // an address-space limit turns runaway allocation into a crash of the child only
    let mut cmd = Command::new("/bin/sh");
    cmd.arg("-c").arg("ulimit -v 16000000; exec \"$0\" \"$@\"").arg(exe).args(args);
    cmd.stdin(Stdio::null());
    if NO_PREEMPT.load(Ordering::Relaxed) {
        cmd.env("PRPC_SIM_NO_PREEMPT", "1");
    }
    let mut ch = cmd.spawn().ok()?;
    let t0 = Instant::now();
    loop {
        match ch.try_wait().ok()? {
            Some(s) => {
                use std::os::unix::process::ExitStatusExt;
                return Some(s.code().unwrap_or(1000 + s.signal().unwrap_or(0)));
            }
            None if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Some(2000);
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("prpc-sim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// `check PROP`
pub fn check(checks: &[Check], prop: &str, vseed: u64, tier: &str, scale: f64) -> i32 {
    let Some(c) = checks.iter().find(|c| c.prop == prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let t0 = Instant::now();
    let n = ((if tier == "thorough" { c.thorough } else { c.quick }) as f64 * scale).max(1.0) as u64;
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    println!("{prop}: VERIF_SEED={vseed} tier={tier} runs={n} threads={threads}");
    let dir = scratch();
    let limit = Duration::from_secs(if tier == "thorough" { 7200 } else { 780 });
    let args = |from: u64, to: u64, th: usize, dir: &Path| -> Vec<String> {
        vec![
            "work".into(),
            prop.into(),
            vseed.to_string(),
            from.to_string(),
            to.to_string(),
            th.to_string(),
            dir.to_string_lossy().into_owned(),
        ]
    };
    let rc = child(&args(0, n, threads, &dir), limit);
    let cleanup = || {
        let _ = std::fs::remove_dir_all(&dir);
    };
    if rc != Some(0) {
        // the child crashed or hung: find the run that did it
        let mut cands: Vec<u64> = vec![];
        if let Ok(s) = std::fs::read_to_string(dir.join("hang")) {
            cands.extend(s.trim().parse::<u64>());
        }
        for t in 0..threads {
            if let Ok(s) = std::fs::read_to_string(dir.join(format!("cur.{t}"))) {
                cands.extend(s.trim().parse::<u64>());
            }
        }
        cands.dedup();
        eprintln!("{prop}: the batch process ended with {rc:?}; candidates {cands:?}");
        for idx in cands {
            let d2 = dir.join(format!("one-{idx}"));
            let _ = std::fs::create_dir_all(&d2);
            let rc1 = child(&args(idx, idx + 1, 1, &d2), Duration::from_secs(90));
            if rc1 != Some(0) {
                let rc2 = child(&args(idx, idx + 1, 1, &d2), Duration::from_secs(90));
                if rc2 == rc1 {
                    let s = scn_of(c, idx);
                    if matches!(rc1, Some(77) | Some(2000)) && s.preempt && !NO_PREEMPT.load(Ordering::Relaxed) {
                        // Code that holds a blocking lock while it wakes somebody is fine with
                        // threads, but gets stuck where all tasks share one; do without then.
                        no_preempt();
                        if child(&args(idx, idx + 1, 1, &d2), Duration::from_secs(90)) == Some(0) {
                            println!("{prop}: run {idx} got stuck in the middle of a step; going on without switching tasks there");
                            cleanup();
                            return check(checks, prop, vseed, tier, scale);
                        }
                    }
                    let seed = run_seed(vseed, prop, idx);
                    let what = match rc1 {
                        Some(77) | Some(2000) => "hang: one step never returns",
                        _ => "crash: the process died",
                    };
                    let rd = root().join("replays");
                    let _ = std::fs::create_dir_all(&rd);
                    let path = rd.join(format!("{prop}-{vseed}-{idx}.json"));
                    let v = json!({
                        "property": prop, "scenario": s.name, "seed": format!("{seed:#x}"), "verif_seed": vseed,
                        "run_index": idx, "no_preempt": NO_PREEMPT.load(Ordering::Relaxed),
                        "violation": {"kind": "process", "message": format!("{what} ({rc1:?})")},
                        "tapes": Value::Null,
                    });
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                    println!("{prop}: {what} ({rc1:?}) in run {idx} ({})", s.name);
                    println!("VIOLATION property={prop} replay={}", path.display());
                    write_evidence(c, tier, vseed, &json!({"runs": idx.max(1), "samples":[{"run": idx}]}), t0.elapsed(), 1);
                    cleanup();
                    return 1;
                }
            }
        }
        cleanup();
        eprintln!("{prop}: harness error, not reproducible");
        return 2;
    }
    let res: Value = match std::fs::read_to_string(dir.join("result.json")).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            cleanup();
            eprintln!("{prop}: no result");
            return 2;
        }
    };
    let mut code = 0;
    if !res["violation"].is_null() {
        let path = res["violation"]["path"].as_str().unwrap().to_string();
        // confirm in a fresh process
        let mut rc = child(&["replay".into(), path.clone(), "-q".into()], Duration::from_secs(90));
        if rc != Some(1) {
            eprintln!("{prop}: minimised replay gave {rc:?}; falling back to the seed");
            // fall back: replay by seed
            if let Ok(s) = std::fs::read_to_string(&path) {
                if let Ok(mut v) = serde_json::from_str::<Value>(&s) {
                    v["tapes"] = Value::Null;
                    v["event_log_hash"] = Value::Null;
                    v["note"] = json!("the minimised tapes did not reproduce; replay by seed");
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                }
            }
            for _ in 0..5 {
                rc = child(&["replay".into(), path.clone(), "-q".into()], Duration::from_secs(90));
                if rc == Some(1) {
                    break;
                }
            }
        }
        if rc == Some(1) {
            println!("{prop}: {} : {}", res["violation"]["kind"].as_str().unwrap(), res["violation"]["msg"].as_str().unwrap_or(""));
            println!("VIOLATION property={prop} replay={path}");
            code = 1;
        } else {
            eprintln!("{prop}: harness error: a violation did not reproduce ({rc:?}): {}", res["violation"]);
            code = 2;
        }
    }
    write_evidence(c, tier, vseed, &res, t0.elapsed(), (code == 1) as u64);
    let missing: Vec<&&str> = c.must.iter().filter(|p| res["probes"].get(**p).and_then(|v| v.as_u64()).unwrap_or(0) == 0).collect();
    println!(
        "{prop}: {} runs, {} distinct, {} non-trivial, {:.0} simulated s, {:.1} s wall, chain {}",
        res["runs"], res["distinct"], res["nontrivial"],
        res["sim_ms"].as_f64().unwrap_or(0.0) / 1000.0,
        t0.elapsed().as_secs_f64(), res["chain"].as_str().unwrap_or("")
    );
    if std::env::var("PRPC_SIM_VERBOSE").is_ok() {
        println!("faults {}\nprobes {}\nper scenario {}\nforeign {}", res["faults"], res["probes"], res["per_scn"], res["foreign"]);
    }
    if !missing.is_empty() && n >= c.quick {
        println!("{prop}: note: never reached in this batch: {missing:?}");
    }
    cleanup();
    code
}

fn write_evidence(c: &Check, tier: &str, vseed: u64, res: &Value, wall: Duration, violations: u64) {
    let runs = res["runs"].as_u64().unwrap_or(0);
    let w = wall.as_secs_f64();
    let bw = res["wall"].as_f64().unwrap_or(w).max(0.001);
    let v = json!({
        "property": c.prop,
        "tier": tier,
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": res["nontrivial"].as_u64().unwrap_or(0),
            "rule": format!("One evaluation = one seeded simulated run (its own seed; workload, schedule and fault tapes drawn from it). Distinct = different hash over the complete event log and the order in which tasks were stepped. Non-trivial = {}", c.rule),
            "samples": res["samples"],
            "distinct_interleavings": res["distinct"],
            "seeds_per_hour": (runs as f64 / bw * 3600.0).round(),
            "simulated_seconds": res["sim_ms"].as_f64().unwrap_or(0.0) / 1000.0,
            "scheduler_steps": res["steps"],
            "events": res["events"],
            "decisions_drawn": res["choices"],
            "faults_injected": res["faults"],
            "rare_conditions_reached": res["probes"],
            "runs_per_scenario": res["per_scn"],
            "event_log_chain": res["chain"],
            "components_real": c.real,
            "components_stubbed": c.stub,
        },
        "assumptions": c.assumptions,
        "wall_s": w,
        "violations": violations,
    });
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{}.json", c.prop));
    let mut f = std::fs::File::create(&p).unwrap();
    let _ = f.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes());
}

/// `determinism`: every scenario, many seeds, twice, at two worker counts
pub fn chain_only(checks: &[Check], vseed: u64, n: u64, threads: usize) {
    for c in checks {
        let b = run_batch(c, vseed, 0, n, threads, None);
        println!("{} {} {:016x} {}", c.prop, n, b.stats.chain, b.first.map(|f| f.1).unwrap_or_default());
    }
}

pub fn one(checks: &[Check], prop: &str, vseed: u64, idx: u64, trace: bool) -> i32 {
    let c = checks.iter().find(|c| c.prop == prop).expect("property");
    let s = scn_of(c, idx);
    let o = exec(prop, s, Input::Seed(run_seed(vseed, prop, idx)), trace);
    for l in &o.trace {
        println!("{l}");
    }
    println!("scenario {} hash {:016x} steps {} sim {} ms faults {:?} probes {:?} foreign {:?}", s.name, o.hash, o.steps, o.sim_ms, o.faults, o.probes, o.foreign);
    if let Some(v) = o.violation {
        println!("violation {}: {}", v.kind, v.msg);
        return 1;
    }
    0
}

#[allow(unused)]
fn _unused(_: Arc<()>) {}
