//! The search: many seeds over eight workers, then minimisation, reporting and evidence.
use crate::min::minimise;
use crate::rng::run_seed;
use crate::{gen, Case, Reply};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn env(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| panic!("{} is not set (use bin/check)", k))
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
    fd: i32,
    // keeps the memory file alive
    shm: crate::shm::Shm,
}
impl Worker {
    fn start(variant: &str) -> Worker {
        let bin = env(&format!("SIM_BIN_{}", variant.to_uppercase()));
        let shm = crate::shm::Shm::create();
        let mut c = Command::new(bin);
        c.arg("serve").arg(variant);
        c.env("LD_PRELOAD", env("SIM_PRELOAD")).env("SIMOS_FD", shm.fd.to_string()).env("SIMOS_MODE", "none");
        c.env("RUST_BACKTRACE", "0").env_remove("LD_LIBRARY_PATH");
        // a tempting proxy that nothing may use
        for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"] {
            c.env(k, "http://proxy.test:3128");
        }
        c.stdin(Stdio::piped()).stdout(Stdio::piped());
        if std::env::var("SIM_DEBUG").is_err() {
            c.stderr(Stdio::null());
        }
        let mut child = c.spawn().expect("cannot start a worker");
        let stdin = child.stdin.take().unwrap();
        let so = child.stdout.take().unwrap();
        let fd = so.as_raw_fd();
        Worker { child, stdin, out: BufReader::new(so), fd, shm }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.shm.close();
    }
}

/// One lane of execution with a worker per build variant.
pub struct Lane {
    workers: BTreeMap<String, Worker>,
    /// what each worker ran since it was started
    history: BTreeMap<String, Vec<u64>>,
    pub limit: Duration,
}
const WORKER_LIFE: usize = 400;
pub enum Res {
    Ok(Reply),
    /// the worker died or stopped answering
    Crash(String, String),
    /// the simulator itself gave up
    Internal(String),
}
impl Lane {
    pub fn new() -> Lane {
        Lane { workers: BTreeMap::new(), history: BTreeMap::new(), limit: Duration::from_secs(60) }
    }
    fn ask(&mut self, variant: &str, req: &Value) -> Res {
        let w = self.workers.entry(variant.to_string()).or_insert_with(|| Worker::start(variant));
        let mut line = serde_json::to_vec(req).unwrap();
        line.push(b'\n');
        let sent = w.stdin.write_all(&line).and_then(|_| w.stdin.flush());
        let t0 = Instant::now();
        let mut answer = String::new();
        let mut timed_out = false;
        if sent.is_ok() {
            // answers are single lines; wait for the first byte with a limit
            loop {
                if !w.out.buffer().is_empty() {
                    break;
                }
                let mut p = libc::pollfd { fd: w.fd, events: libc::POLLIN, revents: 0 };
                let left = self.limit.saturating_sub(t0.elapsed()).as_millis() as i32;
                let n = unsafe { libc::poll(&mut p, 1, left.max(1)) };
                if n > 0 {
                    break;
                }
                if t0.elapsed() >= self.limit {
                    timed_out = true;
                    break;
                }
            }
            if !timed_out {
                let _ = w.out.read_line(&mut answer);
            }
        }
        if !answer.is_empty() {
            if let Ok(r) = serde_json::from_str::<Reply>(&answer) {
                return Res::Ok(r);
            }
        }
        // gone or stuck
        let mut w = self.workers.remove(variant).unwrap();
        let keep = self.history.remove(variant).and_then(|h| h.last().copied());
        self.history.insert(variant.to_string(), keep.into_iter().collect());
        if timed_out {
            return Res::Crash("hang".into(), format!("made no progress for {} s of real time", self.limit.as_secs()));
        }
        let st = w.child.wait().expect("wait");
        if let Some(sig) = st.signal() {
            let name = match sig {
                libc::SIGSEGV => "SIGSEGV",
                libc::SIGABRT => "SIGABRT (stack overflow or abort)",
                libc::SIGBUS => "SIGBUS",
                libc::SIGKILL => return Res::Internal("a worker was killed from outside (out of memory?)".into()),
                _ => "a signal",
            };
            return Res::Crash("crash".into(), format!("the process died of {}", name));
        }
        match st.code() {
            Some(97) => Res::Crash("hang".into(), "did not finish within the step limit of the simulation".into()),
            Some(98) => Res::Crash("deadlock".into(), "every task is blocked and none can continue".into()),
            Some(c) if c != 99 && c != 101 => Res::Crash("crash".into(), format!("the process ended itself with status {}", c)),
            Some(c) => Res::Internal(format!("worker ended with status {}", c)),
            None => Res::Internal("worker vanished".into()),
        }
    }
    pub fn seed(&mut self, prop: &str, tier: &str, seed: u64, case: &Case) -> Res {
        let h = self.history.entry(case.variant().to_string()).or_default();
        if h.len() >= WORKER_LIFE {
            h.clear();
            self.workers.remove(case.variant());
        }
        self.history.get_mut(case.variant()).unwrap().push(seed);
        self.ask(case.variant(), &json!({"seed": seed, "prop": prop, "tier": tier}))
    }
    pub fn case(&mut self, case: &Case) -> Res {
        self.ask(case.variant(), &json!({"case": case}))
    }
}

fn verdict(r: &Res) -> Option<(String, String)> {
    match r {
        Res::Ok(r) => r.violation.clone(),
        Res::Crash(k, w) => Some((k.clone(), w.clone())),
        Res::Internal(_) => None,
    }
}

/// (runs, seconds) per property and tier
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let runs = match prop {
        "C01" => 150_000,
        "C02" => 35_000,
        "C03" => 300_000,
        "C04" => 250_000,
        "C05" => 300_000,
        "C06" => 200_000,
        "C07" => 250_000,
        "C08" | "C09" | "C12" => 120_000,
        "C10" => 400_000,
        "C11" => 160_000,
        "C17" => 45_000,
        "C18" => 5_000,
        _ => 90_000,
    };
    let quick = (runs, 40);
    if tier == "thorough" {
        (quick.0 * 60, 700)
    } else {
        quick
    }
}

struct Known {
    prop: String,
    kind: String,
    contains: String,
    text: String,
}
fn known(dir: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.jsonl", dir)) {
        for l in t.lines() {
            if let Ok(j) = serde_json::from_str::<Value>(l) {
                if j["status"] == "open" {
                    v.push(Known {
                        prop: j["property"].as_str().unwrap_or("").into(),
                        kind: j["kind"].as_str().unwrap_or("").into(),
                        contains: j["contains"].as_str().unwrap_or("\u{0}").into(),
                        text: j["what"].as_str().unwrap_or("").into(),
                    });
                }
            }
        }
    }
    v
}

#[derive(Default)]
struct Totals {
    runs: u64,
    execs: u64,
    sim_ns: u128,
    stats: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    nontrivial: HashSet<u64>,
    variants: BTreeMap<String, u64>,
    tags: BTreeMap<String, u64>,
    scheds: HashSet<u64>,
}

const FAULTS: &[&str] = &[
    "read_or_write_interrupted", "io_error", "early_eof", "delay", "stall", "split_at_offset", "kill", "short_transfer", "open_error",
    "stat_error", "connect_error", "dns_error", "receive_timeout", "out_of_descriptors", "task_switch",
];

pub fn run(args: &[String]) -> i32 {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let master: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = env("SIM_DIR");
    let (mut nruns, mut secs) = budget(&prop, &tier);
    if let Some(n) = get("--runs").and_then(|s| s.parse().ok()) {
        nruns = n;
    }
    if let Some(n) = get("--secs").and_then(|s| s.parse().ok()) {
        secs = n;
    }
    println!("{}: master seed {} tier {} (up to {} runs, {} s)", prop, master, tier, nruns, secs);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let tot = Mutex::new(Totals::default());
    let found: Mutex<Option<(u64, u64, String, String, Vec<u64>)>> = Mutex::new(None);
    let knowns = known(&dir);
    let seen_known: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let internal: Mutex<Vec<String>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let firsts: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    let nthreads = std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            sc.spawn(|| {
                let mut lane = Lane::new();
                let mut loc = Totals::default();
                let mut retried = HashSet::new();
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > Duration::from_secs(secs) {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= nruns {
                        break;
                    }
                    let seed = run_seed(master, &prop, i);
                    let case = gen(&prop, seed, &tier);
                    let mut res = lane.seed(&prop, &tier, seed, &case);
                    if let Res::Internal(m) = &res {
                        // once more in a fresh worker before giving up on it
                        if retried.insert(seed) {
                            let _ = m;
                            res = lane.seed(&prop, &tier, seed, &case);
                        }
                    }
                    if let Res::Internal(m) = &res {
                        internal.lock().unwrap().push(format!("seed {}: {}", seed, m));
                        if internal.lock().unwrap().len() > 20 {
                            stop.store(true, Ordering::Relaxed);
                        }
                        continue;
                    }
                    *loc.variants.entry(case.variant().to_string()).or_default() += 1;
                    loc.runs += 1;
                    if let Res::Ok(r) = &res {
                        loc.execs += r.execs as u64;
                        loc.sim_ns += r.sim_ns as u128;
                        let mut fault = false;
                        for (k, n) in &r.stats {
                            *loc.stats.entry(k.clone()).or_default() += n;
                            *loc.runs_with.entry(k.clone()).or_default() += 1;
                            fault |= FAULTS.contains(&k.as_str());
                        }
                        loc.traces.insert(r.trace);
                        if fault || matches!(prop.as_str(), "C09" | "C10") {
                            loc.nontrivial.insert(r.trace);
                        }
                        if let Some(s) = &r.sched {
                            let b = serde_json::to_vec(s).unwrap();
                            loc.scheds.insert(crate::rng::fnv(&b));
                        }
                        if i < 32 {
                            firsts.lock().unwrap().insert(seed, r.trace);
                        }
                        if i < 3 {
                            samples.lock().unwrap().push(sample_of(seed, &case, r));
                        }
                    }
                    if let Case::Lib(l) = &case {
                        for t in &l.tags {
                            *loc.tags.entry(t.clone()).or_default() += 1;
                        }
                    }
                    if let Some((kind, what)) = verdict(&res) {
                        if let Some(k) = knowns.iter().find(|k| k.prop == prop && k.kind == kind && what.contains(&k.contains)) {
                            *seen_known.lock().unwrap().entry(k.text.clone()).or_default() += 1;
                            continue;
                        }
                        // does it fail in a worker of its own, or only after what this one ran before?
                        let before = lane.history.get(case.variant()).cloned().unwrap_or_default();
                        let Some(before) = confirm(&prop, &tier, seed, &case, &before) else {
                            internal.lock().unwrap().push(format!("seed {}: {} ({}) did not happen again", seed, kind, what));
                            continue;
                        };
                        let mut f = found.lock().unwrap();
                        // the lowest run number wins, whatever order the lanes finish in
                        if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                            *f = Some((i, seed, kind, what, before));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                let mut t = tot.lock().unwrap();
                t.runs += loc.runs;
                t.execs += loc.execs;
                t.sim_ns += loc.sim_ns;
                for (k, n) in loc.stats {
                    *t.stats.entry(k).or_default() += n;
                }
                for (k, n) in loc.runs_with {
                    *t.runs_with.entry(k).or_default() += n;
                }
                for (k, n) in loc.variants {
                    *t.variants.entry(k).or_default() += n;
                }
                for (k, n) in loc.tags {
                    *t.tags.entry(k).or_default() += n;
                }
                t.traces.extend(loc.traces);
                t.nontrivial.extend(loc.nontrivial);
                t.scheds.extend(loc.scheds);
            });
        }
    });
    let tot = tot.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    for (k, n) in seen_known.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} ({} runs)", prop, k, n);
    }
    // the same seeds once more in a fresh worker: the traces must agree
    let mut mism = 0u64;
    let mut again = 0u64;
    if found.lock().unwrap().is_none() {
        let mut lane = Lane::new();
        let t1 = Instant::now();
        for (seed, tr) in firsts.lock().unwrap().iter().rev() {
            if t1.elapsed() > Duration::from_secs(8) {
                break;
            }
            let case = gen(&prop, *seed, &tier);
            if let Res::Ok(r) = lane.seed(&prop, &tier, *seed, &case) {
                again += 1;
                if r.trace != *tr {
                    mism += 1;
                    eprintln!("note: seed {} gave trace {:x} then {:x}", seed, tr, r.trace);
                }
            }
        }
    }
    let mut violation = None;
    if let Some((i, seed, kind, what, before)) = found.into_inner().unwrap() {
        println!("run {} (seed {}): {}: {}", i, seed, kind, what);
        violation = Some(if before.is_empty() {
            report(&prop, &tier, master, i, seed, &kind, &what, &dir)
        } else {
            report_with_history(&prop, &tier, master, i, seed, &kind, &what, &dir, &before)
        });
    }
    let wall = t0.elapsed().as_secs_f64();
    let internal = internal.into_inner().unwrap();
    write_evidence(&prop, &tier, master, &tot, wall, search_s, again, mism, violation.is_some() as u64, &samples.into_inner().unwrap(), &dir, internal.len());
    println!(
        "{}: {} runs, {} executions, {} distinct traces, {:.0} simulated s, {:.1} s wall",
        prop, tot.runs, tot.execs, tot.traces.len(), tot.sim_ns as f64 / 1e9, wall
    );
    if let Some(path) = violation {
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    if !internal.is_empty() {
        eprintln!("harness trouble: {:?}", &internal[..internal.len().min(3)]);
        if internal.len() as u64 * 50 > tot.runs {
            return 2;
        }
    }
    if tot.runs == 0 {
        eprintln!("nothing was run");
        return 2;
    }
    0
}

fn fails_after(prop: &str, tier: &str, before: &[u64], seed: u64, case: &Case) -> bool {
    let mut lane = Lane::new();
    for s in before {
        let c = gen(prop, *s, tier);
        if let Res::Crash(..) = lane.seed(prop, tier, *s, &c) {
            return false;
        }
    }
    verdict(&lane.seed(prop, tier, seed, case)).is_some()
}

/// The runs that must come before this one, in the same process, for it to fail: usually none.
/// None if it cannot be made to fail again.
fn confirm(prop: &str, tier: &str, seed: u64, case: &Case, history: &[u64]) -> Option<Vec<u64>> {
    if fails_after(prop, tier, &[], seed, case) {
        return Some(vec![]);
    }
    let mut h: Vec<u64> = history.iter().copied().filter(|s| *s != seed).filter(|s| gen(prop, *s, tier).variant() == case.variant()).collect();
    if !fails_after(prop, tier, &h, seed, case) {
        return None;
    }
    let t0 = Instant::now();
    let mut n = 2;
    while h.len() > 1 && t0.elapsed() < Duration::from_secs(20) {
        let step = h.len().div_ceil(n);
        let mut cut = false;
        for i in (0..h.len()).step_by(step) {
            let mut t = h.clone();
            t.drain(i..(i + step).min(h.len()));
            if fails_after(prop, tier, &t, seed, case) {
                h = t;
                cut = true;
                break;
            }
        }
        if !cut {
            if step == 1 {
                break;
            }
            n *= 2;
        }
    }
    Some(h)
}

#[allow(clippy::too_many_arguments)]
fn report_with_history(prop: &str, tier: &str, master: u64, index: u64, seed: u64, kind: &str, what: &str, dir: &str, before: &[u64]) -> String {
    let path = format!("{}/replays/{}-{:016x}.json", dir, prop, seed);
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    let b: Vec<Case> = before.iter().map(|s| gen(prop, *s, tier)).collect();
    let doc = json!({
        "property": prop, "kind": kind, "what": what, "seed": seed, "found_at_run": index, "master_seed": master,
        "note": "fails only after the runs listed under before, in the same process",
        "before": b, "case": gen(prop, seed, tier),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    println!("fails only after {} earlier run(s) in the same process: {}", b.len(), what);
    path
}

fn sample_of(seed: u64, case: &Case, r: &Reply) -> Value {
    let mut c = serde_json::to_value(case).unwrap();
    shorten(&mut c);
    json!({"seed": seed, "case": c, "trace": format!("{:016x}", r.trace), "simulated_ms": r.sim_ns / 1_000_000})
}
fn shorten(v: &mut Value) {
    match v {
        Value::String(s) if s.len() > 200 => {
            let t: String = s.chars().take(120).collect();
            *s = format!("{}... ({} bytes)", t, s.len());
        }
        Value::Array(a) => {
            if a.len() > 12 {
                let n = a.len();
                a.truncate(12);
                a.push(json!(format!("... {} in all", n)));
            }
            for x in a {
                shorten(x);
            }
        }
        Value::Object(o) => {
            for (_, x) in o.iter_mut() {
                shorten(x);
            }
        }
        _ => {}
    }
}

#[allow(clippy::too_many_arguments)]
fn report(prop: &str, tier: &str, master: u64, index: u64, seed: u64, kind: &str, what: &str, dir: &str) -> String {
    // look for a smaller failing run of the same kind among further seeds
    let size = |c: &Case| serde_json::to_vec(c).unwrap().len();
    let mut best = gen(prop, seed, tier);
    let mut best_seed = seed;
    let mut best_what = what.to_string();
    let t0 = Instant::now();
    let mut lane = Lane::new();
    lane.limit = Duration::from_secs(10);
    let mut tried = 0;
    if kind != "hang" || !what.contains("real time") {
        for k in 0..400u64 {
            if t0.elapsed() > Duration::from_secs(12) {
                break;
            }
            let s = run_seed(master, prop, index + 1 + k);
            let c = gen(prop, s, tier);
            if size(&c) >= size(&best) {
                continue;
            }
            tried += 1;
            let r = lane.seed(prop, tier, s, &c);
            if let Some((k2, w)) = verdict(&r) {
                if k2 == kind {
                    best = c;
                    best_seed = s;
                    best_what = w;
                }
            }
        }
    }
    let mut last = best_what.clone();
    let (mut small, tries) = minimise(&best, kind, Duration::from_secs(20), |c| {
        let v = verdict(&lane.case(c));
        if let Some((k, w)) = &v {
            if k == kind {
                last = w.clone();
            }
        }
        v.map(|x| x.0)
    });
    // pin the schedule that fails, so that the file needs no generator
    let mut trace = 0;
    if let Res::Ok(r) = lane.case(&small) {
        trace = r.trace;
        if let Some((k, w)) = &r.violation {
            if k == kind {
                last = w.clone();
            }
        }
        if let (Some(s), Case::Lib(l)) = (r.sched.clone(), &small) {
            let mut l2 = l.clone();
            l2.sched = Some(s);
            let pinned = Case::Lib(l2);
            if let Res::Ok(r2) = lane.case(&pinned) {
                if r2.violation.as_ref().map(|v| v.0.as_str()) == Some(kind) {
                    trace = r2.trace;
                    small = simplify_schedule(&pinned, kind, &mut lane);
                    if let Res::Ok(r3) = lane.case(&small) {
                        trace = r3.trace;
                    }
                }
            }
        }
    }
    let path = format!("{}/replays/{}-{:016x}.json", dir, prop, best_seed);
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    let doc = json!({
        "property": prop, "kind": kind, "what": last, "seed": best_seed, "found_at_run": index, "master_seed": master, "found_with_seed": seed,
        "trace": format!("{:016x}", trace), "minimisation": {"smaller_seeds_tried": tried, "candidates_tried": tries, "bytes_before": size(&gen(prop, seed, tier)), "bytes_after": size(&small)},
        "case": small,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    println!("minimised ({} candidates): {}", tries + tried, last);
    path
}

/// Fewer context switches: merge adjacent slices while the failure stays.
fn simplify_schedule(case: &Case, kind: &str, lane: &mut Lane) -> Case {
    let mut best = case.clone();
    let t0 = Instant::now();
    let mut i = 0;
    loop {
        let Case::Lib(l) = &best else { return best };
        let s = l.sched.clone().unwrap_or_default();
        if i + 1 >= s.len() || s.len() > 3000 || t0.elapsed() > Duration::from_secs(8) {
            return best;
        }
        let mut c = s.clone();
        let n = c[i + 1].1;
        c[i].1 += n;
        c.remove(i + 1);
        if i + 1 < c.len() && c[i].0 == c[i + 1].0 {
            c[i].1 += c[i + 1].1;
            c.remove(i + 1);
        }
        let mut l2 = l.clone();
        l2.sched = Some(c);
        let cand = Case::Lib(l2);
        match lane.case(&cand) {
            Res::Ok(r) if r.violation.as_ref().map(|v| v.0.as_str()) == Some(kind) => best = cand,
            _ => i += 1,
        }
    }
}

fn level() -> &'static str {
    "exploration"
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &str, tier: &str, seed: u64, t: &Totals, wall: f64, search_s: f64, again: u64, mism: u64, violations: u64, samples: &[Value], dir: &str, internal: usize) {
    let mut faults = serde_json::Map::new();
    let mut probes = serde_json::Map::new();
    for (k, n) in &t.stats {
        let e = json!({"times": n, "runs": t.runs_with.get(k).copied().unwrap_or(0)});
        if FAULTS.contains(&k.as_str()) {
            faults.insert(k.clone(), e);
        } else {
            probes.insert(k.clone(), e);
        }
    }
    for (k, n) in &t.tags {
        probes.insert(format!("case_{}", k), json!({"runs": n}));
    }
    let (real, stub, rule): (&str, &str, &str) = match prop {
        "C12" | "C13" | "C14" | "C15" | "C16" | "C17" => (
            "the json_typegen binary built from /repo (clap, indicatif, ureq, std and all), one process per run",
            "the operating system below libc: file system, descriptors 0-2, sockets and peers, DNS, clocks, randomness, terminals (libsimos)",
            "a run is one process with a generated sample, options, channel, faults on input, output and standard error, and a kill point; non-trivial if at least one fault or non-default transfer actually fired, distinct by the hash of its operation trace",
        ),
        "C18" => (
            "rustc and the json_typegen proc macro built from /repo; the library linked into the harness as reference",
            "the file system below /sim/, seen by the macro through libsimos",
            "a run expands one json_typegen! invocation in rustc over a simulated sample file; non-trivial if a fault or non-default transfer fired, distinct by operation trace",
        ),
        _ => (
            "json_typegen_shared built from /repo with ureq, indicatif and std, as the library, CLI (progress) and web (no local samples) builds use it",
            "the operating system below libc: file system, sockets and peers, DNS, clocks, randomness, thread scheduling (libsimos); TLS peers are not simulated beyond a failing handshake",
            "a run is a generated world (files, hosts, servers, faults), one or more tasks with a list of calls, and a schedule; non-trivial if at least one fault, non-default transfer or task switch actually fired (C09, C10: every run), distinct by the hash of its operation trace",
        ),
    };
    let doc = json!({
        "property": prop, "tier": tier, "seed": seed, "level": level(),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": rule,
            "samples": samples,
            "executions": t.execs,
            "runs_per_hour": (t.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "faults_injected": faults,
            "probes": probes,
            "distinct_traces": t.traces.len(),
            "distinct_schedules": t.scheds.len(),
            "interleaving_measure": "distinct hashes of the full sequence of intercepted operations (operation, task, descriptor, argument, result) including task switches; distinct_schedules counts distinct sequences of scheduling decisions of multi-task runs",
            "builds_exercised": t.variants,
            "determinism": {"seeds_run_twice_in_separate_processes": again, "traces_that_differed": mism},
            "real_components": real,
            "simulated_components": stub,
            "runs_lost_to_harness_trouble": internal,
        },
        "assumptions": ["programs reach the operating system through the libc functions libsimos interposes", "a clean batch is evidence from sampled schedules and faults, not proof"],
        "wall_s": wall,
        "violations": violations,
    });
    let p = format!("{}/evidence", dir);
    let _ = std::fs::create_dir_all(&p);
    std::fs::write(format!("{}/{}.json", p, prop), serde_json::to_string_pretty(&doc).unwrap()).unwrap();
}

pub fn replay(path: &str) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let case: Case = serde_json::from_value(doc["case"].clone()).expect("case");
    let mut traces = vec![];
    let mut viol = None;
    for _ in 0..2 {
        // a fresh process each time
        let mut lane = Lane::new();
        for b in doc["before"].as_array().cloned().unwrap_or_default() {
            lane.case(&serde_json::from_value(b).expect("case"));
        }
        let r = lane.case(&case);
        if let Res::Internal(m) = &r {
            eprintln!("harness trouble: {}", m);
            return 2;
        }
        if let Res::Ok(x) = &r {
            traces.push(format!("{:016x}", x.trace));
        }
        if let Some(v) = verdict(&r) {
            viol = Some(v);
        }
    }
    println!("trace {:?}, recorded {}", traces, doc["trace"]);
    match viol {
        Some((k, w)) => {
            println!("{}: {}", k, w);
            println!("VIOLATION property={} replay={}", case.prop(), path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Many seeds twice each, in separate processes and with other worker counts.
pub fn selftest(args: &[String]) -> i32 {
    let n: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(200);
    let props: Vec<String> = if args.len() > 1 { args[1..].to_vec() } else { (1..=18).map(|i| format!("C{:02}", i)).collect() };
    let mut bad = 0;
    for p in props {
        let n = if p == "C18" { n / 10 + 1 } else { n };
        let mut all: Vec<BTreeMap<u64, u64>> = vec![];
        for jobs in [8u64, 3] {
            let res = Mutex::new(BTreeMap::new());
            std::thread::scope(|sc| {
                for j in 0..jobs {
                    let (res, p) = (&res, &p);
                    sc.spawn(move || {
                        let mut lane = Lane::new();
                        for i in (j..n).step_by(jobs as usize) {
                            let seed = run_seed(7, p, i);
                            let c = gen(p, seed, "quick");
                            if let Res::Ok(r) = lane.seed(p, "quick", seed, &c) {
                                res.lock().unwrap().insert(seed, r.trace);
                            }
                        }
                    });
                }
            });
            all.push(res.into_inner().unwrap());
        }
        let d = all[0].iter().filter(|(k, v)| all[1].get(k) != Some(v)).inspect(|(k, _)| println!("  seed {}", k)).count();
        println!("{}: {} seeds twice, {} differ", p, all[0].len(), d);
        bad += d;
    }
    (bad > 0) as i32
}
