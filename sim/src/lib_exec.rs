//! Running library calls inside the simulator.
use crate::shm::*;
use crate::world::*;
use json_typegen_shared::internal_util::display_error_with_causes;
use json_typegen_shared::{codegen, parse, JTError};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::OnceLock;

pub struct Api {
    pub begin: extern "C" fn(u32, u32),
    pub enter: extern "C" fn(u32),
    pub exit: extern "C" fn(),
    pub yield_: extern "C" fn(),
    pub pause: extern "C" fn(),
    pub resume: extern "C" fn(),
    pub end: extern "C" fn(),
}
fn sym(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, name.as_ptr()) };
    assert!(!p.is_null(), "simulator not preloaded");
    p
}
pub fn api() -> &'static Api {
    static A: OnceLock<Api> = OnceLock::new();
    A.get_or_init(|| unsafe {
        Api {
            begin: std::mem::transmute(sym(c"simos_begin")),
            enter: std::mem::transmute(sym(c"simos_task_enter")),
            exit: std::mem::transmute(sym(c"simos_task_exit")),
            yield_: std::mem::transmute(sym(c"simos_yield")),
            pause: std::mem::transmute(sym(c"simos_pause")),
            resume: std::mem::transmute(sym(c"simos_resume")),
            end: std::mem::transmute(sym(c"simos_end")),
        }
    })
}

// ---- allocation points as scheduling points -------------------------------------------------
pub struct Alloc;
thread_local! {
    static EVERY: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let every = EVERY.try_with(|e| e.get()).unwrap_or(0);
        if every != 0 {
            let due = COUNT
                .try_with(|c| {
                    let n = c.get() + 1;
                    c.set(if n >= every { 0 } else { n });
                    n >= every
                })
                .unwrap_or(false);
            if due {
                let e = EVERY.with(|x| x.replace(0));
                (api().yield_)();
                EVERY.with(|x| x.set(e));
            }
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
}

// ---- cases ----------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Expect {
    /// the result of passing this text inline
    Inline(String),
    /// the result of the same call with the file delivered whole
    Clean,
    /// an error of any kind
    Error,
    /// an error that does not blame the JSON, hints or unwrap path, given that this sample
    /// would have been fine
    IoError(Bytes),
    /// an error naming this errno
    OpenError(i32),
    /// C07: an error, or the types of exactly these bytes
    Delivered(Bytes),
    Any,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Call {
    pub name: String,
    pub input: String,
    pub options: String,
    pub expect: Expect,
    /// file contents changed before the call: (path, new contents)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub before: Vec<(String, Bytes)>,
}
impl Call {
    pub fn new(name: &str, input: &str, options: &str, expect: Expect) -> Call {
        Call { name: name.into(), input: input.into(), options: options.into(), expect, before: vec![] }
    }
}

/// Changed circumstances under which the output must not change (C09).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Alt {
    pub rand_seed: u64,
    pub clock_ns: i64,
    pub warmups: u32,
    #[serde(default)]
    pub cwd: String,
    /// heap perturbation before the call
    #[serde(default)]
    pub heap: u32,
    #[serde(default)]
    pub env: Vec<(String, String)>,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub env_any: String,
}

/// What the run may touch (C10).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Allowed {
    pub paths: Vec<String>,
    pub hosts: Vec<String>,
    /// (ip, port)
    pub addrs: Vec<(u32, u32)>,
    /// request lines "GET /x HTTP/1.1" reduced to the target, with the Host header
    pub targets: Vec<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct LibCase {
    pub prop: String,
    pub seed: u64,
    pub variant: String,
    pub world: World,
    pub tasks: Vec<Vec<Call>>,
    #[serde(default)]
    pub switch_pct: u32,
    #[serde(default)]
    pub alloc_every: u32,
    /// explicit schedule: (task, times)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sched: Option<Vec<(u8, u32)>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bound_ms: Option<u64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub alts: Vec<Alt>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub allowed: Option<Allowed>,
    #[serde(default)]
    pub stack_kb: u32,
    /// what the generator made, for statistics
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tags: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Outcome {
    Ok(String),
    Err { class: String, msg: String },
    Panic(String),
}
impl Outcome {
    pub fn brief(&self) -> String {
        match self {
            Outcome::Ok(s) => format!("Ok({})", clip(s, 160)),
            Outcome::Err { class, msg } => format!("Err[{}]({})", class, clip(msg, 240)),
            Outcome::Panic(m) => format!("Panic({})", clip(m, 240)),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Ok(_))
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}...", t)
    }
}

fn classify(e: &JTError) -> &'static str {
    match e {
        #[cfg(feature = "full")]
        JTError::SampleFetchingError(_) => "fetch",
        #[cfg(feature = "full")]
        JTError::SampleReadingError(_) => "read",
        JTError::JsonParsingError(_) => "parse",
        JTError::SqlParsingError(_) => "sql",
        JTError::MacroParsingError(_) => "macro",
        _ => "other",
    }
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn call_lib(c: &Call) -> Outcome {
    let r = std::panic::catch_unwind(|| {
        let opts = match parse::options(&c.options) {
            Ok(o) => o,
            Err(m) => return Outcome::Err { class: "options".into(), msg: m },
        };
        match codegen(&c.name, &c.input, opts) {
            Ok(s) => Outcome::Ok(s),
            Err(e) => Outcome::Err { class: classify(&e).into(), msg: display_error_with_causes(&e) },
        }
    });
    match r {
        Ok(o) => o,
        Err(_) => Outcome::Panic(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

/// The same text given inline, outside the simulation.
pub fn inline(c: &Call, text: &str) -> Outcome {
    let mut c = c.clone();
    c.input = text.to_string();
    call_lib(&c)
}

#[derive(Clone, Debug, Default)]
pub struct CallRec {
    pub start_ns: u64,
    pub end_ns: u64,
    pub fds_after: u32,
    pub hang: bool,
    pub hung_before: bool,
}

#[derive(Clone, Debug)]
pub struct RunOut {
    pub outcomes: Vec<Vec<Outcome>>,
    pub recs: Vec<Vec<CallRec>>,
    pub sched: Vec<u8>,
    pub trace_hash: u64,
    pub sim_ns: u64,
}

fn exec_calls(case: &LibCase, t: usize) -> (Vec<Outcome>, Vec<CallRec>) {
    let shm = Shm::own().unwrap();
    let mut outs = Vec::new();
    let mut recs = Vec::new();
    for c in &case.tasks[t] {
        (api().pause)();
        for (path, data) in &c.before {
            let s = shm.s();
            for i in 0..s.nfiles as usize {
                if cstr(&s.files[i].path) == *path {
                    let (off, len) = shm.alloc(&data.0, 0);
                    s.files[i].data_off = off;
                    s.files[i].data_len = len;
                    s.files[i].data_cap = len;
                    s.files[i].exists = 1;
                }
            }
        }
        let mut rec = CallRec { start_ns: shm.s().now_ns, hung_before: shm.s().hang != 0, ..Default::default() };
        (api().resume)();
        EVERY.with(|e| e.set(case.alloc_every));
        let o = call_lib(c);
        EVERY.with(|e| e.set(0));
        (api().pause)();
        rec.end_ns = shm.s().now_ns;
        rec.fds_after = shm.s().open_fds;
        rec.hang = shm.s().hang != 0;
        outs.push(o);
        recs.push(rec);
        (api().resume)();
    }
    (outs, recs)
}

/// Executes a case. The result is a function of the case and the code under test alone.
pub fn run(shm: &Shm, case: &LibCase) -> RunOut {
    run_in(shm, case, "")
}
pub fn run_in(shm: &Shm, case: &LibCase, cwd: &str) -> RunOut {
    case.world.install(shm);
    let s = shm.s();
    if !cwd.is_empty() {
        set_cstr(&mut s.cwd, cwd);
    }
    s.switch_pct = if case.switch_pct == 0 { 30 } else { case.switch_pct };
    if let Some(sch) = &case.sched {
        let mut n = 0usize;
        for (t, k) in sch {
            for _ in 0..*k {
                if n < MAXSCHED {
                    s.sched_in[n] = *t;
                    n += 1;
                }
            }
        }
        s.sched_n = n as u32;
    }
    let n = case.tasks.len();
    (api().begin)(1, n as u32);
    let stack = if case.stack_kb == 0 { 2048 } else { case.stack_kb as usize };
    let results: Vec<(Vec<Outcome>, Vec<CallRec>)> = std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for t in 0..n {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(stack * 1024)
                    .spawn_scoped(sc, move || {
                        (api().enter)(t as u32);
                        let r = exec_calls(case, t);
                        (api().exit)();
                        r
                    })
                    .unwrap(),
            );
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    (api().end)();
    let s = shm.s();
    let mut outcomes = Vec::new();
    let mut recs = Vec::new();
    for (o, r) in results {
        outcomes.push(o);
        recs.push(r);
    }
    RunOut {
        outcomes,
        recs,
        sched: s.sched_out[..s.nsched as usize].to_vec(),
        trace_hash: s.trace_hash,
        sim_ns: s.now_ns,
    }
}

pub fn rle(v: &[u8]) -> Vec<(u8, u32)> {
    let mut out: Vec<(u8, u32)> = Vec::new();
    for &x in v {
        match out.last_mut() {
            Some((y, n)) if *y == x => *n += 1,
            _ => out.push((x, 1)),
        }
    }
    out
}
