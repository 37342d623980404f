//! simcheck: deterministic simulation of json_typegen's library, CLI and macro.
//!
//!   simcheck run --prop C01 --tier quick --seed 1     search, minimise, report, write evidence
//!   simcheck replay FILE                               run one recorded case again
//!   simcheck serve ...                                 (internal) worker, with the simulator preloaded
mod cli;
mod gen;
mod lib_exec;
mod mac;
mod min;
mod orch;
mod props;
mod rng;
mod shm;
mod world;

use cli::*;
use lib_exec::*;
use mac::*;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, Write};

#[global_allocator]
static GLOBAL: Alloc = Alloc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Case {
    Lib(LibCase),
    Cli(CliCase),
    Mac(MacCase),
}
impl Case {
    pub fn variant(&self) -> &str {
        match self {
            Case::Lib(l) => &l.variant,
            _ => "plain",
        }
    }
    pub fn prop(&self) -> &str {
        match self {
            Case::Lib(l) => &l.prop,
            Case::Cli(l) => &l.prop,
            Case::Mac(l) => &l.prop,
        }
    }
}

pub fn gen(prop: &str, seed: u64, tier: &str) -> Case {
    let n: u32 = prop[1..].parse().unwrap_or(0);
    match n {
        1..=11 => Case::Lib(props::gen_case(prop, seed, tier)),
        12..=17 => Case::Cli(cli::gen_cli(prop, seed)),
        18 => Case::Mac(mac::gen_mac(seed)),
        _ => panic!("unknown property {}", prop),
    }
}

pub struct Envs {
    cli: Option<CliEnv>,
    mac: Option<MacEnv>,
}
impl Envs {
    fn check(&mut self, c: &Case) -> props::Verdict {
        match c {
            Case::Lib(l) => props::check_case(&shm::Shm::own().expect("simulator block"), l),
            Case::Cli(k) => {
                let e = self.cli.get_or_insert_with(CliEnv::new);
                check_cli(e, k)
            }
            Case::Mac(k) => {
                let e = self.mac.get_or_insert_with(MacEnv::new);
                check_mac(e, k)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reply {
    pub seed: u64,
    pub variant: String,
    pub violation: Option<(String, String)>,
    pub trace: u64,
    pub sim_ns: u64,
    pub execs: u32,
    pub stats: Vec<(String, u64)>,
    pub info: String,
    /// explicit schedule taken, for concurrent cases
    pub sched: Option<Vec<(u8, u32)>>,
}

/// Worker: reads one request per line, answers one line each. A request is either
/// {"seed": n, "prop": .., "tier": ..} or {"case": {...}}.
fn serve(variant: &str) {
    quiet_panics();
    let mut envs = Envs { cli: None, mac: None };
    if let Some(s) = shm::Shm::own() {
        props::warm_up(&s, variant);
    }
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.is_empty() {
            continue;
        }
        let v: serde_json::Value = serde_json::from_str(&line).expect("request");
        let (case, seed) = if let Some(c) = v.get("case") {
            (serde_json::from_value::<Case>(c.clone()).expect("case"), 0)
        } else {
            let seed = v["seed"].as_u64().unwrap();
            (gen(v["prop"].as_str().unwrap(), seed, v["tier"].as_str().unwrap()), seed)
        };
        let reply = if case.variant() != variant {
            Reply { seed, variant: case.variant().into(), violation: None, trace: 0, sim_ns: 0, execs: 0, stats: vec![], info: String::new(), sched: None }
        } else {
            let r = envs.check(&case);
            if let Ok(p) = std::env::var("SIM_OPS") {
                if let Some(s) = shm::Shm::own() {
                    let t: Vec<String> = (0..s.s().nops as usize).map(|i| format!("{:?} {:?}", s.s().ops[i], s.op_str(i))).collect();
                    let _ = std::fs::write(p, t.join("\n"));
                }
            }
            let sched = match &case {
                Case::Lib(l) if l.tasks.len() > 1 => shm::Shm::own().map(|s| {
                    let s = s.s();
                    rle(&s.sched_out[..s.nsched as usize])
                }),
                _ => None,
            };
            Reply { seed, variant: variant.into(), violation: r.violation, trace: r.trace, sim_ns: r.sim_ns, execs: r.execs, stats: r.stats, info: r.info, sched }
        };
        let mut o = out.lock();
        serde_json::to_writer(&mut o, &reply).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("serve") => serve(&a[2]),
        Some("run") => std::process::exit(orch::run(&a[2..])),
        Some("replay") => std::process::exit(orch::replay(&a[2])),
        Some("selftest") => std::process::exit(orch::selftest(&a[2..])),
        Some("gen") => {
            let c = gen(&a[2], a[3].parse().unwrap(), "quick");
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
        }
        _ => {
            eprintln!("usage: simcheck run|replay|selftest");
            std::process::exit(2);
        }
    }
}
