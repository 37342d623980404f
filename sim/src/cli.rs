//! The real json_typegen binary, run as a simulated process.
use crate::gen::*;
use crate::lib_exec::*;
use crate::props::*;
use crate::rng::Rng;
use crate::shm::*;
use crate::world::*;
use json_typegen_shared::internal_util::display_error_with_causes;
use json_typegen_shared::{codegen, codegen_from_macro, parse, Options, OutputMode};
use serde::{Deserialize, Serialize};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Chan {
    #[serde(default, skip_serializing_if = "Script::is_empty")]
    pub wr: Script,
    #[serde(default)]
    pub tty: bool,
}

/// What the input of the run amounts to once delivered.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Want {
    /// the code for this text (or, if the text itself is at fault, a failure)
    Text(String),
    /// a failure whose message contains one of these (any, when empty)
    Fail(Vec<String>),
    /// a usage error
    Usage,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CliCase {
    pub prop: String,
    pub seed: u64,
    pub world: World,
    pub input: String,
    #[serde(default)]
    pub name: Option<String>,
    #[serde(default)]
    pub options: Option<String>,
    #[serde(default)]
    pub mode: Option<String>,
    #[serde(default)]
    pub output: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub extra_args: Vec<String>,
    #[serde(default)]
    pub stdin: Option<(Bytes, Script)>,
    #[serde(default)]
    pub stdout: Chan,
    #[serde(default)]
    pub stderr: Chan,
    #[serde(default)]
    pub kill_at_op: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<(String, String)>,
    pub want: Want,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tags: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct CliOut {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

pub struct CliEnv {
    pub bin: String,
    pub preload: String,
    pub shm: Shm,
}
impl CliEnv {
    pub fn new() -> CliEnv {
        CliEnv {
            bin: std::env::var("SIM_CLI_BIN").expect("SIM_CLI_BIN"),
            preload: std::env::var("SIM_PRELOAD").expect("SIM_PRELOAD"),
            shm: Shm::create(),
        }
    }
}

fn args(c: &CliCase) -> Vec<String> {
    let mut a = vec![];
    if let Some(n) = &c.name {
        a.push("-n".into());
        a.push(n.clone());
    }
    if let Some(o) = &c.options {
        a.push(format!("--options={}", o));
    }
    if let Some(m) = &c.mode {
        a.push("-O".into());
        a.push(m.clone());
    }
    if let Some(o) = &c.output {
        a.push(format!("--output={}", o));
    }
    a.extend(c.extra_args.clone());
    if c.want != Want::Usage || !c.input.is_empty() {
        if c.input.starts_with('-') && c.input != "-" {
            a.push("--".into());
        }
        a.push(c.input.clone());
    }
    a
}

/// U+10FFFE stands for a byte that is no character, U+10FFFF for half of one.
fn not_utf8(a: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for ch in a.chars() {
        match ch {
            '\u{10fffe}' => v.push(0xff),
            '\u{10ffff}' => v.push(0xc3),
            _ => v.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    std::ffi::OsString::from_vec(v)
}

pub fn exec(env: &CliEnv, c: &CliCase) -> CliOut {
    let shm = &env.shm;
    c.world.install(shm);
    let s = shm.s();
    if let Some((b, sc)) = &c.stdin {
        s.stdin_stream = put_stream(shm, &b.0, sc) as u32 + 1;
    }
    let mk = |name: &str, ch: &Chan| {
        let mut f = FileSpec::new(name, b"");
        f.wr = ch.wr.clone();
        put_file(shm, &f, 1 << 16) as u32 + 1
    };
    s.stdout_file = mk("\u{1}stdout", &c.stdout);
    s.stderr_file = mk("\u{1}stderr", &c.stderr);
    s.tty_mask = (c.stdout.tty as u32) << 1 | (c.stderr.tty as u32) << 2;
    s.kill_at_op = c.kill_at_op;
    s.killed = 0;
    s.nops = 0;
    let mut cmd = Command::new(&env.bin);
    let odd = c.tags.iter().any(|t| t == "argument_not_utf8");
    cmd.args(args(c).into_iter().map(|a| if odd { not_utf8(&a) } else { a.into() }))
        .env_clear()
        .env("LD_PRELOAD", &env.preload)
        .env("SIMOS_FD", shm.fd.to_string())
        .env("SIMOS_MODE", "process")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::inherit());
    for (k, v) in &c.env {
        cmd.env(k, v);
    }
    let st = cmd.status().expect("cannot start json_typegen");
    let s = shm.s();
    let get = |i: u32| {
        let f = &s.files[i as usize - 1];
        shm.data(f.data_off, f.data_len).to_vec()
    };
    CliOut { code: st.code(), signal: st.signal(), stdout: get(s.stdout_file), stderr: get(s.stderr_file) }
}

/// What the library makes of the same input: the reference.
pub fn reference(c: &CliCase, text: &str) -> Result<String, String> {
    // on a stack of its own: this process has to outlive whatever the library does
    on_a_big_stack(|| reference_here(c, text)).unwrap_or_else(|_| Err("the library panicked".into()))
}

pub fn on_a_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(4 << 30).spawn_scoped(sc, f).unwrap().join())
}

fn reference_here(c: &CliCase, text: &str) -> Result<String, String> {
    if text.trim().starts_with("json_typegen!") {
        return codegen_from_macro(text).map_err(|e| display_error_with_causes(&e));
    }
    let name = c.name.clone().unwrap_or_else(|| "Root".into());
    let mut o = match &c.options {
        Some(b) => parse::options(b)?,
        None => Options::default(),
    };
    if let Some(m) = &c.mode {
        o.output_mode = OutputMode::parse(m).ok_or("Invalid output mode")?;
    }
    codegen(&name, text, o).map_err(|e| display_error_with_causes(&e))
}

const CLI_MODES: &[&str] = &["rust", "typescript", "typescript/typealias", "kotlin", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "shape"];

fn base(prop: &str, seed: u64, r: &mut Rng, s: &Sample) -> CliCase {
    let mut o = None;
    if r.chance(50) {
        o = Some(options(r, &s.value, &OptCfg { hints: 25, unwrap: 15, threshold: 20 }));
    }
    CliCase {
        prop: prop.into(),
        seed,
        world: World {
            sim_seed: r.next(),
            rand_seed: r.next(),
            clock_ns: 1_500_000_000_000_000_000 + (r.below(400_000_000) as i64) * 1_000_000_000,
            tick_ns: *r.pick(&[1000, 1_000_000, 50_000_000]),
            step_cap: 3_000_000,
            env_any: if r.chance(20) { env_any(r) } else { String::new() },
            ..Default::default()
        },
        input: String::new(),
        name: if r.chance(50) { Some(type_name(r)) } else { None },
        options: o,
        mode: if r.chance(40) { Some(r.pick(CLI_MODES).to_string()) } else { None },
        output: None,
        extra_args: vec![],
        stdin: None,
        stdout: Chan::default(),
        stderr: Chan::default(),
        kill_at_op: 0,
        env: vec![],
        want: Want::Text(s.text.clone()),
        tags: vec![],
    }
}

fn container(r: &mut Rng, big: u64) -> Sample {
    loop {
        let s = sample(r, 0, big);
        if s.is_container() {
            return s;
        }
    }
}

fn quiet_env(r: &mut Rng, c: &mut CliCase) {
    for k in ["TERM", "LANG", "NO_COLOR", "COLUMNS", "CLICOLOR_FORCE", "HOME"] {
        if r.chance(25) {
            c.env.push((k.into(), r.pick(&["dumb", "xterm", "1", "0", "C", ""]).to_string()));
        }
    }
}

/// Feeds the sample through a random channel without harming it.
fn channel(r: &mut Rng, c: &mut CliCase, s: &Sample, delays: bool) {
    let b = s.text.as_bytes();
    let huge = b.len() > 1 << 20;
    let delivery = |r: &mut Rng, b: &[u8], e: bool, d: bool| if huge { huge_delivery(r, b.len() as u64) } else { delivery(r, b, e, d) };
    if huge {
        c.tags.push("over_1MB".into());
    }
    match r.below(8) {
        0 | 1 if b.len() < 100_000 && !s.text.contains('\0') => {
            c.input = s.text.clone();
            c.tags.push("argument".into());
        }
        2 | 3 | 4 => {
            c.input = "-".into();
            c.stdin = Some((Bytes(b.to_vec()), delivery(r, b, true, delays)));
            c.tags.push("stdin".into());
        }
        5 => {
            let mut resp = any_response(r, b, delays);
            resp.rd.events.retain(|e| !matches!(e.1, Ev::Err(..)));
            if huge {
                resp.rd = Script { chunk: 60_000, ..Default::default() };
                resp.gzip = false;
            }
            let dns = if r.chance(80) { 0 } else { 1 };
            c.input = place(r, &mut c.world, resp, dns, &mut Allowed::default());
            c.tags.push("url".into());
        }
        _ => {
            let odd = loop {
                let (i, a) = path(r);
                if !i.starts_with('-') && !["/data", "/w", "/w/out.rs", "/data/out.rs", "/w/o.txt"].contains(&a.as_str()) {
                    break (i, a);
                }
            };
            let (input, abs) = match r.below(8) {
                0 => ("sample.json", "/w/sample.json"),
                1 => ("/data/in.json", "/data/in.json"),
                2 => ("./my sample.json", "/w/my sample.json"),
                3 => ("π.json", "/w/π.json"),
                4 => *r.pick(&[
                    ("json_typegen.json", "/w/json_typegen.json"),
                    ("json_typegen_samples/point.json", "/w/json_typegen_samples/point.json"),
                    ("json_typegen", "/w/json_typegen"),
                    ("json_typegen (1).json", "/w/json_typegen (1).json"),
                ]),
                _ => (&odd.0[..], &odd.1[..]),
            };
            let mut f = FileSpec::new(abs, b);
            f.rd = delivery(r, b, true, delays);
            f.is_fifo = r.chance(10);
            if r.chance(20) {
                f.fake_size = Some(*r.pick(&[0, 1, 1 << 24]));
            }
            c.world.files.push(f);
            c.input = input.into();
            c.tags.push("file".into());
        }
    }
}

fn out_file(r: &mut Rng, c: &mut CliCase) {
    let p = *r.pick(&["out.rs", "/data/out.rs", "./o.txt"]);
    let abs = match p {
        "out.rs" => "/w/out.rs",
        "./o.txt" => "/w/o.txt",
        x => x,
    };
    c.output = Some(p.into());
    c.world.files.push(FileSpec { is_dir: true, ..FileSpec::new("/data", b"") });
    c.world.files.retain(|f| f.path != abs);
    if r.chance(75) {
        let old = match r.below(3) {
            0 => b"// precious old contents\n".to_vec(),
            1 => vec![b'o'; 70_000],
            _ => b"x".to_vec(),
        };
        c.world.files.push(FileSpec::new(abs, &old));
    } else {
        c.world.files.push(FileSpec::missing(abs));
    }
}

/// Makes the input fail in one of the ways inputs fail.
fn bad_input(r: &mut Rng, c: &mut CliCase, s: &Sample) {
    let b = s.text.as_bytes();
    c.want = Want::Fail(vec![]);
    match r.below(14) {
        0 => {
            c.input = "missing.json".into();
            c.want = Want::Fail(vec!["No such file".into()]);
            c.tags.push("missing".into());
        }
        1 => {
            let mut f = FileSpec::new("/w/in.json", b);
            f.open_err = libc::EACCES;
            c.world.files.push(f);
            c.input = "in.json".into();
            c.want = Want::Fail(vec!["ermission denied".into()]);
            c.tags.push("unreadable".into());
        }
        2 | 3 => {
            let mut f = FileSpec::new("/w/in.json", b);
            f.rd = delivery(r, b, true, false);
            f.rd.add(r.below(s.end as u64), Ev::Err(errno_read(r), 0));
            c.world.files.push(f);
            c.input = "in.json".into();
            c.tags.push("read_error".into());
        }
        4 => {
            let cut = r.below(s.end as u64) as usize;
            c.world.files.push(FileSpec::new("/w/in.json", &b[..cut]));
            c.input = "in.json".into();
            c.tags.push("truncated".into());
        }
        5 => {
            let mut k = 1 + r.us(s.end - s.start);
            k = (s.start + k).min(s.end - 1);
            while !s.text.is_char_boundary(k) {
                k -= 1;
            }
            let t = &s.text[..k.max(s.start + 1)];
            c.want = Want::Text(t.to_string());
            if r.chance(50) && t.len() < 100_000 {
                c.input = t.to_string();
            } else {
                c.input = "-".into();
                c.stdin = Some((Bytes(t.as_bytes().to_vec()), delivery(r, t.as_bytes(), true, false)));
            }
            c.tags.push("truncated".into());
        }
        6 => {
            c.input = "http://nowhere.test/x.json".into();
            c.want = Want::Fail(vec![]);
            c.tags.push("unreachable".into());
        }
        7 => {
            let mut resp = any_response(r, b, false);
            resp.status = *r.pick(&[404, 500, 403]);
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, true, false);
            c.input = place(r, &mut c.world, resp, 0, &mut Allowed::default());
            c.tags.push("http_error".into());
        }
        8 | 9 => {
            c.options = Some(r.pick(&["{ output_mode: \"cobol\" }", "{", "not options", "{ import_style: \"x\" }", "{ infer_map_threshold: \"many\" }", "{ \"/a\": { use_type: } }"]).to_string());
            channel(r, c, s, false);
            c.want = Want::Text(s.text.clone());
            c.tags.push("bad_options".into());
        }
        10 | 11 => {
            // standard input fails
            c.input = "-".into();
            let mut sc = delivery(r, b, true, false);
            let e = *r.pick(&[libc::EIO, libc::EISDIR, libc::ENXIO, libc::EAGAIN]);
            sc.add(r.below(b.len() as u64 + 1), Ev::Err(e, 0));
            c.stdin = Some((Bytes(b.to_vec()), sc));
            c.want = Want::Fail(vec![]);
            c.tags.push("stdin_error".into());
        }
        12 => {
            // not UTF-8
            let mut v = b.to_vec();
            let i = r.us(v.len());
            v.insert(i, *r.pick(&[0xff, 0xc3, 0x80]));
            if std::str::from_utf8(&v).is_ok() {
                v.insert(i, 0xff);
            }
            c.input = "-".into();
            let sc = delivery(r, &v, true, false);
            c.stdin = Some((Bytes(v), sc));
            c.want = Want::Fail(vec![]);
            c.tags.push("stdin_not_utf8".into());
        }
        _ => {
            let t = format!("{}\u{0}{}", &s.text[..s.start + 1], "]");
            c.input = "-".into();
            c.stdin = Some((Bytes(t.clone().into_bytes()), Script::default()));
            c.want = Want::Text(t);
            c.tags.push("malformed".into());
        }
    }
}

fn write_script(r: &mut Rng, len: u64) -> Script {
    let mut s = Script::default();
    match r.below(4) {
        0 => s.chunk = *r.pick(&[1, 2, 7, 64, 1000]),
        1 => {
            s.chunk = *r.pick(&[10, 100, 5000]);
            s.jitter = true;
        }
        _ => {}
    }
    for _ in 0..r.below(4) {
        let o = r.below(len + 1);
        match r.below(3) {
            0 => s.add(o, Ev::Split),
            _ => s.add(o, Ev::Eintr(r.range(1, 3) as u32)),
        }
    }
    s
}

fn errno_write(r: &mut Rng) -> i32 {
    *r.pick(&[libc::ENOSPC, libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EFBIG, libc::EDQUOT, libc::EAGAIN])
}

fn code_len(c: &CliCase) -> u64 {
    match &c.want {
        Want::Text(t) => reference(c, t).map(|s| s.len() as u64).unwrap_or(100),
        _ => 100,
    }
}

fn set_out_wr(c: &mut CliCase, sc: Script) {
    if let Some(o) = &c.output {
        let abs = if o.starts_with('/') { o.clone() } else { format!("/w/{}", o.trim_start_matches("./")) };
        for f in c.world.files.iter_mut() {
            if f.path == abs {
                f.wr = sc.clone();
            }
        }
    } else {
        c.stdout.wr = sc;
    }
}

pub fn gen_cli(prop: &str, seed: u64) -> CliCase {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let huge = matches!(prop, "C15" | "C17") && r.chance(1) && r.chance(if prop == "C15" { 25 } else { 10 });
    let mut s = if huge {
        huge_sample(r)
    } else if matches!(prop, "C13" | "C14" | "C16") && r.chance(4) {
        wide_sample(r)
    } else {
        container(r, if prop == "C15" { 20 } else { 6 })
    };
    if !huge && prop == "C15" && r.chance(8) {
        s.raw_control(r);
    }
    let mut c = base(prop, seed, r, &s);
    match prop {
        "C12" => {
            out_file(r, &mut c);
            bad_input(r, &mut c, &s);
            if r.chance(10) {
                // the output names the very input that fails
                let dmg = format!("{}\u{1}", &s.text[..s.start + 1]);
                c.world.files.retain(|f| f.is_dir);
                c.world.files.push(FileSpec::new("/w/in.json", dmg.as_bytes()));
                c.input = "in.json".into();
                c.stdin = None;
                c.output = Some("in.json".into());
                c.want = Want::Fail(vec![]);
            }
        }
        "C13" => {
            channel(r, &mut c, &s, false);
            if r.chance(60) {
                out_file(r, &mut c);
            }
            if r.chance(25) && c.output.is_none() {
                c.stdout.tty = true;
            }
            let len = code_len(&c);
            let mut sc = write_script(r, len);
            if r.chance(65) {
                let off = match r.below(5) {
                    0 => 0,
                    1 => len.saturating_sub(1),
                    _ => r.below(len),
                };
                sc.add(off, Ev::Err(errno_write(r), *r.pick(&[0, 0, 0, 1])));
            }
            set_out_wr(&mut c, sc);
            if r.chance(10) {
                // cannot even be opened
                if c.output.is_none() {
                    out_file(r, &mut c);
                }
                let o = c.world.files.len() - 1;
                c.world.files[o].openw_err = *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EISDIR, libc::ETXTBSY]);
            }
        }
        "C14" => match r.below(10) {
            0..=4 => {
                if r.chance(40) {
                    out_file(r, &mut c);
                }
                bad_input(r, &mut c, &s);
                if r.chance(15) {
                    c.stderr.wr.add(r.below(30), Ev::Err(*r.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EBADF]), 0));
                }
                if r.chance(20) {
                    c.stderr.wr.chunk = r.range(1, 9) as u32;
                }
                if r.chance(15) {
                    c.stderr.tty = true;
                }
            }
            5..=6 => {
                channel(r, &mut c, &s, false);
                out_file(r, &mut c);
                let o = c.world.files.len() - 1;
                let due = matches!(&c.want, Want::Text(t) if reference(&c, t).is_ok());
                if !due {
                    // the sample itself fails first
                } else if c.world.files[o].exists && r.chance(25) {
                    c.world.files[o].is_dir = true;
                    c.want = Want::Fail(vec!["directory".into()]);
                } else {
                    let (e, m) = *r.pick(&[(libc::EACCES, "ermission denied"), (libc::EROFS, "ead-only"), (libc::ENOSPC, "space"), (libc::ETXTBSY, "busy")]);
                    c.world.files[o].openw_err = e;
                    c.want = Want::Fail(vec![m.into()]);
                }
                c.tags.push("output_unopenable".into());
            }
            7..=8 => {
                channel(r, &mut c, &s, false);
                if r.chance(50) {
                    out_file(r, &mut c);
                }
                let len = code_len(&c);
                let mut sc = Script::default();
                let (e, m) = *r.pick(&[(libc::ENOSPC, "space"), (libc::EIO, "nput/output"), (libc::EPIPE, "roken pipe"), (libc::EDQUOT, "uota")]);
                sc.add(r.below(len), Ev::Err(e, 0));
                set_out_wr(&mut c, sc);
                if matches!(&c.want, Want::Text(t) if reference(&c, t).is_ok()) {
                    c.want = Want::Fail(vec![m.into()]);
                }
                c.tags.push("write_error".into());
            }
            _ => {
                c.want = Want::Usage;
                match r.below(5) {
                    0 => {}
                    4 => {
                        // bytes that are no text, as old archives and file systems leave them in names
                        let bad = format!("{}{}{}", *r.pick(&["", "a", "caf"]), *r.pick(&['\u{10fffe}', '\u{10ffff}']), *r.pick(&["", ".json", "z"]));
                        c.input = "[1]".into();
                        match r.below(5) {
                            0 => c.name = Some(bad),
                            1 => c.output = Some(bad),
                            2 => c.options = Some(bad),
                            3 => c.input = format!("{{\"{}\":1}}", bad),
                            _ => c.input = bad,
                        }
                        c.tags.push("argument_not_utf8".into());
                    }
                    1 => {
                        c.mode = Some("cobol".into());
                        c.input = if s.text.len() < 100_000 && !s.text.contains('\0') { s.text.clone() } else { "{}".into() };
                    }
                    2 => {
                        c.extra_args.push("--no-such-flag".into());
                        c.input = "[1]".into();
                    }
                    _ => {
                        c.extra_args.push("extra".into());
                        c.input = "[1]".into();
                    }
                }
                c.tags.push("usage".into());
            }
        },
        "C15" => {
            channel(r, &mut c, &s, true);
            if !huge && r.chance(12) {
                let c0 = c.clone();
                c.world.files.clear();
                c.stdin = None;
                bad_input(r, &mut c, &s);
                if c.stdin.is_none() {
                    c = c0;
                }
            }
            if !huge && r.chance(8) {
                // what one channel might strip and another not
                let (a, b) = *r.pick(&[
                    ("\u{feff}", ""), ("\u{feff}", ""), ("", "\u{feff}"), ("\u{a0}", "\u{a0}"), ("\u{b}", "\u{c}"), ("\r\n", "\r\n"), ("", "\0"), ("\0", ""), ("", "\u{1a}"),
                    (")]}'\n", ""), ("// note\n", ""), ("", "\n// note"), ("", "\n{\"next\": 1}"), ("", "\n\n\n,"), ("\u{2028}", ""), ("'", "'"), ("\\", ""),
                ]);
                let t = format!("{}{}{}", a, s.text, b);
                c.world.files.clear();
                c.world.routes.clear();
                c.stdin = None;
                c.want = Want::Text(t.clone());
                c.tags = vec!["odd_text".into()];
                if r.chance(30) && t.len() < 100_000 && !t.contains('\0') {
                    c.input = t;
                } else {
                    c.input = "-".into();
                    let sc = delivery(r, t.as_bytes(), true, true);
                    c.stdin = Some((Bytes(t.into_bytes()), sc));
                }
            } else if !huge && r.chance(12) && c.stdin.is_none() && c.options.is_none() {
                // a macro invocation, as argument or on standard input
                let nm = c.name.clone().unwrap_or_else(|| "Root".into());
                let end = *r.pick(&[");", ");", ");", ");\n", ")", "); "]);
                let m = format!("json_typegen!(\"{}\", r####\"{}\"####{}", nm, s.text, end);
                if m.len() < 100_000 && !m.contains('\0') {
                    c.world.files.clear();
                    c.world.routes.clear();
                    c.mode = None;
                    c.want = Want::Text(m.clone());
                    if r.chance(50) {
                        c.input = m;
                    } else {
                        c.input = "-".into();
                        let sc = delivery(r, m.as_bytes(), true, true);
                        c.stdin = Some((Bytes(m.into_bytes()), sc));
                    }
                }
            }
        }
        "C16" => {
            match r.below(4) {
                0 => {
                    // output names the input
                    let mut f = FileSpec::new("/w/in.json", s.text.as_bytes());
                    f.rd = delivery(r, s.text.as_bytes(), true, false);
                    c.world.files.push(f);
                    c.input = r.pick(&["in.json", "./in.json", "/w/in.json"]).to_string();
                    c.output = Some(r.pick(&["in.json", "/w/in.json"]).to_string());
                    c.tags.push("output_is_input".into());
                }
                _ => {
                    channel(r, &mut c, &s, false);
                    out_file(r, &mut c);
                }
            }
            let len = code_len(&c);
            set_out_wr(&mut c, Script { chunk: *r.pick(&[0, 0, 16, 100]), jitter: r.chance(30), ..Default::default() });
            if r.chance(75) {
                if r.chance(60) {
                    c.kill_at_op = r.range(1, 40);
                } else {
                    // in the middle of writing
                    let at = r.below(len + 1);
                    for f in c.world.files.iter_mut() {
                        if Some(&f.path) == out_abs(&c.output).as_ref() {
                            f.wr.add(at, Ev::Kill);
                        }
                    }
                }
                c.tags.push("killed".into());
            }
        }
        "C17" => {
            if r.chance(75) {
                // a file: the channel with a progress display
                let b = s.text.as_bytes();
                let mut f = FileSpec::new("/w/in.json", b);
                f.rd = if huge { huge_delivery(r, b.len() as u64) } else { delivery(r, b, true, true) };
                if r.chance(25) {
                    f.fake_size = Some(*r.pick(&[0, 1, 1 << 24]));
                }
                if r.chance(25) {
                    match r.below(3) {
                        0 => {
                            f.rd.add(r.below(s.end as u64), Ev::Err(libc::EIO, 0));
                            c.want = Want::Fail(vec![]);
                        }
                        1 => {
                            f.rd.add(r.below(s.end as u64), Ev::Eof);
                            c.want = Want::Fail(vec![]);
                        }
                        _ => {}
                    }
                }
                c.world.files.push(f);
                c.input = "in.json".into();
            } else {
                channel(r, &mut c, &s, true);
            }
            if r.chance(35) {
                out_file(r, &mut c);
            }
            c.stdout.tty = r.chance(40);
            c.stderr.tty = r.chance(60);
            if r.chance(55) {
                let e = *r.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EBADF, libc::EAGAIN]);
                let off = if r.chance(60) { 0 } else { r.below(400) };
                c.stderr.wr.add(off, Ev::Err(e, *r.pick(&[0, 0, 1])));
            } else if r.chance(50) {
                c.stderr.wr = write_script(r, 300);
            }
            c.world.tick_ns = *r.pick(&[1000, 1_000_000, 100_000_000, 3_000_000_000]);
            quiet_env(r, &mut c);
        }
        _ => panic!("no generator for {}", prop),
    }
    if r.chance(25) {
        old_like_new(r, &mut c);
    }
    c
}

/// The output file holds something like the code already, as after an earlier run.
fn old_like_new(r: &mut Rng, c: &mut CliCase) {
    let Some(abs) = out_abs(&c.output) else { return };
    let Want::Text(t) = c.want.clone() else { return };
    if c.tags.iter().any(|t| t == "output_is_input") || out_abs(&Some(c.input.clone())).as_ref() == Some(&abs) {
        return;
    }
    let Ok(code) = reference(c, &t) else { return };
    let mut b = code.into_bytes();
    let n = b.len();
    match r.below(8) {
        0 => {}
        1 => b.truncate(r.us(n)),
        2 => b.extend_from_slice(r.pick(&["\n", "\n}\n", "// more of an older version\n", "x"]).as_bytes()),
        3 => {
            b.pop();
        }
        4 => b = vec![b'x'; n],
        5 => b = String::from_utf8_lossy(&b).replace('\n', "\r\n").into_bytes(),
        _ => {
            // one byte different
            let at = match r.below(3) {
                0 => n - 1 - r.us(n.min(3)),
                _ => r.us(n),
            };
            b[at] = if b[at] == b'1' { b'2' } else { b'1' };
        }
    }
    if let Some(f) = c.world.files.iter_mut().find(|f| f.path == abs && f.exists && !f.is_dir && !f.is_fifo) {
        f.data = Bytes(b);
        c.tags.push("old_like_new".into());
    }
}

fn out_abs(o: &Option<String>) -> Option<String> {
    o.as_ref().map(|o| if o.starts_with('/') { o.clone() } else { format!("/w/{}", o.trim_start_matches("./")) })
}

fn show(b: &[u8]) -> String {
    format!("{:?}", clip(&String::from_utf8_lossy(b), 160))
}

pub fn check_cli(env: &CliEnv, c: &CliCase) -> Verdict {
    let mut v = Verdict::default();
    let out = exec(env, c);
    v.collect(&env.shm);
    let shm = &env.shm;
    let s = shm.s();
    for t in &c.tags {
        v.add(&format!("case_{}", t), 1);
    }
    if s.step_capped != 0 {
        v.fail("hang", "did not finish within the step limit".into());
        return v;
    }
    if s.hang != 0 {
        v.add("waits_for_ever", 1);
    }
    let killed = s.killed != 0;
    let expected: Result<String, String> = match &c.want {
        Want::Text(t) => reference(c, t),
        Want::Fail(_) | Want::Usage => Err(String::new()),
    };
    let oabs = out_abs(&c.output);
    let nworld = c.world.files.len();
    let mut final_out: Option<Vec<u8>> = None;
    let mut out_created = false;
    let mut changed: Vec<String> = vec![];
    let (si, ei) = (s.stdout_file as usize - 1, s.stderr_file as usize - 1);
    for i in 0..s.nfiles as usize {
        if i == si || i == ei {
            continue;
        }
        let f = &s.files[i];
        let path = cstr(&f.path);
        if path.is_empty() {
            continue;
        }
        let data = shm.data(f.data_off, f.data_len).to_vec();
        let (old_exists, old) = if i < nworld { (c.world.files[i].exists, c.world.files[i].data.0.clone()) } else { (false, vec![]) };
        let same_now = (f.exists != 0) == old_exists && (f.exists == 0 || data == old);
        if Some(&path) == oabs.as_ref() && !(i < nworld && c.world.files[i].is_dir) {
            final_out = if f.exists != 0 { Some(data.clone()) } else { None };
            out_created = f.created != 0;
            if !same_now || (f.truncated != 0 && !old.is_empty()) {
                changed.push(path);
            }
        } else if !same_now {
            changed.push(path);
        }
    }
    let desc = || format!("exit {:?}{} stdout {} stderr {}", out.code, out.signal.map(|x| format!(" signal {}", x)).unwrap_or_default(), show(&out.stdout), show(&out.stderr));
    let stderr_faulty = c.stderr.wr.events.iter().any(|e| matches!(e.1, Ev::Err(..)));
    let out_fault = {
        let wr = match &oabs {
            Some(p) => c.world.files.iter().find(|f| f.path == *p).map(|f| f.wr.clone()).unwrap_or_default(),
            None => c.stdout.wr.clone(),
        };
        let openw = oabs.as_ref().and_then(|p| c.world.files.iter().find(|f| f.path == *p)).map(|f| f.openw_err != 0 || f.is_dir).unwrap_or(false);
        openw || wr.events.iter().any(|e| matches!(e.1, Ev::Err(..)))
    };
    let p = c.prop.as_str();
    if killed {
        if let (Ok(code), Some(path)) = (&expected, &oabs) {
            let old = c.world.files.iter().find(|f| f.path == *path && f.exists).map(|f| f.data.0.clone());
            let ok = match &final_out {
                None => old.is_none(),
                Some(d) => old.as_ref() == Some(d) || code.as_bytes().starts_with(d),
            };
            if !ok {
                v.fail("torn_output", format!("killed at operation {}: the output file holds neither its old contents nor a prefix of the new code: {}", s.nops, show(final_out.as_deref().unwrap_or(b""))));
            }
        }
        for ch in &changed {
            if Some(ch) != oabs.as_ref() && c.world.files.iter().any(|f| f.path == *ch && f.exists) {
                v.fail("input_changed", format!("killed: {} was changed", ch));
            }
        }
        if p == "C16" {
            check_order(c, shm, &oabs, &mut v);
        }
        return v;
    }
    // exit status 0 means delivered
    if out.code == Some(0) {
        match &expected {
            Err(why) => v.fail("success_reported", format!("a failure was due ({}), but {}", if why.is_empty() { c.tags.join(",") } else { clip(why, 100) }, desc())),
            Ok(code) => {
                let got: &[u8] = match &oabs {
                    Some(_) => final_out.as_deref().unwrap_or(b"<no file>"),
                    None => &out.stdout,
                };
                if got != code.as_bytes() {
                    let d = diff_brief(&Outcome::Ok(code.clone()), &Outcome::Ok(String::from_utf8_lossy(got).into_owned()));
                    v.fail("wrong_output", format!("exit 0, but the output is not the generated code: expected {} found {}", d.0, d.1));
                }
                if oabs.is_some() && !out.stdout.is_empty() {
                    v.fail("stdout_not_empty", format!("-o given, but standard output received {}", show(&out.stdout)));
                }
            }
        }
    } else {
        if expected.is_ok() && !out_fault {
            v.fail("spurious_failure", format!("nothing stood in the way, but {}", desc()));
        }
        if out.signal.is_some() || out.code != Some(1) {
            v.fail("unclean_exit", format!("failed with something other than exit status 1: {}", desc()));
        }
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        if err.contains("panicked at") {
            v.fail("panic", format!("panicked: {}", desc()));
        }
        if !stderr_faulty {
            let plain = strip_ansi(&err);
            let okhead = match c.want {
                Want::Usage => plain.trim_start().starts_with("error:") || plain.trim_start().starts_with("Error:"),
                _ => plain.trim_start().starts_with("Error:") || (c.stderr.tty && plain.contains("Error:")),
            };
            if !okhead {
                v.fail("no_message", format!("no message starting with Error: on standard error: {}", desc()));
            } else if plain.split_once(':').map(|x| x.1.trim().is_empty()).unwrap_or(true) {
                v.fail("no_cause", format!("the message names no cause: {}", desc()));
            }
            if let Want::Fail(causes) = &c.want {
                if !causes.is_empty() && !causes.iter().any(|x| err.to_lowercase().contains(&x.to_lowercase())) {
                    v.fail("no_cause", format!("the message does not name the cause ({}): {}", causes.join("/"), desc()));
                }
            }
        }
        if expected.is_err() && p != "C13" {
            // no code anywhere
            let stdout_faulty = out_fault && oabs.is_none();
            if !out.stdout.is_empty() && !stdout_faulty {
                v.fail("code_on_failure", format!("failed, but standard output received {}", show(&out.stdout)));
            }
            let write_phase = c.tags.iter().any(|t| t == "write_error" || t == "output_unopenable");
            if !write_phase {
                if !changed.is_empty() || out_created {
                    v.fail("output_touched", format!("the run failed before generation succeeded, yet it changed or created {:?}: {}", if changed.is_empty() { vec![oabs.clone().unwrap_or_default()] } else { changed.clone() }, desc()));
                }
            }
        }
    }
    // nothing but the output may change
    for ch in &changed {
        if Some(ch) != oabs.as_ref() {
            v.fail("other_file_changed", format!("{} was created or changed: {}", ch, desc()));
        }
    }
    if p == "C15" && c.stdin.is_some() && out.code == Some(0) {
        if s.stdin_eof == 0 {
            v.fail("stdin_not_drained", format!("standard input was not read to its end ({} bytes read)", s.stdin_read));
        }
    }
    if matches!(p, "C15" | "C16") {
        check_order(c, shm, &oabs, &mut v);
    }
    if matches!(c.want, Want::Text(_)) && expected.is_ok() {
        v.add("runs_expected_ok", 1);
    }
    v.add(if out.code == Some(0) { "exit_0" } else { "exit_1" }, 1);
    v
}

/// No read of the input after the output was opened for writing or written to.
fn check_order(c: &CliCase, shm: &Shm, oabs: &Option<String>, v: &mut Verdict) {
    let s = shm.s();
    let mut opened: Option<usize> = None;
    for i in 0..(s.nops as usize).min(MAXOPS) {
        let o = &s.ops[i];
        match o.op {
            OP_OPEN => {
                let st = shm.op_str(i).unwrap_or_default();
                let w = (o.a as i32) & (libc::O_ACCMODE) != libc::O_RDONLY || (o.a as i32) & (libc::O_TRUNC | libc::O_CREAT) != 0;
                if w && Some(&st) == oabs.as_ref() && o.ret >= 0 && opened.is_none() {
                    opened = Some(i);
                }
            }
            OP_WRITE if o.fd == 1 && opened.is_none() && o.ret > 0 => opened = Some(i),
            OP_READ if opened.is_some() && o.ret >= 0 => {
                v.fail("read_after_open", format!("operation {}: input (fd {}) read after the output was opened at operation {}", i, o.fd, opened.unwrap()));
            }
            OP_RECV if opened.is_some() && o.ret > 0 && c.input.starts_with("http") => {
                v.fail("read_after_open", format!("operation {}: response read after the output was opened at operation {}", i, opened.unwrap()));
            }
            _ => {}
        }
    }
}

fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            if it.peek() == Some(&'[') {
                it.next();
                while let Some(d) = it.next() {
                    if d.is_ascii_alphabetic() {
                        break;
                    }
                }
            }
        } else if c != '\r' {
            out.push(c);
        }
    }
    out
}
