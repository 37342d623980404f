//! The real proc macro inside the real rustc; the sample files it reads are simulated.
use crate::cli::on_a_big_stack;
use crate::gen::*;
use crate::lib_exec::*;
use crate::props::*;
use crate::rng::Rng;
use crate::shm::*;
use crate::world::*;
use json_typegen_shared::{codegen, parse};
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MacCase {
    pub prop: String,
    pub seed: u64,
    pub world: World,
    pub name: String,
    pub input: String,
    pub options: String,
    pub want: MacWant,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tags: Vec<String>,
    /// how the invocation is written, a set of FORM_ bits
    #[serde(default)]
    pub form: u32,
    /// environment variables of the compiler
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub vars: Vec<(String, String)>,
}
/// What build tools, editors and people set.
const VARS: &[&str] = &[
    "DOCS_RS", "CI", "GITHUB_ACTIONS", "CARGO_PKG_NAME", "CARGO_PKG_VERSION", "CARGO_CRATE_NAME", "CARGO_MANIFEST_DIR", "CARGO_PRIMARY_PACKAGE", "OUT_DIR", "PROFILE", "DEBUG", "TARGET", "OPT_LEVEL",
    "CARGO_TARGET_DIR", "CARGO_NET_OFFLINE", "CARGO_FEATURE_LOCAL_SAMPLES", "CARGO_WORKSPACE_DIR", "RUST_ANALYZER_INTERNALS_DO_NOT_USE", "RUST_LOG_STYLE", "JSON_TYPEGEN", "JSON_TYPEGEN_OPTIONS",
    "JSON_TYPEGEN_SAMPLE", "JSON_TYPEGEN_OFFLINE", "JSON_TYPEGEN_DEBUG", "JSON_TYPEGEN_CACHE", "USER", "LOGNAME", "LC_ALL", "LANG", "TZ", "HOME", "PWD", "XDG_CACHE_HOME", "SOURCE_DATE_EPOCH", "http_proxy", "NO_PROXY",
];
const FORM_NAME_QUOTED: u32 = 1;
const FORM_SAMPLE_QUOTED: u32 = 2;
const FORM_OPTIONS_STRING: u32 = 4;
const FORM_OPTIONS_QUOTED: u32 = 8;
const FORM_SPREAD: u32 = 16;
const FORM_BRACES: u32 = 32;
const FORM_NO_OPTIONS: u32 = 64;
const FORM_IN_MODULE: u32 = 128;
const FORM_BROKEN_LINE: u32 = 256;
const FORM_TWICE: u32 = 512;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum MacWant {
    /// what the library makes of this text
    Text(String),
    /// a compile error whose text contains one of these
    Fail(Vec<String>),
}

pub struct MacEnv {
    pub rustc: String,
    pub so: String,
    pub stub: String,
    pub preload: String,
    pub dir: String,
    pub shm: Shm,
}
impl MacEnv {
    pub fn new() -> MacEnv {
        let dir = format!("{}/mac-{}", std::env::var("SIM_TMP").expect("SIM_TMP"), std::process::id());
        std::fs::create_dir_all(&dir).unwrap();
        MacEnv {
            rustc: std::env::var("SIM_RUSTC").expect("SIM_RUSTC"),
            so: std::env::var("SIM_MACRO_SO").expect("SIM_MACRO_SO"),
            stub: std::env::var("SIM_STUB_SO").expect("SIM_STUB_SO"),
            preload: std::env::var("SIM_PRELOAD").expect("SIM_PRELOAD"),
            dir,
            shm: Shm::create(),
        }
    }
}
impl Drop for MacEnv {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn strings(s: &str) -> String {
    // a raw string literal that can hold the text
    let mut n = 1;
    while s.contains(&format!("\"{}", "#".repeat(n))) {
        n += 1;
    }
    let h = "#".repeat(n);
    format!("r{}\"{}\"{}", h, s, h)
}

/// An ordinary string literal for the text.
fn quoted(s: &str, broken_line: bool) -> String {
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        // a backslash at the end of a line hides the break and the space that follows
        if broken_line && i == s.chars().count() / 2 && !c.is_whitespace() {
            o.push_str("\\\n      ");
        }
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\0' => o.push_str("\\0"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c if (c as u32) > 0x2fff && i % 2 == 0 => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The three arguments as they stand in the source.
fn arguments(c: &MacCase) -> (String, String, Option<String>) {
    let f = |b: u32| c.form & b != 0;
    let name = if f(FORM_NAME_QUOTED) { quoted(&c.name, false) } else { strings(&c.name) };
    let sample = if f(FORM_SAMPLE_QUOTED) { quoted(&c.input, f(FORM_BROKEN_LINE)) } else { strings(&c.input) };
    let options = if f(FORM_NO_OPTIONS) {
        None
    } else if f(FORM_OPTIONS_STRING) {
        Some(if f(FORM_OPTIONS_QUOTED) { quoted(&c.options, false) } else { strings(&c.options) })
    } else {
        Some(c.options.clone())
    };
    (name, sample, options)
}

const NOTE: &str = "/* a note, with \"quotes\" */ // and a , comma\n";

fn invocation(c: &MacCase) -> String {
    let f = |b: u32| c.form & b != 0;
    let (name, sample, options) = arguments(c);
    let (sp, note) = if f(FORM_SPREAD) { ("\n        ", NOTE) } else { (" ", "") };
    let mut args = format!("{}{}{},{}{}", sp.trim_start_matches(' '), note, name, sp, sample);
    if let Some(o) = options {
        args.push_str(&format!(",{}{}{}", sp, note, o));
    }
    let one = if f(FORM_BRACES) { format!("json_typegen::json_typegen! {{{}}}\n", args) } else { format!("json_typegen::json_typegen!({});\n", args) };
    wrapped(c, &one)
}

/// The code where the invocation is to stand.
fn wrapped(c: &MacCase, code: &str) -> String {
    let mut s = if c.form & FORM_IN_MODULE != 0 { format!("pub mod inner {{\n{}\n}}\n", code) } else { code.to_string() };
    if c.form & FORM_TWICE != 0 {
        s.push_str(&format!("pub mod again {{\n{}\n}}\n", code));
    }
    s
}

pub struct MacOut {
    pub ok: bool,
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

fn rustc(env: &MacEnv, src: &str, vars: &[(String, String)], sim: bool) -> MacOut {
    let file = format!("{}/case.rs", env.dir);
    std::fs::write(&file, src).unwrap();
    let mut c = Command::new(&env.rustc);
    c.arg("--edition=2021")
        .arg("--crate-type=lib")
        .arg("--crate-name=case")
        .arg("-Zunpretty=expanded")
        .arg("--extern")
        .arg(format!("json_typegen={}", env.so))
        .arg("--extern")
        .arg(format!("serde_derive={}", env.stub))
        .arg(&file)
        .envs(vars.iter().map(|v| (&v.0, &v.1)))
        .env("RUSTC_BOOTSTRAP", "1")
        .env("RUST_BACKTRACE", "0")
        .env("RUSTC_ICE", "0")
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if sim {
        c.env("LD_PRELOAD", &env.preload).env("SIMOS_FD", env.shm.fd.to_string()).env("SIMOS_MODE", "prefix");
    } else {
        c.env_remove("LD_PRELOAD");
    }
    let o = c.output().expect("cannot start rustc");
    MacOut {
        ok: o.status.success(),
        code: o.status.code(),
        stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

fn header() -> &'static str {
    "#![allow(warnings)]\nextern crate serde_derive;\n"
}

pub fn gen_mac(seed: u64) -> MacCase {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let s = if r.chance(1) && r.chance(50) {
        straddling(r, (1 << 20) + 70_000, 300)
    } else {
        sample(r, 8, 8)
    };
    let mut o: Vec<String> = vec!["output_mode: \"rust\"".into()];
    if r.chance(70) {
        o.push(format!("import_style: \"{}\"", r.pick(&["qualified_paths", "assume_existing", "add_imports"])));
    }
    if r.chance(60) {
        o.push("derives: \"Debug\"".into());
    }
    if r.chance(20) {
        o.push("infer_map_threshold: \"2\"".into());
    }
    if r.chance(40) {
        if let Some(p) = pointer(r, &s.value, false) {
            o.push(format!("\"{}\": {{ use_type: \"Foo\" }}", p));
        }
    }
    let name = if r.chance(50) { "Root".to_string() } else { r.pick(&["Point", "pub Thing", "pub(crate) Bar"]).to_string() };
    let mut w = World { sim_seed: r.next(), rand_seed: r.next(), ..Default::default() };
    // a bare CR is not allowed in the raw string literals of the invocation
    let s = Sample { text: s.text.replace('\r', " "), ..s };
    let b = s.text.as_bytes();
    let mut tags = vec![];
    // also relative to the directory the compiler runs in
    let (p, abs) = *r.pick(&[("/sim/sample.json", "/sim/sample.json"), ("/sim/sample.json", "/sim/sample.json"), ("sim/sample.json", "/w/sim/sample.json"), ("./sim/sample.json", "/w/sim/sample.json"), ("sim/dir/../s.json", "/w/sim/s.json")]);
    let (input, want) = match r.below(12) {
        0 if s.is_container() => {
            tags.push("inline");
            (s.text.clone(), MacWant::Text(s.text.clone()))
        }
        1..=4 => {
            tags.push("file");
            let mut f = FileSpec::new(abs, b);
            f.rd = delivery(r, b, true, false);
            w.files.push(f);
            (p.to_string(), MacWant::Text(s.text.clone()))
        }
        5 => {
            tags.push("missing");
            w.files.push(FileSpec::missing(abs));
            (p.to_string(), MacWant::Fail(vec!["No such file".into()]))
        }
        6 => {
            tags.push("unreadable");
            let mut f = FileSpec::new(abs, b);
            f.open_err = libc::EACCES;
            w.files.push(f);
            (p.to_string(), MacWant::Fail(vec!["ermission denied".into()]))
        }
        7 | 8 => {
            tags.push("read_error");
            let mut f = FileSpec::new(abs, b);
            f.rd = delivery(r, b, true, false);
            f.rd.add(r.below(s.end as u64), Ev::Err(errno_read(r), 0));
            w.files.push(f);
            (p.to_string(), MacWant::Fail(vec!["IO".into(), "I/O".into(), "read".into()]))
        }
        9 if s.closed() => {
            tags.push("truncated");
            let mut f = FileSpec::new(abs, b);
            f.rd = delivery(r, b, true, false);
            f.rd.add(r.below(s.end as u64), Ev::Eof);
            w.files.push(f);
            (p.to_string(), MacWant::Fail(vec!["end of input".into(), "JSON".into()]))
        }
        10 if s.is_container() && s.end > s.start + 2 => {
            tags.push("inline_truncated");
            let mut k = s.start + 1 + r.us(s.end - s.start - 1);
            while !s.text.is_char_boundary(k) {
                k -= 1;
            }
            (s.text[..k].to_string(), MacWant::Fail(vec!["end of input".into(), "JSON".into()]))
        }
        _ => {
            tags.push("damaged");
            let d = damage(r, b);
            let mut f = FileSpec::new(abs, &d);
            f.rd = delivery(r, &d, true, false);
            w.files.push(f);
            match String::from_utf8(d) {
                Ok(t) if t.trim_start_matches([' ', '\n', '\t', '\r']).starts_with(['{', '[']) => (p.to_string(), MacWant::Text(t)),
                _ => (p.to_string(), MacWant::Fail(vec![])),
            }
        }
    };
    let mut c = MacCase {
        prop: "C18".into(),
        seed,
        world: w,
        name,
        input,
        options: format!("{{ {} }}", o.join(", ")),
        want,
        tags: tags.into_iter().map(|x| x.to_string()).collect(),
        form: 0,
        vars: vec![],
    };
    if r.chance(50) {
        for k in VARS {
            if r.chance(20) {
                c.vars.push((k.to_string(), r.pick(&["1", "true", "0", "", "/sim/elsewhere", "/", "/tmp", ".", "C", "{}", "release", "http://proxy.test:3128", "typescript"]).to_string()));
            }
        }
    }
    if r.chance(60) {
        for _ in 0..r.range(1, 4) {
            c.form |= 1 << r.below(10);
        }
        if c.form & (FORM_SAMPLE_QUOTED | FORM_BROKEN_LINE) == FORM_BROKEN_LINE {
            c.form &= !FORM_BROKEN_LINE;
        }
        if c.form & FORM_TWICE != 0 && c.tags[0] == "file" && r.chance(40) {
            c.world.files[0].open_limit = 1;
            c.want = MacWant::Fail(vec!["No such file".into()]);
            c.tags[0] = "gone_the_second_time".into();
        } else if c.form & FORM_TWICE != 0 && !c.world.files.is_empty() && c.tags[0] != "file" {
            // a fault happens once
            c.form &= !FORM_TWICE;
        }
    }
    if let (MacWant::Fail(v), true) = (&c.want, c.tags[0] == "damaged") {
        if v.is_empty() {
            // root is not a container any more: anything but a panic
            c.tags.push("any".into());
        }
    }
    c
}

fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Code with only the space it needs, except inside string literals.
fn layout_free(s: &str) -> String {
    let mut space = false;
    let mut out = String::new();
    // rustc prints the comments of the source along
    let s = s.replace("/* a note, with \"quotes\" */", " ").replace("// and a , comma", " ");
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '"' {
            out.push(c);
            while let Some(c) = it.next() {
                out.push(c);
                if c == '\\' {
                    out.extend(it.next());
                } else if c == '"' {
                    break;
                }
            }
            space = false;
        } else if c.is_whitespace() {
            space = true;
        } else {
            let word = |c: char| c == '_' || c.is_alphanumeric();
            if space && word(c) && out.chars().next_back().map(word).unwrap_or(false) {
                out.push(' ');
            }
            space = false;
            out.push(c);
        }
    }
    out
}

/// What the library makes of this text, or nothing if it panics.
fn library(env: &MacEnv, c: &MacCase, t: &str) -> Option<Result<String, String>> {
            // only text that starts like a container can be given inline
            let container = t.trim_start_matches([' ', '\n', '\t', '\r']).starts_with(['{', '[']);
            let same = if container || c.tags.iter().any(|t| t == "inline") {
                t.to_string()
            } else {
                let f = format!("{}/reference.json", env.dir);
                std::fs::write(&f, t).unwrap();
                f
            };
            on_a_big_stack(|| {
                let m = parse::macro_input(&match c.form & FORM_NO_OPTIONS {
                    0 => format!("{}, {}, {}", strings(&c.name), strings("x"), c.options),
                    _ => format!("{}, {}", strings(&c.name), strings("x")),
                })?;
                codegen(&c.name, &same, m.options).map_err(|e| json_typegen_shared::internal_util::display_error_with_causes(&e))
            })
    .ok()
}

pub fn check_mac(env: &MacEnv, c: &MacCase) -> Verdict {
    let mut v = Verdict::default();
    c.world.install(&env.shm);
    set_cstr(&mut env.shm.s().prefix, "/sim/");
    let src = format!("{}{}", header(), invocation(c));
    let out = rustc(env, &src, &c.vars, true);
    v.collect(&env.shm);
    for t in &c.tags {
        v.add(&format!("case_{}", t), 1);
    }
    if let Some(f) = c.world.files.iter().find(|f| f.open_limit > 0) {
        // the first expansion has to be Rust for the second to be seen
        let t = String::from_utf8(f.data.0.clone()).unwrap_or_default();
        let rust = match library(env, c, &t) {
            Some(Ok(code)) => rustc(env, &format!("{}{}", header(), code), &[], false).ok,
            _ => false,
        };
        if !rust {
            v.add("library_code_is_no_rust", 1);
            return v;
        }
    }
    let err = clip(&out.stderr, 500);
    if out.stderr.contains("panicked") || out.code.is_none() {
        if let MacWant::Text(t) = &c.want {
            // code the library generates is Rust only if keys allow it (C41): the macro can do
            // nothing with code that does not even consist of tokens
            if let Some(Ok(code)) = library(env, c, t) {
                let b = rustc(env, &format!("{}{}", header(), code), &[], false);
                if !b.ok {
                    v.add("library_code_is_no_rust", 1);
                    return v;
                }
            }
        }
        v.fail("panic", format!("the macro panicked instead of reporting a compile error: {}", err));
        return v;
    }
    let failed = !out.ok && out.stderr.contains("error");
    match &c.want {
        MacWant::Fail(causes) => {
            if c.tags.iter().any(|t| t == "any") {
                return v;
            }
            if !failed {
                v.fail("compiles", format!("the sample could not be read, but compilation succeeds with: {}", clip(&out.stdout, 300)));
            } else if !causes.is_empty() && !causes.iter().any(|x| out.stderr.to_lowercase().contains(&x.to_lowercase())) {
                v.fail("no_cause", format!("the compile error does not name the cause ({}): {}", causes.join("/"), err));
            }
        }
        MacWant::Text(t) => {
            match library(env, c, t) {
                None => {}
                Some(Err(why)) => {
                    if !failed {
                        v.fail("compiles", format!("the library rejects this sample ({}), but the macro compiles to: {}", why, clip(&out.stdout, 300)));
                    } else if !norm(&out.stderr).contains(&norm(why.lines().last().unwrap_or("").trim().trim_start_matches("Caused by:").trim())) {
                        v.fail("no_cause", format!("the compile error does not name the cause ({}): {}", why, err));
                    }
                }
                Some(Ok(code)) => {
                    let b = rustc(env, &format!("{}{}", header(), wrapped(c, &code)), &[], false);
                    v.add("expansions_compared", 1);
                    // names may clash or be invalid in the generated code itself; that is the
                    // library's doing and shows on both sides
                    let (x, y) = (layout_free(&out.stdout), layout_free(&b.stdout));
                    if x != y {
                        let d = diff_brief(&Outcome::Ok(y), &Outcome::Ok(x));
                        v.fail("differs", format!("the expansion is not the library's code: library {} macro {} {}", d.0, d.1, err));
                    } else if out.ok != b.ok {
                        v.fail("differs", format!("compiles as macro: {}, compiles as library output: {}; {}", out.ok, b.ok, err));
                    }
                }
            }
        }
    }
    v
}
