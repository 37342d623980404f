//! webgen IN OUT: answers requests from one FIFO on another until the first is closed.
//! Request: op, number of fields, then each field as length (u32, little endian) and bytes.
//! Answer: status, length, bytes. Status: 0 code, 1 error, 2 a panic (what the browser calls a
//! trap), 3 the process ended.
//! op 0: the wasm entry point `run`, in a session: a copy of the untouched process that lives
//!       from the first op 0 to the next op 3, as a worker's instance of the module does.
//! op 1: the same in a copy of its own.
//! op 2: the library, with the options set field by field, in a copy of its own.
//! op 4: the library, with the options as one JSON text, in a copy of its own.
//! op 3: ends the session; no answer.
use json_typegen_shared::{codegen, parse, ImportStyle, Options, OutputMode, StringTransform};
use std::fs::{File, OpenOptions};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(option: i32, arg: u64) -> i32;
    fn _exit(code: i32) -> !;
}

fn answer(out: &mut File, status: u8, text: &str) {
    let mut msg = vec![status];
    msg.extend((text.len() as u32).to_le_bytes());
    msg.extend(text.as_bytes());
    if out.write_all(&msg).is_err() {
        std::process::exit(0);
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    match e.downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => e.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
    }
}

fn guarded(f: impl FnOnce() -> (u8, String)) -> (u8, String) {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| (2, panic_text(e)))
}

fn plain(f: &[String]) -> (u8, String) {
    let block = if f[3] == "sql" { "{ input_mode: \"sql\" }" } else { "{}" };
    let mut o = parse::options(block).expect("options");
    o.output_mode = OutputMode::parse(&f[2]).expect("output mode");
    o.property_name_format = StringTransform::parse(&f[4]);
    o.import_style = ImportStyle::parse(&f[5]).expect("import style");
    o.unwrap = f[6].clone();
    o.collect_additional = f[7] == "true";
    o.infer_map_threshold = f[8].parse().ok();
    library(&f[0], &f[1], o)
}

fn from_json(f: &[String]) -> (u8, String) {
    match parse::options(&f[2]) {
        Ok(o) => library(&f[0], &f[1], o),
        Err(e) => (1, e),
    }
}

fn library(name: &str, input: &str, o: Options) -> (u8, String) {
    match codegen(name, input, o) {
        Ok(code) => (0, code),
        Err(e) => {
            // every cause, one per NUL-separated part
            let mut parts = vec![e.to_string()];
            let mut err: &dyn std::error::Error = &e;
            while let Some(s) = err.source() {
                parts.push(s.to_string());
                err = s;
            }
            (1, parts.join("\0"))
        }
    }
}

fn main() {
    unsafe { prctl(1, 9) };
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut input = File::open(&a[1]).unwrap();
    let mut out = OpenOptions::new().write(true).open(&a[2]).unwrap();
    let mut in_session = false;
    let mut pending: Option<(u8, Vec<String>)> = None;
    loop {
        let (op, f) = match pending.take() {
            Some(x) => x,
            None => {
                let mut h = [0u8; 2];
                if input.read_exact(&mut h).is_err() {
                    return;
                }
                let mut f = Vec::new();
                for _ in 0..h[1] {
                    let mut n = [0u8; 4];
                    input.read_exact(&mut n).unwrap();
                    let mut b = vec![0; u32::from_le_bytes(n) as usize];
                    input.read_exact(&mut b).unwrap();
                    f.push(String::from_utf8(b).unwrap());
                }
                (h[0], f)
            }
        };
        if op == 3 {
            if in_session {
                unsafe { _exit(0) };
            }
            continue;
        }
        let call = || match op {
            2 => plain(&f),
            4 => from_json(&f),
            _ => (0, json_typegen_wasm::run(&f[0], &f[1], &f[2])),
        };
        if in_session {
            let (s, t) = guarded(call);
            answer(&mut out, s, &t);
            continue;
        }
        match unsafe { fork() } {
            0 => {
                unsafe { prctl(1, 9) };
                if op == 0 {
                    in_session = true;
                    pending = Some((op, f));
                    continue;
                }
                let (s, t) = guarded(call);
                answer(&mut out, s, &t);
                unsafe { _exit(0) };
            }
            pid => {
                let mut st = 0;
                unsafe { waitpid(pid, &mut st, 0) };
                if st != 0 {
                    answer(&mut out, 3, &format!("the process ended with wait status {st}"));
                }
            }
        }
    }
}
