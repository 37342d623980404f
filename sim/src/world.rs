//! The simulated environment of a run, as explicit data: what a replay file contains.
use crate::shm::*;
use serde::{Deserialize, Serialize};

/// Bytes, written as text in replay files when they are UTF-8 and short of surprises.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Bytes(pub Vec<u8>);

impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.starts_with("hex:") => s.serialize_str(t),
            _ => {
                let mut h = String::from("hex:");
                for b in &self.0 {
                    h.push_str(&format!("{:02x}", b));
                }
                s.serialize_str(&h)
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(h) = s.strip_prefix("hex:") {
            let v = (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
                .collect();
            Ok(Bytes(v))
        } else {
            Ok(Bytes(s.into_bytes()))
        }
    }
}

/// One fault or delivery event at a byte offset of a transfer.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Ev {
    /// a transfer ends exactly here
    Split,
    /// this many calls are interrupted before the byte moves
    Eintr(u32),
    /// fails with this errno, this many times (0: from now on)
    Err(i32, u32),
    /// end of file here
    Eof,
    /// nothing moves for this many milliseconds
    Delay(u32),
    /// nothing moves ever again
    Stall,
    /// the process is killed here
    Kill,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Script {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub events: Vec<(u64, Ev)>,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub chunk: u32,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub jitter: bool,
}
fn is_zero(x: &u32) -> bool {
    *x == 0
}
impl Script {
    pub fn is_empty(&self) -> bool {
        self.events.is_empty() && self.chunk == 0
    }
    pub fn add(&mut self, off: u64, ev: Ev) {
        self.events.push((off, ev));
        self.events.sort_by_key(|e| e.0);
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec {
    pub path: String,
    pub exists: bool,
    #[serde(default)]
    pub is_dir: bool,
    #[serde(default)]
    pub is_fifo: bool,
    #[serde(default)]
    pub data: Bytes,
    #[serde(default)]
    pub open_err: i32,
    #[serde(default)]
    pub openw_err: i32,
    #[serde(default)]
    pub stat_err: i32,
    #[serde(default)]
    pub fake_size: Option<i64>,
    /// gone once it was opened this often, 0: never
    #[serde(default, skip_serializing_if = "is_zero")]
    pub open_limit: u32,
    #[serde(default, skip_serializing_if = "Script::is_empty")]
    pub rd: Script,
    #[serde(default, skip_serializing_if = "Script::is_empty")]
    pub wr: Script,
}
impl FileSpec {
    pub fn new(path: &str, data: &[u8]) -> FileSpec {
        FileSpec {
            path: path.into(),
            exists: true,
            is_dir: false,
            is_fifo: false,
            data: Bytes(data.to_vec()),
            open_err: 0,
            openw_err: 0,
            stat_err: 0,
            fake_size: None,
            open_limit: 0,
            rd: Script::default(),
            wr: Script::default(),
        }
    }
    pub fn missing(path: &str) -> FileSpec {
        let mut f = FileSpec::new(path, b"");
        f.exists = false;
        f
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct HostSpec {
    pub name: String,
    pub rc: i32,
    pub addrs: Vec<u32>,
    #[serde(default)]
    pub delay_ms: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum EpKind {
    Ok,
    Err(i32),
    Timeout,
    /// accepts, then answers anything with these bytes
    Raw(Bytes, Script),
    /// accepts and never answers
    Silent,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct EpSpec {
    pub ip: u32,
    pub port: u32,
    pub kind: EpKind,
    #[serde(default)]
    pub delay_ms: u32,
    #[serde(default, skip_serializing_if = "Script::is_empty")]
    pub wr: Script,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Framing {
    /// announced length = real length + delta
    Length(i64),
    /// chunk sizes, cycled
    Chunked(Vec<u32>),
    /// ends when the connection closes
    Close,
    /// exactly these bytes after the status line and headers, no framing header
    Raw(Bytes),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RespSpec {
    pub status: u32,
    pub headers: Vec<(String, String)>,
    pub framing: Framing,
    #[serde(default)]
    pub gzip: bool,
    pub body: Bytes,
    /// the wire image ends after this many bytes
    #[serde(default)]
    pub cut: Option<u64>,
    pub close: bool,
    #[serde(default, skip_serializing_if = "Script::is_empty")]
    pub rd: Script,
    /// replaces the whole status line when set
    #[serde(default)]
    pub status_line: Option<String>,
    /// how the same response is put on the wire otherwise: DRESS_* bits
    #[serde(default, skip_serializing_if = "is_zero")]
    pub dress: u32,
}
/// HTTP/1.0 (not with chunks, which it has not got)
pub const DRESS_10: u32 = 1;
/// no reason phrase
pub const DRESS_BARE: u32 = 2;
/// extensions after a chunk's size
pub const DRESS_EXT: u32 = 4;
/// zeros before a chunk's size, and capital letters in it
pub const DRESS_SIZES: u32 = 8;
/// header fields after the last chunk
pub const DRESS_TRAILER: u32 = 16;
/// no space after a colon
pub const DRESS_TIGHT: u32 = 32;
/// space around the values
pub const DRESS_LOOSE: u32 = 64;
/// field names in capitals
pub const DRESS_CAPS: u32 = 128;
/// an interim response goes before this one
pub const DRESS_INTERIM: u32 = 256;
impl RespSpec {
    pub fn ok(body: &[u8], framing: Framing) -> RespSpec {
        let close = matches!(framing, Framing::Close | Framing::Raw(_));
        RespSpec {
            status: 200,
            headers: vec![("Content-Type".into(), "application/json".into())],
            framing,
            gzip: false,
            body: Bytes(body.to_vec()),
            cut: None,
            close,
            rd: Script::default(),
            status_line: None,
            dress: 0,
        }
    }
    /// (header bytes, body bytes as on the wire)
    pub fn wire_parts(&self) -> (Vec<u8>, Vec<u8>) {
        let payload = if self.gzip {
            use std::io::Write;
            let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
            e.write_all(&self.body.0).unwrap();
            e.finish().unwrap()
        } else {
            self.body.0.clone()
        };
        let on = |bit: u32| self.dress & bit != 0;
        let mut h = String::new();
        if on(DRESS_INTERIM) {
            h.push_str("HTTP/1.1 103 Early Hints\r\nLink: </style.css>; rel=preload\r\n\r\n");
        }
        match &self.status_line {
            Some(l) => h.push_str(&format!("{}\r\n", l)),
            None => {
                let v = if on(DRESS_10) && !matches!(self.framing, Framing::Chunked(_)) { "1.0" } else { "1.1" };
                h.push_str(&format!("HTTP/{} {} {}\r\n", v, self.status, if on(DRESS_BARE) { "" } else { reason(self.status) }));
            }
        }
        let mut field = |k: &str, v: &str| {
            let k = if on(DRESS_CAPS) { k.to_uppercase() } else { k.to_string() };
            let (a, b) = if on(DRESS_TIGHT) {
                ("", "")
            } else if on(DRESS_LOOSE) {
                (" \t ", "  ")
            } else {
                (" ", "")
            };
            h.push_str(&format!("{}:{}{}{}\r\n", k, a, v, b));
        };
        for (k, v) in &self.headers {
            field(k, v);
        }
        if self.gzip {
            field("Content-Encoding", "gzip");
        }
        let body = match &self.framing {
            Framing::Length(d) => {
                field("Content-Length", &(payload.len() as i64 + d).max(0).to_string());
                payload
            }
            Framing::Chunked(sizes) => {
                field("Transfer-Encoding", "chunked");
                let mut b = Vec::new();
                let (mut i, mut pos) = (0, 0);
                while pos < payload.len() {
                    let n = (*sizes.get(i % sizes.len().max(1)).unwrap_or(&4096)).max(1) as usize;
                    let n = n.min(payload.len() - pos);
                    let size = match (on(DRESS_SIZES), i % 3) {
                        (true, 0) => format!("{:04X}", n),
                        (true, 1) => format!("{:X}", n),
                        _ => format!("{:x}", n),
                    };
                    b.extend_from_slice(size.as_bytes());
                    if on(DRESS_EXT) {
                        b.extend_from_slice([&b";x=y"[..], b";q=\"a b\"", b" ; ten=10", b""][i % 4]);
                    }
                    b.extend_from_slice(b"\r\n");
                    b.extend_from_slice(&payload[pos..pos + n]);
                    b.extend_from_slice(b"\r\n");
                    pos += n;
                    i += 1;
                }
                b.extend_from_slice(if on(DRESS_SIZES) { b"000" } else { b"0" });
                if on(DRESS_EXT) {
                    b.extend_from_slice(b";last");
                }
                b.extend_from_slice(b"\r\n");
                if on(DRESS_TRAILER) {
                    b.extend_from_slice(b"X-Checksum: 0\r\nExpires: never\r\n");
                }
                b.extend_from_slice(b"\r\n");
                b
            }
            Framing::Close => payload,
            Framing::Raw(r) => r.0.clone(),
        };
        if self.close {
            field("Connection", "close");
        }
        h.push_str("\r\n");
        (h.into_bytes(), body)
    }
    pub fn wire(&self) -> Vec<u8> {
        let (mut h, b) = self.wire_parts();
        h.extend_from_slice(&b);
        if let Some(c) = self.cut {
            h.truncate(c as usize);
        }
        h
    }
}
fn reason(s: u32) -> &'static str {
    match s {
        200 => "OK",
        301 => "Moved Permanently",
        302 => "Found",
        303 => "See Other",
        307 => "Temporary Redirect",
        308 => "Permanent Redirect",
        201 => "Created",
        203 => "Non-Authoritative Information",
        400 => "Bad Request",
        401 => "Unauthorized",
        403 => "Forbidden",
        404 => "Not Found",
        410 => "Gone",
        429 => "Too Many Requests",
        500 => "Internal Server Error",
        502 => "Bad Gateway",
        503 => "Service Unavailable",
        504 => "Gateway Timeout",
        _ => "Status",
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RouteSpec {
    #[serde(default)]
    pub ep: Option<usize>,
    pub host: String,
    pub path: String,
    pub resp: RespSpec,
    #[serde(default)]
    pub max_uses: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct World {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub files: Vec<FileSpec>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub hosts: Vec<HostSpec>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub eps: Vec<EpSpec>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub routes: Vec<RouteSpec>,
    #[serde(default)]
    pub fd_limit: u32,
    #[serde(default)]
    pub tick_ns: u64,
    #[serde(default)]
    pub clock_ns: i64,
    #[serde(default)]
    pub rand_seed: u64,
    #[serde(default)]
    pub sim_seed: u64,
    #[serde(default)]
    pub step_cap: u64,
    /// when not empty, what every environment variable that is not set seems to hold
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub env_any: String,
    /// when set, every path, name, address and target that has no record of its own answers with this sample
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub elsewhere: Option<Bytes>,
}

fn put_script(shm: &Shm, sc: &Script) -> SimScript {
    let s = shm.s();
    let start = s.nevents;
    let mut evs: Vec<&(u64, Ev)> = sc.events.iter().collect();
    evs.sort_by_key(|e| e.0);
    for (off, e) in evs {
        let (kind, arg, arg2) = match e {
            Ev::Split => (EV_SPLIT, 0, 0),
            Ev::Eintr(n) => (EV_EINTR, *n, 0),
            Ev::Err(n, c) => (EV_ERR, *n as u32, *c),
            Ev::Eof => (EV_EOF, 0, 0),
            Ev::Delay(ms) => (EV_DELAY, *ms, 0),
            Ev::Stall => (EV_STALL, 0, 0),
            Ev::Kill => (EV_KILL, 0, 0),
        };
        let i = s.nevents as usize;
        assert!(i < MAXEVENTS, "too many events in a plan");
        s.events[i] = SimEvent { off: *off, kind, arg, arg2, pad: 0 };
        s.nevents += 1;
    }
    SimScript { ev_start: start, ev_n: s.nevents - start, chunk: sc.chunk, jitter: sc.jitter as u32 }
}

pub fn put_stream(shm: &Shm, bytes: &[u8], sc: &Script) -> usize {
    let s = shm.s();
    let i = s.nstreams as usize;
    assert!(i < MAXSTREAMS, "too many streams");
    let (off, len) = shm.alloc(bytes, 0);
    let rd = put_script(shm, sc);
    s.streams[i] = SimStream { data_off: off, data_len: len, rd };
    s.nstreams += 1;
    i
}

pub fn put_file(shm: &Shm, f: &FileSpec, spare: u64) -> usize {
    let s = shm.s();
    let i = s.nfiles as usize;
    assert!(i < MAXFILES, "too many files");
    let (off, len) = shm.alloc(&f.data.0, spare);
    let rd = put_script(shm, &f.rd);
    let wr = put_script(shm, &f.wr);
    let x = &mut s.files[i];
    *x = unsafe { std::mem::zeroed() };
    set_cstr(&mut x.path, &f.path);
    x.exists = f.exists as u32;
    x.is_dir = f.is_dir as u32;
    x.is_fifo = f.is_fifo as u32;
    x.open_err = f.open_err;
    x.openw_err = f.openw_err;
    x.stat_err = f.stat_err;
    x.fake_size = f.fake_size.unwrap_or(-1);
    x.open_limit = f.open_limit;
    x.data_off = off;
    x.data_len = len;
    x.data_cap = len + spare;
    x.rd = rd;
    x.wr = wr;
    s.nfiles += 1;
    i
}

impl World {
    /// Writes the world into the plan block; results are cleared by the simulator when a run starts.
    pub fn install(&self, shm: &Shm) {
        let s = shm.s();
        s.nfiles = 0;
        s.nstreams = 0;
        s.nevents = 0;
        s.nhosts = 0;
        s.neps = 0;
        s.nroutes = 0;
        s.data_used = 64;
        s.sched_n = 0;
        s.switch_pct = 50;
        s.fd_limit = self.fd_limit;
        s.tick_ns = if self.tick_ns == 0 { 1000 } else { self.tick_ns };
        s.clock_start_ns = if self.clock_ns == 0 { 1_700_000_000_000_000_000 } else { self.clock_ns };
        s.mono_start_ns = 5_000_000_000_000 + (self.clock_ns & 0xffff_ffff);
        s.rand_seed = self.rand_seed;
        s.seed = self.sim_seed;
        // a progress bar may be redrawn byte by byte after every byte read
        let bytes: usize = self.files.iter().map(|f| f.data.0.len()).sum();
        s.step_cap = if self.step_cap == 0 { 20_000_000 } else { self.step_cap } + 200 * bytes as u64;
        s.kill_at_op = 0;
        s.tty_mask = 0;
        s.stdin_stream = 0;
        s.stdout_file = 0;
        s.stderr_file = 0;
        set_cstr(&mut s.cwd, "/w");
        set_cstr(&mut s.prefix, "");
        set_cstr(&mut s.env_any, &self.env_any);
        for f in &self.files {
            put_file(shm, f, 0);
        }
        for (i, h) in self.hosts.iter().enumerate() {
            let x = &mut s.hosts[i];
            *x = unsafe { std::mem::zeroed() };
            set_cstr(&mut x.name, &h.name);
            x.rc = h.rc;
            x.naddrs = h.addrs.len().min(MAXADDRS) as u32;
            for (k, a) in h.addrs.iter().take(MAXADDRS).enumerate() {
                x.addrs[k] = *a;
            }
            x.delay_ms = h.delay_ms;
            s.nhosts += 1;
        }
        for (i, e) in self.eps.iter().enumerate() {
            let wr = put_script(shm, &e.wr);
            let raw = match &e.kind {
                EpKind::Raw(b, sc) => put_stream(shm, &b.0, sc) as i32,
                EpKind::Silent => {
                    let mut sc = Script::default();
                    sc.add(0, Ev::Stall);
                    put_stream(shm, b"x", &sc) as i32
                }
                _ => -1,
            };
            let x = &mut s.eps[i];
            *x = unsafe { std::mem::zeroed() };
            x.ip = e.ip;
            x.port = e.port;
            x.delay_ms = e.delay_ms;
            x.raw_stream = raw;
            x.raw_close = 1;
            match &e.kind {
                EpKind::Err(n) => {
                    x.behaviour = 1;
                    x.err = *n;
                }
                EpKind::Timeout => x.behaviour = 2,
                _ => x.behaviour = 0,
            }
            x.wr = wr;
            s.neps += 1;
        }
        for (i, r) in self.routes.iter().enumerate() {
            let wire = r.resp.wire();
            let st = put_stream(shm, &wire, &r.resp.rd) as i32;
            let x = &mut s.routes[i];
            *x = unsafe { std::mem::zeroed() };
            x.ep = r.ep.map(|e| e as i32).unwrap_or(-1);
            set_cstr(&mut x.host, &r.host);
            set_cstr(&mut x.path, &r.path);
            x.stream = st;
            x.close_after = (r.resp.close || r.resp.cut.is_some()) as u32;
            x.max_uses = r.max_uses;
            s.nroutes += 1;
        }
        if let Some(b) = &self.elsewhere {
            put_file(shm, &FileSpec::new("*", &b.0), 0);
            let x = &mut s.hosts[s.nhosts as usize];
            *x = unsafe { std::mem::zeroed() };
            set_cstr(&mut x.name, "*");
            x.naddrs = 1;
            x.addrs[0] = 0xC0A8_0001;
            s.nhosts += 1;
            let wr = put_script(shm, &Script::default());
            let x = &mut s.eps[s.neps as usize];
            *x = unsafe { std::mem::zeroed() };
            x.ip = 0xFFFF_FFFF;
            x.raw_stream = -1;
            x.wr = wr;
            s.neps += 1;
            // last, so that it answers only what no other route does
            let st = put_stream(shm, &RespSpec::ok(&b.0, Framing::Length(0)).wire(), &Script::default()) as i32;
            let x = &mut s.routes[s.nroutes as usize];
            *x = unsafe { std::mem::zeroed() };
            x.ep = -1;
            set_cstr(&mut x.path, "*");
            x.stream = st;
            s.nroutes += 1;
        }
    }
}
