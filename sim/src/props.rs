//! What each library property means for a run: case generation and the check of its outcome.
use crate::gen::*;
use crate::lib_exec::*;
use crate::rng::Rng;
use crate::shm::*;
use crate::world::*;

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    /// (stable kind of the violation, human-readable account)
    pub violation: Option<(String, String)>,
    pub trace: u64,
    pub sim_ns: u64,
    pub execs: u32,
    pub stats: Vec<(String, u64)>,
    pub info: String,
}
impl Verdict {
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.stats.iter_mut().find(|(x, _)| x == k) {
            Some((_, v)) => *v += n,
            None => self.stats.push((k.to_string(), n)),
        }
    }
    pub fn fail(&mut self, kind: &str, what: String) {
        if self.violation.is_none() {
            self.violation = Some((kind.to_string(), what));
        }
    }
    pub fn collect(&mut self, shm: &Shm) {
        let s = shm.s();
        let t = s.trace_hash;
        self.trace = if self.execs == 0 { t } else { crate::rng::mix(self.trace ^ t) };
        self.sim_ns += s.now_ns;
        self.execs += 1;
        for (k, n) in [
            ("read_or_write_interrupted", s.fired[EV_EINTR as usize]),
            ("io_error", s.fired[EV_ERR as usize]),
            ("early_eof", s.fired[EV_EOF as usize]),
            ("delay", s.fired[EV_DELAY as usize]),
            ("stall", s.fired[EV_STALL as usize]),
            ("split_at_offset", s.fired[EV_SPLIT as usize]),
            ("kill", s.fired[EV_KILL as usize] + s.killed as u64),
            ("short_transfer", s.n_short),
            ("open_error", s.n_open_err),
            ("stat_error", s.n_stat_err),
            ("connect_error", s.n_conn_err),
            ("dns_error", s.n_dns_err),
            ("receive_timeout", s.n_rcvtimeo),
            ("out_of_descriptors", s.n_emfile),
            ("task_switch", s.n_switches as u64),
            ("task_blocked_on_lock", s.nfutex as u64),
            ("random_bytes_requested", s.nrandom as u64),
            ("clock_read", s.nclock as u64),
            ("http_request", s.nreqs as u64),
            ("operation", s.nops),
        ] {
            self.add(k, n);
        }
    }
}

pub fn os_err(n: i32) -> String {
    std::io::Error::from_raw_os_error(n).to_string()
}

/// The class of failure an error message reports, coarse enough to survive rewording.
pub fn blame(msg: &str) -> &'static str {
    let m = msg.to_lowercase();
    if m.contains("utf-8") || m.contains("utf8") {
        "utf-8"
    } else if m.contains("escape") {
        "escape"
    } else if m.contains("end of input") || m.contains("unexpected end") {
        "eof"
    } else if m.contains("unwrap") {
        "unwrap"
    } else if m.contains("hint") {
        "hint"
    } else if m.contains("invalid json") {
        "json"
    } else if m.contains("io-related") || m.contains("os error") || m.contains("i/o") || m.contains("reading") || m.contains("fetching") || m.contains("connection") || m.contains("network") {
        "io"
    } else {
        "other"
    }
}

// ---- building blocks ------------------------------------------------------------------------

const PATHS: &[(&str, &str)] = &[
    ("/data/sample.json", "/data/sample.json"),
    ("sample.json", "/w/sample.json"),
    ("dir/my sample.json", "/w/dir/my sample.json"),
    ("./π.json", "/w/π.json"),
    ("../up.json", "/up.json"),
    ("/dev/fd/63", "/dev/fd/63"),
    ("data", "/w/data"),
    ("C:\\data\\s.json", "/w/C:\\data\\s.json"),
    ("-", "/w/-"),
    ("http:/one-slash.json", "/w/http:/one-slash.json"),
    ("~/x.json", "/w/~/x.json"),
    ("~root/x.json", "/w/~root/x.json"),
    ("$HOME/x.json", "/w/$HOME/x.json"),
    ("${DATA}.json", "/w/${DATA}.json"),
    ("%HOME%.json", "/w/%HOME%.json"),
    ("a%20b.json", "/w/a%20b.json"),
    ("file:x.json", "/w/file:x.json"),
    ("file:///data/x.json", "/w/file:/data/x.json"),
    ("HTTP://example.test/x.json", "/w/HTTP:/example.test/x.json"),
    ("ftp://example.test/x.json", "/w/ftp:/example.test/x.json"),
    ("www.example.test/x.json", "/w/www.example.test/x.json"),
    ("*.json", "/w/*.json"),
    ("x.json?raw=1#top", "/w/x.json?raw=1#top"),
    ("@x.json", "/w/@x.json"),
    ("x.json:3", "/w/x.json:3"),
    ("a,b.json", "/w/a,b.json"),
    ("'x.json'", "/w/'x.json'"),
    ("--x.json", "/w/--x.json"),
    ("x\u{301}.json", "/w/x\u{301}.json"),
    ("CON", "/w/CON"),
    ("/proc/self/x.json", "/proc/self/x.json"),
    ("./a/../x.json", "/w/x.json"),
];
const WORDS: &[&str] = &[
    "sample", "samples", "data", "download", "raw", "latest", "export", "api", "v2", "index", "things", "users", "config", "package", "schema", "test", "tmp", "cache", "backup", "old",
    "README", "output", "out", "input", "stdin", "null", "json", "404", "error", "login", "2024-01-01", "a", "x1", "search", "query", "graphql", "feed", "static", "public", "private", "secret",
];
const EXTS: &[&str] = &["", ".json", ".JSON", ".json5", ".jsonl", ".ndjson", ".jsonc", ".geojson", ".txt", ".gz", ".json.gz", ".sql", ".csv", ".xml", ".html", ".php", ".rs", ".ts", ".schema.json", ".bak", ".tmp", ".toml", ".yaml"];
pub fn path(r: &mut Rng) -> (String, String) {
    if r.chance(50) {
        return (PATHS[0].0.into(), PATHS[0].1.into());
    }
    if r.chance(50) {
        let p = r.pick(PATHS);
        return (p.0.into(), p.1.into());
    }
    let mut t = String::new();
    for _ in 0..r.below(4) {
        t.push_str(*r.pick(WORDS));
        t.push('/');
    }
    t.push_str(*r.pick(&["", "", "", ".", "~", "#", "%20", "$HOME", "*", "æ", "file:", "http:", "https:", "sqlite:", "-", "--", "a b", "env:", "@", "=", "\\", "&", "ftp:", "git:", "data:,", "ws:", "//"]));
    t.push_str(*r.pick(WORDS));
    t.push_str(*r.pick(EXTS));
    let root = *r.pick(&["/", "/", "", "./", "/tmp/", "/home/me/"]);
    let input = format!("{}{}", root, t);
    let mut parts: Vec<&str> = if input.starts_with('/') { vec![] } else { vec!["w"] };
    parts.extend(input.split('/').filter(|x| !x.is_empty() && *x != "."));
    let abs = format!("/{}", parts.join("/"));
    (input, abs)
}

/// The path and query of a URL, of any kind; always one that a client sends as it is.
fn target(r: &mut Rng) -> String {
    let mut t = String::from("/");
    for _ in 0..r.below(4) {
        t.push_str(*r.pick(WORDS));
        t.push('/');
    }
    t.push_str(*r.pick(&["", "", "", "", "@me", "~u", "%7B%7D", "a+b", "$batch", "x:y", "(1)", "!", "'q'", "%2e"]));
    t.push_str(*r.pick(WORDS));
    t.push_str(*r.pick(EXTS));
    if r.chance(40) {
        for k in 0..r.range(1, 3) {
            t.push(if k == 0 { '?' } else { '&' });
            t.push_str(*r.pick(&["q", "page", "limit", "token", "key", "access_token", "format", "callback", "id[]", "download", "utm_source", "since", "filter%5Bx%5D", "v", "url", "json"]));
            if r.chance(85) {
                t.push('=');
                t.push_str(*r.pick(&["1", "", "json", "abc", "%C3%A6", "a+b", "http://example.test/x.json", "%2F", "a=b", "{}", "2024-01-01T00:00:00Z", "secret", "true", "a;b", "*"]));
            }
        }
    }
    t
}

fn world(r: &mut Rng) -> World {
    World {
        sim_seed: r.next(),
        rand_seed: r.next(),
        clock_ns: 1_500_000_000_000_000_000 + (r.below(400_000_000) as i64) * 1_000_000_000,
        tick_ns: *r.pick(&[1000, 1000, 1_000_000, 50_000_000]),
        ..Default::default()
    }
}

fn case(prop: &str, seed: u64, w: World, calls: Vec<Call>) -> LibCase {
    LibCase {
        prop: prop.into(),
        seed,
        variant: "plain".into(),
        world: w,
        tasks: vec![calls],
        switch_pct: 30,
        alloc_every: 0,
        sched: None,
        bound_ms: None,
        alts: vec![],
        allowed: None,
        stack_kb: 0,
        tags: vec![],
    }
}

pub struct Url {
    pub text: String,
    pub host: String,
    pub port: u32,
    pub path: String,
    pub ip: u32,
}
/// Other ways to name a server: as written, as it is looked up, and its address if it is not IPS[i].
const OTHER_HOSTS: &[[(&str, &str, u32); 3]] = &[
    [("localhost", "localhost", 0x7F000001), ("printer", "printer", 0), ("box.local", "box.local", 0)],
    [("127.0.0.1", "127.0.0.1", 0x7F000001), ("192.168.1.10", "192.168.1.10", 0xC0A8010A), ("10.0.0.5", "10.0.0.5", 0x0A000005)],
    [("127.0.0.53", "127.0.0.53", 0x7F000035), ("169.254.169.254", "169.254.169.254", 0xA9FEA9FE), ("8.8.4.4", "8.8.4.4", 0x08080404)],
    [("EXAMPLE.Test", "example.test", 0), ("Api.Example.TEST", "api.example.test", 0), ("SAMPLES.test", "samples.test", 0)],
    [("bücher.test", "xn--bcher-kva.test", 0), ("api.bücher.test", "api.xn--bcher-kva.test", 0), ("例え.test", "xn--r8jz45g.test", 0)],
    [("user:secret@example.test", "example.test", 0), ("me@api.example.test", "api.example.test", 0), (":x@samples.test", "samples.test", 0)],
    [("www.example.test", "www.example.test", 0), ("raw.githubusercontent.com", "raw.githubusercontent.com", 0), ("metadata.google.internal", "metadata.google.internal", 0)],
];
impl Url {
    pub fn name(&self) -> String {
        self.host.split(':').next().unwrap().to_string()
    }
    /// As a server would write it: a header is ASCII.
    pub fn location(&self) -> String {
        if self.text.is_ascii() {
            self.text.clone()
        } else {
            format!("http://{}{}", self.host, self.path)
        }
    }
    fn literal(&self) -> bool {
        self.name().bytes().all(|c| c == b'.' || c.is_ascii_digit())
    }
}
/// A URL whose host has to be looked up.
pub fn url_named(r: &mut Rng, i: usize) -> Url {
    loop {
        let u = url(r, i);
        if !u.literal() {
            return u;
        }
    }
}
pub fn url(r: &mut Rng, i: usize) -> Url {
    let (written, host, ip) = if r.chance(70) { (HOSTS[i % HOSTS.len()], HOSTS[i % HOSTS.len()], 0) } else { r.pick(OTHER_HOSTS)[i % 3] };
    let ip = if ip == 0 { IPS[i % IPS.len()] } else { ip };
    let port = if r.chance(70) { 80 } else { *r.pick(&[8080u32, 3000, 81]) };
    let any = target(r);
    let p = if r.chance(25) { &any[..] } else { *r.pick(&["/sample.json", "/", "/a/b/c.json", "/v1/things?limit=10&x=%20y", "/deep/path/with-dash_and.dots", "/API/Sample.JSON?Id=A%2fB&q=%7B%22x%22%3A1%7D", "/things/", "/a//b/.json", "/x;v=1?q", "/%C3%A6/%20.json"]) };
    let with_port = |h: &str| if port == 80 { h.to_string() } else { format!("{}:{}", h, port) };
    let hostport = with_port(host);
    // a fragment is not part of the request
    let frag = if r.chance(8) { "#top" } else { "" };
    Url { text: format!("http://{}{}{}", with_port(written), p, frag), host: hostport, port, path: p.to_string(), ip }
}

/// Makes the URL reachable; returns its endpoint index.
pub fn reachable(w: &mut World, u: &Url, delay: u32) -> usize {
    let name = u.host.split(':').next().unwrap().to_string();
    if !w.hosts.iter().any(|h| h.name == name) {
        w.hosts.push(HostSpec { name, rc: 0, addrs: vec![u.ip], delay_ms: 0 });
    }
    match w.eps.iter().position(|e| e.ip == u.ip && e.port == u.port) {
        Some(i) => i,
        None => {
            w.eps.push(EpSpec { ip: u.ip, port: u.port, kind: EpKind::Ok, delay_ms: delay, wr: Script::default() });
            w.eps.len() - 1
        }
    }
}
pub fn route(w: &mut World, ep: usize, u: &Url, resp: RespSpec) {
    w.routes.push(RouteSpec { ep: Some(ep), host: u.host.clone(), path: u.path.clone(), resp, max_uses: 0 });
}

const CONTENT_TYPES: &[&str] = &[
    "text/html; charset=iso-8859-1", "application/octet-stream", "application/vnd.api+json", "text/plain", "text/plain; charset=latin1", "application/json;charset=\"utf-8\"",
    "APPLICATION/JSON", "image/png", "text/html", "application/json; charset=utf-16", "application/xml", "", "json", "multipart/form-data; boundary=x", "text/csv; header=present",
    "text/plain; charset=windows-1252", "text/plain; charset=us-ascii", "application/x-ndjson", "application/javascript", "*/*",
];
const OTHER_FIELDS: &[(&str, &str)] = &[
    ("Set-Cookie", "id=1; Path=/; HttpOnly"), ("Set-Cookie", "id2=a=b"), ("ETag", "\"abc\""), ("Cache-Control", "no-store"), ("X-Empty", ""), ("X-Name", "caf\u{e9}"),
    ("Vary", "Accept-Encoding"), ("Content-Encoding", "identity"), ("Retry-After", "120"), ("Location", "http://decoy.test/"), ("Link", "<http://decoy.test/2>; rel=\"next\""),
    ("Content-Disposition", "attachment; filename=\"other.json\""), ("Refresh", "0; url=http://decoy.test/"), ("Accept-Ranges", "bytes"), ("Content-Language", "tr"),
    ("Age", "99999999"), ("Expires", "0"), ("Warning", "299 - \"stale\""), ("Keep-Alive", "timeout=5, max=100"), ("Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT"),
    ("Strict-Transport-Security", "max-age=31536000; includeSubDomains"), ("X-Content-Type-Options", "nosniff"), ("Content-Location", "/other.json"), ("Upgrade", "h2c"), ("Deprecation", "true"),
    ("Content-Range", "bytes 0-1/2"), ("Content-MD5", "Q2hlY2sgSW50ZWdyaXR5IQ=="), ("WWW-Authenticate", "Basic"), ("X-RateLimit-Remaining", "0"), ("Via", "1.1 proxy"),
];

/// Whether a reader of the text knows where it ends without reading on (ureq 2.12 takes fields after
/// the last chunk for an error when something reads on; a known finding of C02).
fn ends_itself(body: &[u8]) -> bool {
    body.iter().find(|c| !c.is_ascii_whitespace()).is_some_and(|c| matches!(c, b'{' | b'[' | b'"'))
}

/// A response carrying `body` in any legal framing, delivered in any legal way.
pub fn any_response(r: &mut Rng, body: &[u8], delays: bool) -> RespSpec {
    let mut resp = RespSpec::ok(body, framing(r));
    resp.headers = vec![];
    // what the server says about itself and the text changes nothing: the text is what it is
    if r.chance(80) {
        let ct = if r.chance(50) { *r.pick(&["application/json", "application/json; charset=utf-8", "text/plain; charset=UTF-8", "text/json"]) } else { *r.pick(CONTENT_TYPES) };
        let k = *r.pick(&["Content-Type", "content-type"]);
        resp.headers.push((k.into(), ct.into()));
    }
    if r.chance(40) {
        resp.headers.push(("Server".into(), "simulated/1.0".into()));
    }
    if r.chance(20) {
        resp.headers.push(("X-Long".into(), "v".repeat(r.range(1, 900) as usize)));
    }
    if r.chance(20) {
        resp.headers.push(("Date".into(), "Thu, 01 Jan 1970 00:00:00 GMT".into()));
    }
    while r.chance(35) {
        let (k, v) = *r.pick(OTHER_FIELDS);
        resp.headers.push((k.into(), v.into()));
    }
    if r.chance(4) {
        let at = r.us(resp.headers.len() + 1);
        for i in 0..r.range(5, 60) {
            resp.headers.insert(at, (format!("X-{}", i), "a".into()));
        }
    }
    if r.chance(15) {
        resp.status = *r.pick(&[200, 200, 201, 203, 299]);
    }
    if r.chance(40) {
        resp.dress = r.next() as u32 & r.next() as u32 & 0xff;
        if !ends_itself(body) {
            resp.dress &= !DRESS_TRAILER;
        }
    }
    resp.gzip = r.chance(25) && !resp.headers.iter().any(|h| h.0 == "Content-Encoding");
    if !resp.close && r.chance(50) {
        resp.close = true;
    }
    let wire = resp.wire();
    resp.rd = delivery(r, &wire, true, delays);
    resp
}

/// Places a body behind a URL, perhaps behind redirects. Returns the URL to request.
pub fn place(r: &mut Rng, w: &mut World, resp: RespSpec, hops: u64, allowed: &mut Allowed) -> String {
    let target = url(r, 0);
    let ep = reachable(w, &target, r.clone().range(0, 3000) as u32);
    route(w, ep, &target, resp);
    let mut urls = vec![target];
    for i in 0..hops {
        let mut u = url(r, 1 + i as usize);
        u.path = format!("/hop{}", i);
        u.text = format!("http://{}{}", u.host, u.path);
        let prev = urls.last().unwrap();
        let same = prev.host == u.host;
        let loc = if same && r.chance(50) { prev.path.clone() } else { prev.location() };
        let ep = reachable(w, &u, 0);
        let status = *r.pick(&[301, 302, 303, 307, 308]);
        let mut rr = RespSpec::ok(b"<a href=\"x\">moved</a>", Framing::Length(0));
        rr.status = status;
        rr.headers = vec![("Location".into(), loc)];
        rr.close = r.chance(50);
        let wire = rr.wire();
        rr.rd = delivery(r, &wire, true, false);
        route(w, ep, &u, rr);
        urls.push(u);
    }
    for u in &urls {
        allowed.hosts.push(u.host.split(':').next().unwrap().to_string());
        allowed.addrs.push((u.ip, u.port));
        allowed.targets.push((u.host.clone(), u.path.clone()));
    }
    urls.pop().unwrap().text
}

fn opts(r: &mut Rng, s: &Sample, hints: u64, unwrap: u64, threshold: u64) -> String {
    options(r, &s.value, &OptCfg { hints, unwrap, threshold })
}

fn whole(s: &Sample) -> Expect {
    if s.is_container() {
        Expect::Inline(s.text.clone())
    } else {
        Expect::Clean
    }
}

/// Damage that leaves the text UTF-8 and its first character in place.
fn damage_text(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        if c.len() < 3 {
            break;
        }
        let i = 1 + r.us(c.len() - 1);
        match r.below(4) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *r.pick(&['"', '}', ']', '{', '[', ',', ':', '\\', 'x', '0', '-', '\u{0}', 'é'])),
            2 => c[i] = *r.pick(&['"', '}', ']', '{', '[', ',', ':', '\\', 'x', '0', ' ']),
            _ => {
                let x = c[i];
                c.insert(i, x);
            }
        }
    }
    c.into_iter().collect()
}

fn offset(r: &mut Rng, text: &[u8], end: u64) -> u64 {
    // before `end`
    let e = edges(text);
    let v: Vec<u64> = e.into_iter().filter(|x| *x < end).collect();
    match r.below(10) {
        0 => 0,
        1 => end.saturating_sub(1),
        2..=6 if !v.is_empty() => *r.pick(&v),
        7 => {
            let b = *r.pick(BOUNDARIES) as u64;
            if b < end {
                b
            } else {
                r.below(end)
            }
        }
        _ => r.below(end),
    }
}

fn gen_c01(r: &mut Rng, seed: u64) -> LibCase {
    let huge = r.chance(1) && r.chance(20);
    let mut s = if huge { huge_sample(r) } else { sample(r, 10, 30) };
    if !huge && r.chance(10) && s.is_container() {
        let lead = s.text[..s.start].to_string();
        s.text = format!("{}{}", lead, damage_text(r, &s.text[s.start..]));
    }
    let o = opts(r, &s, 30, 20, 25);
    let (input, abs) = path(r);
    let (input, abs) = (&input[..], &abs[..]);
    let mut w = world(r);
    let mut f = FileSpec::new(abs, s.text.as_bytes());
    f.rd = if huge { huge_delivery(r, s.text.len() as u64) } else { delivery(r, s.text.as_bytes(), true, true) };
    if r.chance(45) {
        let n = s.text.len() as i64;
        f.fake_size = Some(*r.pick(&[0, 1, n - 1, n + 1, n / 2, n * 2, 1 << 20, 1 << 25]));
    }
    if r.chance(10) {
        f.is_fifo = true;
    }
    w.files.push(f);
    if r.chance(30) {
        // neighbours that must not be mistaken for the sample
        w.files.push(FileSpec::new("/w/sample", b"{\"wrong\": 1}"));
    }
    let c = Call::new(&type_name(r), input, &o, whole(&s));
    let mut c = case("C01", seed, w, vec![c]);
    if huge {
        c.tags.push("over_1MB".into());
    }
    if r.chance(50) {
        c.variant = "progress".into();
    }
    c
}

fn gen_c02(r: &mut Rng, seed: u64, tier: &str) -> LibCase {
    let huge = r.chance(if tier == "quick" { 1 } else { 2 }) && r.chance(60);
    let s = if huge {
        let n = *r.pick(&[10usize, 10, 10, 16, if tier == "quick" { 16 } else { 26 }]) * 1024 * 1024 + r.us(1 << 20);
        straddling(r, n, 300)
    } else {
        let mut s = sample(r, 8, 35);
        if r.chance(3) {
            s.raw_control(r);
        }
        s
    };
    let o = opts(r, &s, 25, 15, 20);
    let mut w = world(r);
    let mut resp = any_response(r, s.text.as_bytes(), true);
    if huge {
        resp.rd = Script { chunk: *r.pick(&[16384, 60000, 300000]), ..Default::default() };
        resp.gzip = false;
    }
    let hops = if r.chance(70) { 0 } else { r.range(1, 3) };
    let u = place(r, &mut w, resp, hops, &mut Allowed::default());
    let name = type_name(r);
    let n = if huge { 1 } else { r.range(1, 2) };
    let mut c = case("C02", seed, w, (0..n).map(|_| Call::new(&name, &u, &o, whole(&s))).collect());
    if r.chance(30) {
        c.variant = "progress".into();
    }
    if huge {
        c.tags.push("body_over_10MB".into());
    } else if r.chance(2) {
        let k = r.us(c.world.routes.len());
        c.world.routes[k].resp.dress |= DRESS_INTERIM;
        c.tags.push("interim_response".into());
    } else if !ends_itself(s.text.as_bytes()) && r.chance(20) {
        if let Some(rt) = c.world.routes.iter_mut().find(|rt| rt.resp.body.0 == s.text.as_bytes() && ureq_eintr(&rt.resp)) {
            rt.resp.dress |= DRESS_TRAILER;
            c.tags.push("trailer_after_a_scalar".into());
        }
    } else if s.is_container() && r.chance(4) {
        let k = r.us(c.world.routes.len());
        let resp = &mut c.world.routes[k].resp;
        if ureq_eintr(resp) {
            // mostly where it hurts: before the first byte of a chunk
            let (h, b) = resp.wire_parts();
            let line = b.iter().position(|x| *x == b'\n').unwrap_or(0) + 1;
            let off = if r.chance(25) { r.below((h.len() + b.len()) as u64 + 1) } else { (h.len() + line) as u64 };
            resp.rd.add(off, Ev::Eintr(r.range(1, 4) as u32));
            c.tags.push("interrupted_inside_ureq".into());
        }
    }
    c
}

/// ureq 2.12's chunked decoder forgets a chunk's length when the receive after it is interrupted (a
/// known finding of C02; the other generators leave interruptions out there, so that they do not
/// keep hitting it).
fn ureq_eintr(resp: &RespSpec) -> bool {
    matches!(resp.framing, Framing::Chunked(_))
}
/// The known findings of C02, all in ureq 2.12: what happens, and the case without it if it happens in it.
fn without_known(case: &LibCase) -> Vec<(&'static str, &'static str, LibCase)> {
    let mut out = vec![];
    let mut c = case.clone();
    let mut any = false;
    for rt in c.world.routes.iter_mut().filter(|rt| ureq_eintr(&rt.resp)) {
        let n = rt.resp.rd.events.len();
        rt.resp.rd.events.retain(|e| !matches!(e.1, Ev::Eintr(_)));
        any |= rt.resp.rd.events.len() < n;
    }
    if any {
        out.push(("interrupted_chunked", "one interrupted receive changed the result to", c));
    }
    for (kind, what, bit) in [("interim_response", "an interim response before the final one changed the result to", DRESS_INTERIM), ("trailer_fields", "header fields after the last chunk changed the result to", DRESS_TRAILER)] {
        let mut c = case.clone();
        let mut any = false;
        for rt in c.world.routes.iter_mut().filter(|rt| bit != DRESS_TRAILER || ureq_eintr(&rt.resp) && !ends_itself(&rt.resp.body.0)) {
            if rt.resp.dress & bit != 0 {
                any = true;
                rt.resp.dress &= !bit;
                // what was due at an offset is due somewhere else now
                rt.resp.rd.events.clear();
            }
        }
        if any {
            out.push((kind, what, c));
        }
    }
    out
}

/// One plain call of every kind, so that everything the process initialises lazily is in place and
/// a run's operations do not depend on what the worker ran before.
pub fn warm_up(shm: &Shm, variant: &str) {
    let mut r = Rng::new(1);
    let mut w = World { sim_seed: 1, rand_seed: 1, clock_ns: 1_700_000_000_000_000_000, ..Default::default() };
    let body = b"{\"a\": [1, 2.5, \"x\"], \"b\": {\"c\": null}}";
    w.files.push(FileSpec::new("/f/w.json", body));
    let mut calls = vec![Call::new("Root", "/f/w.json", "{ }", Expect::Any), Call::new("Root", "/f/none.json", "{ }", Expect::Any)];
    for (i, f) in [Framing::Length(0), Framing::Chunked(vec![5]), Framing::Close].into_iter().enumerate() {
        let mut resp = RespSpec::ok(body, f);
        resp.gzip = i == 1;
        let mut u = url(&mut r, i);
        u.path = format!("/warm{}", i);
        u.text = format!("http://{}{}", u.host, u.path);
        let ep = reachable(&mut w, &u, 0);
        route(&mut w, ep, &u, resp);
        calls.push(Call::new("Root", &u.text, "{ }", Expect::Any));
    }
    for m in MODES {
        calls.push(Call::new("Root", "{\"a\": [{\"x\": 1}, {\"y\": null}], \"b\": [1, \"q\"]}", &format!("{{ output_mode: \"{}\" }}", m), Expect::Any));
    }
    let mut c = case("C01", 1, w, calls);
    c.variant = variant.into();
    run(shm, &c);
}

fn closed_sample(r: &mut Rng, big: u64) -> Sample {
    loop {
        let s = sample(r, 12, big);
        if s.closed() {
            return s;
        }
    }
}

fn gen_c03(r: &mut Rng, seed: u64) -> LibCase {
    let s = closed_sample(r, 15);
    let o = opts(r, &s, 65, 40, 40);
    let mut w = world(r);
    let name = type_name(r);
    let bytes = s.text.as_bytes();
    let cut = offset(r, bytes, s.end as u64);
    let c = match r.below(3) {
        0 if s.is_container() && s.end > s.start + 1 => {
            let mut k = (cut as usize).max(s.start + 1);
            while !s.text.is_char_boundary(k) {
                k -= 1;
            }
            Call::new(&name, &s.text[..k.max(s.start + 1)], &o, Expect::Error)
        }
        1 => {
            let mut resp = RespSpec::ok(&bytes[..cut as usize], framing(r));
            match r.below(4) {
                0 => {
                    // announced in full
                    resp = RespSpec::ok(bytes, Framing::Length(0));
                    let h = resp.wire_parts().0.len() as u64;
                    resp.cut = Some(h + cut);
                }
                1 => {
                    resp = RespSpec::ok(bytes, Framing::Chunked(vec![(s.end as u32).max(1)]));
                    let (h, _) = resp.wire_parts();
                    let lead = format!("{:x}\r\n", bytes.len().min(s.end.max(1))).len() as u64;
                    resp.cut = Some(h.len() as u64 + lead + cut);
                }
                _ => resp.gzip = r.chance(20),
            }
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, true, false);
            let dns = if r.chance(80) { 0 } else { 1 };
            let u = place(r, &mut w, resp, dns, &mut Allowed::default());
            Call::new(&name, &u, &o, Expect::Error)
        }
        _ => {
            let (input, abs) = path(r);
    let (input, abs) = (&input[..], &abs[..]);
            let mut f = if r.chance(50) { FileSpec::new(abs, &bytes[..cut as usize]) } else { FileSpec::new(abs, bytes) };
            f.rd = delivery(r, &f.data.0.clone(), true, false);
            f.rd.add(cut, Ev::Eof);
            if r.chance(30) {
                f.fake_size = Some(*r.pick(&[0, bytes.len() as i64, cut as i64]));
            }
            f.is_fifo = r.chance(10);
            w.files.push(f);
            Call::new(&name, input, &o, Expect::Error)
        }
    };
    let mut c = case("C03", seed, w, vec![c]);
    if r.chance(40) {
        c.variant = "progress".into();
    }
    c
}

fn gen_c04(r: &mut Rng, seed: u64) -> LibCase {
    let s = sample(r, 12, 15);
    let o = opts(r, &s, 60, 25, 30);
    let mut w = world(r);
    let name = type_name(r);
    let bytes = s.text.as_bytes();
    let whole_b = Bytes(bytes.to_vec());
    let off = offset(r, bytes, s.end as u64);
    let mut variant = if r.chance(40) { "progress" } else { "plain" };
    let times = *r.pick(&[0u32, 0, 1, 2]);
    let (input, abs) = path(r);
    let (input, abs) = (&input[..], &abs[..]);
    let c = match r.below(10) {
        0 | 1 => {
            let mut f = FileSpec::new(abs, bytes);
            let e = *r.pick(&[libc::EACCES, libc::ENOENT, libc::EIO, libc::ELOOP, libc::ENAMETOOLONG, libc::EMFILE, libc::ENFILE, libc::EPERM, libc::ENOTDIR, libc::EINTR]);
            if e == libc::ENOENT {
                f.exists = false;
            } else if e == libc::EINTR {
                f.open_err = libc::ESTALE;
            } else {
                f.open_err = e;
            }
            let e = if e == libc::EINTR { libc::ESTALE } else { e };
            w.files.push(f);
            Call::new(&name, input, &o, Expect::OpenError(e))
        }
        2 => {
            let mut f = FileSpec::new(abs, b"");
            f.is_dir = true;
            w.files.push(f);
            Call::new(&name, input, &o, Expect::IoError(Bytes(b"{}".to_vec())))
        }
        3 => {
            variant = "progress";
            let mut f = FileSpec::new(abs, bytes);
            f.stat_err = *r.pick(&[libc::EIO, libc::EACCES, libc::ESTALE, libc::ENOMEM]);
            w.files.push(f);
            Call::new(&name, input, &o, Expect::IoError(whole_b))
        }
        4 | 5 => {
            let mut resp = RespSpec::ok(bytes, if r.chance(50) { Framing::Length(0) } else { Framing::Close });
            if r.chance(30) {
                resp.framing = Framing::Chunked(vec![bytes.len().max(1) as u32]);
            }
            let (h, b) = resp.wire_parts();
            let lead = (b.len() - bytes.len() - if matches!(resp.framing, Framing::Chunked(_)) { 2 + 5 } else { 0 }) as u64;
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, false, false);
            // delivery never crosses an event offset, so every byte before it arrives
            resp.rd.add(h.len() as u64 + lead + off, Ev::Err(errno_net(r), if r.chance(70) { 0 } else { 1 }));
            let u = place(r, &mut w, resp, 0, &mut Allowed::default());
            Call::new(&name, &u, &o, Expect::IoError(whole_b))
        }
        _ => {
            let mut f = FileSpec::new(abs, bytes);
            f.rd = delivery(r, bytes, true, false);
            f.rd.add(off, Ev::Err(errno_read(r), times));
            f.is_fifo = r.chance(8);
            w.files.push(f);
            Call::new(&name, input, &o, Expect::IoError(whole_b))
        }
    };
    let mut c = case("C04", seed, w, vec![c]);
    c.variant = variant.into();
    c
}
trait CloneBox {
    fn clone_box(&self) -> Framing;
}
impl CloneBox for Framing {
    fn clone_box(&self) -> Framing {
        self.clone()
    }
}

fn gen_c05(r: &mut Rng, seed: u64) -> LibCase {
    let s = loop {
        let s = sample(r, 5, 12);
        if s.is_container() {
            break s;
        }
    };
    let o = opts(r, &s, 40, 20, 20);
    let mut w = world(r);
    let name = type_name(r);
    let bytes = s.text.as_bytes();
    let kind = r.below(13);
    let mut u = if kind < 2 { url_named(r, 0) } else { url(r, 0) };
    let mut tags = vec![];
    match kind {
        0 => {
            tags.push("dns");
            let rc = *r.pick(&[libc::EAI_NONAME, libc::EAI_AGAIN, libc::EAI_FAIL, libc::EAI_SYSTEM, libc::EAI_MEMORY]);
            w.hosts.push(HostSpec { name: u.name(), rc, addrs: vec![], delay_ms: r.below(20000) as u32 });
        }
        1 => {
            tags.push("connect");
            let n = r.range(1, 3);
            let mut addrs = vec![];
            for i in 0..n {
                let ip = IPS[i as usize];
                addrs.push(ip);
                let e = *r.pick(&[libc::ECONNREFUSED, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::ECONNRESET, libc::ETIMEDOUT, libc::EACCES]);
                w.eps.push(EpSpec { ip, port: u.port, kind: EpKind::Err(e), delay_ms: r.below(3000) as u32, wr: Script::default() });
            }
            w.hosts.push(HostSpec { name: u.name(), rc: 0, addrs, delay_ms: 0 });
        }
        2 | 3 => {
            tags.push("status");
            let ep = reachable(&mut w, &u, 0);
            let mut resp = any_response(r, bytes, false);
            resp.status = *r.pick(&[400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 415, 418, 422, 425, 429, 451, 499, 500, 501, 502, 503, 504, 505, 507, 511, 520, 599]);
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, true, false);
            route(&mut w, ep, &u, resp);
        }
        4 => {
            tags.push("send_fails");
            let ep = reachable(&mut w, &u, 0);
            route(&mut w, ep, &u, RespSpec::ok(bytes, Framing::Length(0)));
            let off = r.below(20);
            w.eps[ep].wr.add(off, Ev::Err(*r.pick(&[libc::ECONNRESET, libc::EPIPE]), 0));
        }
        5 | 6 => {
            tags.push("cut");
            let ep = reachable(&mut w, &u, 0);
            let mut resp = RespSpec::ok(bytes, framing(r));
            if let Framing::Chunked(_) = resp.framing {
                resp.framing = Framing::Chunked(vec![bytes.len().max(1) as u32]);
            }
            let (h, b) = resp.wire_parts();
            let is_chunked = matches!(resp.framing, Framing::Chunked(_));
            let lead = if is_chunked { b.len() - bytes.len() - 7 } else { 0 };
            let limit = (h.len() + lead + s.end) as u64;
            let cut = if r.chance(50) { r.below(h.len() as u64) } else { h.len() as u64 + r.below(limit - h.len() as u64) };
            resp.cut = Some(cut);
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, true, false);
            if r.chance(40) {
                resp.rd.add(cut, Ev::Err(errno_net(r), 0));
            }
            route(&mut w, ep, &u, resp);
        }
        7 => {
            tags.push("garbage");
            let ep = reachable(&mut w, &u, 0);
            let mut g = match r.below(5) {
                0 => b"{\"a\": 1}\r\n\r\n".to_vec(),
                1 => b"220 ftp.example.test ready\r\n\r\n".to_vec(),
                2 => b"\r\n\r\n{\"a\":1}".to_vec(),
                3 => b"\x15\x03\x01\x00\x02\x02\x28".to_vec(),
                _ => b"".to_vec(),
            };
            if r.chance(50) {
                g.extend_from_slice(bytes);
            }
            let sc = delivery(r, &g, true, false);
            w.eps[ep].kind = EpKind::Raw(Bytes(g), sc);
        }
        8 => {
            tags.push("bad_chunk");
            let ep = reachable(&mut w, &u, 0);
            let mut raw = Vec::new();
            // a good first chunk that ends before the value does, then nonsense
            let k = 1 + r.us(s.end - 1).min(5000);
            let k = k.min(s.end - 1).max(1);
            raw.extend_from_slice(format!("{:x}\r\n", k).as_bytes());
            raw.extend_from_slice(&bytes[..k]);
            raw.extend_from_slice(b"\r\n");
            raw.extend_from_slice(*r.pick(&[&b"zz\r\n"[..], b"-5\r\n", b"\r\n\r\n", b"{\"a\":1}\r\n", b"fffffffffffffffffffff\r\n"]));
            raw.extend_from_slice(&bytes[k..]);
            let mut resp = RespSpec::ok(b"", Framing::Raw(Bytes(raw)));
            resp.headers.push(("Transfer-Encoding".into(), "chunked".into()));
            route(&mut w, ep, &u, resp);
        }
        9 => {
            tags.push("redirect_loop");
            let ep = reachable(&mut w, &u, 0);
            let mut a = RespSpec::ok(bytes, Framing::Length(0));
            a.status = *r.pick(&[301, 302, 307, 308]);
            let mut u2 = url(r, 1);
            u2.path = "/loop".into();
            u2.text = format!("http://{}/loop", u2.host);
            let two = r.chance(60);
            a.headers = vec![("Location".into(), if two { u2.location() } else { u.location() })];
            if two {
                let ep2 = reachable(&mut w, &u2, 0);
                let mut b = a.clone();
                b.headers = vec![("Location".into(), u.location())];
                route(&mut w, ep2, &u2, b);
            }
            route(&mut w, ep, &u, a);
        }
        10 => {
            tags.push("redirect_to_dead_host");
            let ep = reachable(&mut w, &u, 0);
            let mut a = RespSpec::ok(bytes, Framing::Length(0));
            a.status = *r.pick(&[301, 302, 303, 307, 308]);
            a.headers = vec![("Location".into(), "http://gone.test/x.json".into())];
            w.hosts.push(HostSpec { name: "gone.test".into(), rc: libc::EAI_NONAME, addrs: vec![], delay_ms: 0 });
            route(&mut w, ep, &u, a);
        }
        11 => {
            tags.push("https_without_tls");
            u.port = 443;
            u.host = HOSTS[0].into();
            u.ip = IPS[0];
            u.text = format!("https://{}{}", u.host, u.path);
            let ep = reachable(&mut w, &u, 0);
            let mut g = b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n\r\n".to_vec();
            g.extend_from_slice(bytes);
            let sc = delivery(r, &g, true, false);
            w.eps[ep].kind = EpKind::Raw(Bytes(g), sc);
            if r.chance(50) {
                // the same resource in the clear must not be used instead
                w.eps.push(EpSpec { ip: u.ip, port: 80, kind: EpKind::Ok, delay_ms: 0, wr: Script::default() });
                let e2 = w.eps.len() - 1;
                w.routes.push(RouteSpec { ep: Some(e2), host: u.host.clone(), path: u.path.clone(), resp: RespSpec::ok(bytes, Framing::Length(0)), max_uses: 0 });
            }
        }
        _ => {
            tags.push("reset");
            let ep = reachable(&mut w, &u, 0);
            let mut resp = RespSpec::ok(bytes, Framing::Close);
            let h = resp.wire_parts().0.len() as u64;
            resp.rd.add(r.below(h + s.end as u64), Ev::Err(libc::ECONNRESET, 0));
            route(&mut w, ep, &u, resp);
        }
    }
    // decoys: a file of that name, the same resource elsewhere
    if r.chance(60) {
        let norm = u.text.replace("//", "/");
        w.files.push(FileSpec::new(&format!("/w/{}", norm), b"{\"decoy\": 1}"));
        w.files.push(FileSpec::new(&format!("/w/{}", u.path.trim_start_matches('/')), b"{\"decoy\": 2}"));
    }
    if r.chance(60) {
        w.elsewhere = Some(Bytes(bytes.to_vec()));
    }
    let mut c = case("C05", seed, w, vec![Call::new(&name, &u.text, &o, Expect::Error)]);
    c.tags = tags.into_iter().map(|s| s.to_string()).collect();
    if r.chance(30) {
        c.variant = "progress".into();
    }
    c
}

fn gen_c06(r: &mut Rng, seed: u64) -> LibCase {
    let s = loop {
        let s = sample(r, 5, 12);
        if s.is_container() {
            break s;
        }
    };
    let o = opts(r, &s, 30, 15, 20);
    let mut w = world(r);
    w.tick_ns = 1000;
    let bytes = s.text.as_bytes();
    let name = type_name(r);
    let mut tags = vec![];
    let mut delay_total = 0u64;
    let kind = r.below(8);
    let (input, expect) = match kind {
        0 => {
            tags.push("connect_stall");
            let u = url_named(r, 0);
            let n = r.range(1, 4) as usize;
            let mut addrs = vec![];
            for i in 0..n {
                let ip = 0xC0000210 + i as u32;
                addrs.push(ip);
                w.eps.push(EpSpec { ip, port: u.port, kind: EpKind::Timeout, delay_ms: 0, wr: Script::default() });
            }
            w.hosts.push(HostSpec { name: u.name(), rc: 0, addrs, delay_ms: r.below(5000) as u32 });
            (u.text, Expect::Error)
        }
        1 => {
            tags.push("silent_after_accept");
            let u = url(r, 0);
            let ep = reachable(&mut w, &u, 0);
            w.eps[ep].kind = EpKind::Silent;
            (u.text, Expect::Error)
        }
        2 | 3 | 4 => {
            let mut resp = RespSpec::ok(bytes, framing(r));
            if r.chance(40) {
                resp.close = true;
            }
            if let Framing::Chunked(_) = resp.framing {
                resp.framing = Framing::Chunked(vec![bytes.len().max(1) as u32]);
            }
            let (h, b) = resp.wire_parts();
            let lead = if matches!(resp.framing, Framing::Chunked(_)) { b.len() - bytes.len() - 7 } else { 0 };
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, true, true);
            let at = if kind == 2 {
                tags.push("stall_in_header");
                r.below(h.len() as u64)
            } else {
                tags.push("stall_in_body");
                h.len() as u64 + lead as u64 + offset(r, bytes, s.end as u64)
            };
            resp.rd.events.retain(|(off, _)| *off <= at);
            resp.rd.add(at, Ev::Stall);
            let hops = if r.chance(75) { 0 } else { r.range(1, 2) };
            let u = place(r, &mut w, resp, hops, &mut Allowed::default());
            (u, Expect::Error)
        }
        5 => {
            tags.push("redirect_stalls");
            let u = url(r, 0);
            let ep = reachable(&mut w, &u, 0);
            let mut a = RespSpec::ok(bytes, Framing::Length(0));
            a.status = *r.pick(&[301, 302, 307, 308]);
            let u2 = url(r, 1);
            a.headers = vec![("Location".into(), u2.location())];
            let ep2 = reachable(&mut w, &u2, 0);
            w.eps[ep2].kind = if r.chance(50) { EpKind::Silent } else { EpKind::Timeout };
            route(&mut w, ep, &u, a);
            (u.text, Expect::Error)
        }
        _ => {
            // slow but steady
            tags.push("slow_but_steady");
            let mut resp = RespSpec::ok(bytes, framing(r));
            let wire = resp.wire();
            let n = r.range(2, 60).min(wire.len() as u64);
            let gap = r.range(500, 10_000) as u32;
            for i in 0..n {
                let off = wire.len() as u64 * i / n;
                resp.rd.add(off, Ev::Split);
                resp.rd.add(off, Ev::Delay(gap));
                delay_total += gap as u64;
            }
            let u = place(r, &mut w, resp, 0, &mut Allowed::default());
            (u, whole(&s))
        }
    };
    let mut c = case("C06", seed, w, vec![Call::new(&name, &input, &o, expect)]);
    for ro in &c.world.routes {
        for (_, e) in &ro.resp.rd.events {
            if let Ev::Delay(ms) = e {
                delay_total += *ms as u64;
            }
        }
    }
    c.bound_ms = Some(15 * 60_000 + delay_total);
    c.tags = tags.into_iter().map(|s| s.to_string()).collect();
    if r.chance(30) {
        c.variant = "progress".into();
    }
    c
}

/// Where the top-level value ends, found by matching brackets outside strings; None if it does not.
pub fn root_end(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() && matches!(b[i], b' ' | b'\n' | b'\t' | b'\r') {
        i += 1;
    }
    if i >= b.len() || (b[i] != b'{' && b[i] != b'[') {
        return None;
    }
    let mut depth = 0i64;
    let mut in_str = false;
    while i < b.len() {
        let c = b[i];
        if in_str {
            if c == b'\\' {
                i += 1;
            } else if c == b'"' {
                in_str = false;
            }
        } else {
            match c {
                b'"' => in_str = true,
                b'{' | b'[' => depth += 1,
                b'}' | b']' => {
                    depth -= 1;
                    if depth == 0 {
                        return Some(i + 1);
                    }
                }
                _ => {}
            }
        }
        i += 1;
    }
    None
}

/// The pieces of a JSON text: whole tokens, and the space between them.
fn pieces(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let s = i;
        match b[i] {
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i = (i + 1).min(b.len());
            }
            b'{' | b'}' | b'[' | b']' | b',' | b':' => i += 1,
            b' ' | b'\n' | b'\t' | b'\r' => {
                while i < b.len() && matches!(b[i], b' ' | b'\n' | b'\t' | b'\r') {
                    i += 1;
                }
            }
            _ => {
                while i < b.len() && !matches!(b[i], b'{' | b'}' | b'[' | b']' | b',' | b':' | b'"' | b' ' | b'\n' | b'\t' | b'\r') {
                    i += 1;
                }
            }
        }
        v.push(b[s..i].to_vec());
    }
    v
}

/// Damage that falls on token boundaries: every token of the result is a good one.
fn damage_tokens(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = pieces(b);
    for _ in 0..if r.chance(70) { 1 } else { r.range(2, 4) } {
        if v.len() < 2 {
            break;
        }
        let i = r.us(v.len());
        let j = r.us(v.len());
        match r.below(6) {
            0 => {
                let sep: &[u8] = if r.chance(50) { b" " } else { b"" };
                let x = v[i].clone();
                v.insert(i + 1, x);
                v.insert(i + 1, sep.to_vec());
            }
            1 => {
                v.remove(i);
            }
            2 => {
                let n = v.len();
                v.swap(i, (i + 1) % n)
            }
            3 => v[i] = v[j].clone(),
            4 => {
                let x = v[j].clone();
                v.insert(i, x);
            }
            _ => {
                let x: &[u8] = *r.pick(&[&b","[..], b":", b"{", b"}", b"[", b"]", b"null", b"true", b"1", b"\"k\"", b"\"k\":", b"\"k\":1,", b",,", b"{}", b"[]", b"/*x*/", b"//x\n", b"'k'", b"NaN", b"undefined", b"\xef\xbb\xbf", b"#"]);
                v.insert(i, x.to_vec());
            }
        }
    }
    v.concat()
}

/// Whether the text opens with a value of the right structure, and where it ends. Scalars are taken as loosely
/// as the generator takes them: any run of number characters, control characters and lone surrogates in strings.
fn structure(b: &[u8]) -> Option<usize> {
    fn ws(b: &[u8], i: &mut usize) {
        while *i < b.len() && matches!(b[*i], b' ' | b'\n' | b'\t' | b'\r') {
            *i += 1;
        }
    }
    fn string(b: &[u8], i: &mut usize) -> Option<()> {
        *i += 1;
        loop {
            match *b.get(*i)? {
                b'"' => {
                    *i += 1;
                    return Some(());
                }
                b'\\' => match *b.get(*i + 1)? {
                    b'u' => {
                        for k in 0..4 {
                            if !b.get(*i + 2 + k)?.is_ascii_hexdigit() {
                                return None;
                            }
                        }
                        *i += 6;
                    }
                    b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => *i += 2,
                    _ => return None,
                },
                _ => *i += 1,
            }
        }
    }
    enum Next {
        Value,
        KeyOrEnd,
        Key,
        ValueOrEnd,
        After,
    }
    let mut i = 0;
    let mut open: Vec<u8> = vec![];
    let mut next = Next::Value;
    loop {
        ws(b, &mut i);
        let c = *b.get(i)?;
        match next {
            Next::KeyOrEnd | Next::ValueOrEnd if c == b'}' || c == b']' => {
                if open.pop()? != c {
                    return None;
                }
                i += 1;
                next = Next::After;
            }
            Next::Key | Next::KeyOrEnd => {
                if c != b'"' {
                    return None;
                }
                string(b, &mut i)?;
                ws(b, &mut i);
                if *b.get(i)? != b':' {
                    return None;
                }
                i += 1;
                next = Next::Value;
                continue;
            }
            Next::Value | Next::ValueOrEnd => {
                next = Next::After;
                match c {
                    b'{' => {
                        open.push(b'}');
                        i += 1;
                        next = Next::KeyOrEnd;
                        continue;
                    }
                    b'[' => {
                        open.push(b']');
                        i += 1;
                        next = Next::ValueOrEnd;
                        continue;
                    }
                    b'"' => string(b, &mut i)?,
                    b't' if b[i..].starts_with(b"true") => i += 4,
                    b'f' if b[i..].starts_with(b"false") => i += 5,
                    b'n' if b[i..].starts_with(b"null") => i += 4,
                    b'-' | b'0'..=b'9' => {
                        while i < b.len() && matches!(b[i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                            i += 1;
                        }
                    }
                    _ => return None,
                }
            }
            Next::After => {
                let o = open.last().copied().unwrap_or(0);
                i += 1;
                match (c, o) {
                    (b',', b'}') => next = Next::Key,
                    (b',', b']') => next = Next::Value,
                    (b'}', b'}') | (b']', b']') => {
                        open.pop();
                    }
                    _ => return None,
                }
            }
        }
        if open.is_empty() {
            return Some(i);
        }
    }
}

pub fn damage(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    if r.chance(35) {
        return damage_tokens(r, b);
    }
    let mut v = b.to_vec();
    let n = match r.below(4) {
        0 | 1 => 1,
        2 => r.range(2, 4),
        _ => r.range(4, 20),
    };
    for _ in 0..n {
        if v.is_empty() {
            v.push(b'{');
        }
        let i = r.us(v.len());
        let cap = *r.pick(&[1, 4, 64, 4096]);
        let len = 1 + r.us((v.len() - i).min(cap).max(1));
        let len = len.min(v.len() - i);
        match r.below(9) {
            0 => v[i] ^= 1 << r.below(8),
            1 => v[i] = r.next() as u8,
            2 => {
                v.drain(i..i + len);
            }
            3 => {
                let part: Vec<u8> = v[i..i + len].to_vec();
                let at = r.us(v.len() + 1);
                for (k, x) in part.into_iter().enumerate() {
                    v.insert((at + k).min(v.len()), x);
                }
            }
            4 => v[i..i + len].reverse(),
            5 => {
                // swap two stretches
                let j = r.us(v.len());
                let m = len.min(v.len() - j).min(64);
                for k in 0..m {
                    if i + k < v.len() {
                        v.swap(i + k, j + k);
                    }
                }
            }
            6 => v.insert(i, *r.pick(b"\"\\{}[],:0-+.eEtfnu\x00\xff\xc3\xe2\xf0\x80 \n")),
            7 => v[i] = *r.pick(b"\"\\{}[],:0-+.eEtfnu\x00\xff\xc3\xe2\xf0\x80 \n"),
            _ => {
                // damage an escape sequence
                let e: &[u8] = r.pick(&[&b"\\u12"[..], b"\\uD800", b"\\uDC00\\uD800", b"\\uD83D\\u0041", b"\\x", b"\\", b"\\u", b"\\uZZZZ", b"\\u00e", b"\xc3\x28", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\\uD83D\\n"]);
                for (k, x) in e.iter().enumerate() {
                    v.insert((i + k).min(v.len()), *x);
                }
            }
        }
    }
    v
}

fn deep(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[50usize, 120, 500, 1000, 5000, 20000, 100000, 400000]);
    let mut v = Vec::new();
    let mut close = Vec::new();
    let kind = r.below(4);
    for i in 0..n {
        let obj = match kind {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => r.chance(50),
        };
        if obj {
            v.extend_from_slice(if r.chance(90) { b"{\"a\":" } else { b"{\"b\":1,\"a\":" });
            close.push(b'}');
        } else {
            v.push(b'[');
            close.push(b']');
        }
    }
    v.extend_from_slice(b"1");
    close.reverse();
    if r.chance(75) {
        v.extend_from_slice(&close);
    }
    v
}

fn gen_c07(r: &mut Rng, seed: u64) -> LibCase {
    let mut w = world(r);
    let name = type_name(r);
    let (s, data, is_deep) = if r.chance(8) {
        let d = deep(r);
        (Sample { text: "{\"a\":{\"a\":[[1]]}}".into(), start: 0, end: 1, value: J::Obj(vec![("a".into(), J::Obj(vec![("a".into(), J::Arr(vec![]))]))]) }, d, true)
    } else {
        let long = r.chance(3);
        let s = if long { crate::gen::long_array(r) } else { sample(r, 10, 6) };
        let d = if r.chance(if long { 50 } else { 4 }) { s.text.as_bytes().to_vec() } else { damage(r, s.text.as_bytes()) };
        (s, d, false)
    };
    let mut o = opts(r, &s, 40, 25, 40);
    if r.chance(8) {
        // the other input mode is driven with damaged text too
        o = o.replacen('{', if r.chance(50) { "{ input_mode: \"sql\", " } else { "{ input_mode: \"json\", " }, 1);
    }
    let (sql, data) = if !is_deep && r.chance(5) {
        let t = crate::gen::sql(r);
        let d = if r.chance(25) { t.into_bytes() } else { damage(r, t.as_bytes()) };
        o = crate::gen::sql_mode(&opts(r, &s, 40, 0, 40));
        (true, d)
    } else {
        (false, data)
    };
    let c = match r.below(10) {
        _ if sql => {
            let t = String::from_utf8_lossy(&data).into_owned();
            Call::new(&name, &t, &o, Expect::Delivered(Bytes(t.clone().into_bytes())))
        }
        0 | 1 if std::str::from_utf8(&data).map(|t| t.trim().starts_with(['{', '['])).unwrap_or(false) => {
            let t = String::from_utf8(data.clone()).unwrap();
            Call::new(&name, &t, &o, Expect::Delivered(Bytes(data)))
        }
        2 | 3 => {
            let mut resp = RespSpec::ok(&data, framing(r));
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, true, false);
            let u = place(r, &mut w, resp, 0, &mut Allowed::default());
            Call::new(&name, &u, &o, Expect::Delivered(Bytes(data)))
        }
        _ => {
            let (input, abs) = path(r);
    let (input, abs) = (&input[..], &abs[..]);
            let mut f = FileSpec::new(abs, &data);
            f.rd = delivery(r, &data, true, false);
            if is_deep {
                f.rd = Script::default();
            }
            w.files.push(f);
            Call::new(&name, input, &o, Expect::Delivered(Bytes(data)))
        }
    };
    let mut c = case("C07", seed, w, vec![c]);
    c.stack_kb = 2048;
    if is_deep {
        c.tags.push("deep_nesting".into());
    }
    if r.chance(20) {
        c.variant = "progress".into();
    }
    c
}

/// One call of any kind with its own piece of the world; `k` keeps names apart.
/// A call on something that is not quite a sample; what comes out does not matter.
fn odd_call(r: &mut Rng, w: &mut World, k: usize) -> Call {
    let s = small_sample(r, 0);
    let bytes = s.text.as_bytes();
    let o = opts(r, &s, 30, 15, 25);
    let name = type_name(r);
    if r.chance(60) || w.routes.len() > 17 || w.eps.len() > 10 || w.hosts.len() > 10 {
        let p = format!("/odd/{}.json", k);
        let mut f = FileSpec::new(&p, bytes);
        match r.below(11) {
            0 => f.is_dir = true,
            1 => f.is_fifo = true,
            2 => f.stat_err = *r.pick(&[libc::EIO, libc::EACCES, libc::ESTALE, libc::ENOMEM, libc::EOVERFLOW]),
            3 => f.open_err = *r.pick(&[libc::EACCES, libc::ELOOP, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ENAMETOOLONG]),
            4 => f.data = Bytes(vec![]),
            5 => f.fake_size = Some(*r.pick(&[0, 1, i64::MAX, 1 << 40])),
            6 => f.rd.add(0, Ev::Err(*r.pick(&[libc::EIO, libc::EISDIR, libc::EAGAIN, libc::EINVAL]), 0)),
            7 => f.data = Bytes(damage(r, bytes)),
            8 => f.data = Bytes(b"\xff\xfe[\x001\x00]\x00".to_vec()),
            9 => f.open_limit = 1,
            _ => f.rd.add(r.below(bytes.len() as u64 + 1), Ev::Eof),
        }
        w.files.push(f);
        return Call::new(&name, &p, &o, Expect::Any);
    }
    let host = format!("odd{}.test", k);
    let ip = 0x0A010000 + k as u32;
    let text = format!("http://{}/odd", host);
    let mut h = HostSpec { name: host.clone(), rc: 0, addrs: vec![ip], delay_ms: 0 };
    let mut kind = EpKind::Ok;
    let mut resp = RespSpec::ok(bytes, framing(r));
    match r.below(10) {
        0 => h.rc = *r.pick(&[libc::EAI_NONAME, libc::EAI_AGAIN, libc::EAI_FAIL]),
        1 => kind = EpKind::Err(*r.pick(&[libc::ECONNREFUSED, libc::ENETUNREACH, libc::EHOSTUNREACH])),
        2 => kind = EpKind::Silent,
        3 => kind = EpKind::Timeout,
        4 => h.addrs.insert(0, 0x0A020000 + k as u32),
        5 => {
            resp.status = 302;
            resp.headers = vec![("Location".into(), (*r.pick(&["/odd", "http://[::1/", "//", "", "ftp://x.test/", "http://nowhere.test/"])).into())];
        }
        6 => resp.status_line = Some((*r.pick(&["HTTP/1.1 abc", "nonsense", "HTTP/9.9 200 OK", "", "HTTP/1.1"])).into()),
        7 => resp.headers.push(("Content-Length".into(), (*r.pick(&["-1", "99999999999999999999", "x", ""])).into())),
        8 => resp.status = *r.pick(&[204, 205, 304, 404, 500]),
        _ => {
            resp.gzip = true;
            let n = resp.wire().len() as u64;
            resp.cut = Some(r.below(n));
        }
    }
    w.hosts.push(h);
    w.eps.push(EpSpec { ip, port: 80, kind, delay_ms: 0, wr: Script::default() });
    let ep = w.eps.len() - 1;
    w.routes.push(RouteSpec { ep: Some(ep), host, path: "/odd".into(), resp, max_uses: 0 });
    Call::new(&name, &text, &o, Expect::Any)
}

fn some_call(r: &mut Rng, w: &mut World, k: usize, allow_before: bool) -> Call {
    let s = small_sample(r, 0);
    let o = opts(r, &s, 30, 15, 25);
    let name = type_name(r);
    let bytes = s.text.as_bytes();
    if r.chance(6) {
        let t = crate::gen::sql(r);
        let t = if r.chance(25) { damage_text(r, &t) } else { t };
        return Call::new(&name, &t, &crate::gen::sql_mode(&o), Expect::Inline(t.clone()));
    }
    match r.below(12) {
        0 | 1 => Call::new(&name, &s.text, &o, Expect::Inline(s.text.clone())),
        2 => {
            // damaged inline text
            let t = format!("{}{}", &s.text[..s.start], damage_text(r, &s.text[s.start..]));
            Call::new(&name, &t, &o, Expect::Inline(t.clone()))
        }
        3 | 4 if w.files.len() < 20 => {
            let p = format!("/f/{}.json", k);
            let mut f = FileSpec::new(&p, bytes);
            f.rd = delivery(r, bytes, true, true);
            w.files.push(f);
            Call::new(&name, &p, &o, Expect::Inline(s.text.clone()))
        }
        5 if w.files.len() < 20 => {
            let p = format!("/f/{}.json", k);
            let mut f = FileSpec::new(&p, bytes);
            f.rd.add(offset(r, bytes, s.end as u64), Ev::Err(libc::EIO, 0));
            w.files.push(f);
            Call::new(&name, &p, &o, Expect::Error)
        }
        6 => Call::new(&name, &format!("/f/missing{}.json", k), &o, Expect::Error),
        7 if allow_before && w.files.len() < 20 => {
            // same path, new contents
            let p = format!("/f/shared{}.json", k % 2);
            if !w.files.iter().any(|f| f.path == p) {
                w.files.push(FileSpec::new(&p, b"{\"old\": 1}"));
            }
            let mut c = Call::new(&name, &p, &o, Expect::Inline(s.text.clone()));
            c.before.push((p, Bytes(bytes.to_vec())));
            c
        }
        8 if w.routes.len() < 20 => {
            // stalls in the middle, on a connection that would otherwise be kept
            let u = Url { path: format!("/r{}.json", k), ..url(r, k % 2) };
            let u = Url { text: format!("http://{}{}", u.host, u.path), ..u };
            let ep = reachable(w, &u, 0);
            let mut resp = RespSpec::ok(bytes, Framing::Length(0));
            let h = resp.wire_parts().0.len() as u64;
            let off = h + offset(r, bytes, s.end as u64);
            match r.below(3) {
                0 => resp.rd.add(off, Ev::Stall),
                1 => resp.rd.add(off, Ev::Delay(10_000_000)),
                _ => resp.rd.add(off, Ev::Err(libc::ECONNRESET, 0)),
            }
            route(w, ep, &u, resp);
            Call::new(&name, &u.text, &o, Expect::Error)
        }
        9 if w.routes.len() < 20 && allow_before => {
            // the resource changes between two requests
            let u = url(r, k % 2);
            let u = Url { path: format!("/v{}.json", k), text: format!("http://{}/v{}.json", u.host, k), ..u };
            let ep = reachable(w, &u, 0);
            w.routes.push(RouteSpec { ep: Some(ep), host: u.host.clone(), path: u.path.clone(), resp: any_response(r, bytes, false), max_uses: 0 });
            Call::new(&name, &u.text, &o, Expect::Inline(s.text.clone()))
        }
        _ if w.routes.len() < 20 => {
            let u = url(r, k % 2);
            let u = Url { path: format!("/r{}.json", k), text: format!("http://{}/r{}.json", u.host, k), ..u };
            let ep = reachable(w, &u, 0);
            let resp = any_response(r, bytes, true);
            route(w, ep, &u, resp);
            Call::new(&name, &u.text, &o, Expect::Inline(s.text.clone()))
        }
        _ => Call::new(&name, &s.text, &o, Expect::Inline(s.text.clone())),
    }
}

/// The same text but for one letter or digit.
fn nearly(r: &mut Rng, t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    let at: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_alphanumeric()).collect();
    if at.is_empty() {
        return t.to_string();
    }
    let i = *r.pick(&at);
    b[i] = match b[i] {
        b'9' => b'1',
        d @ b'0'..=b'8' => d + 1,
        b'z' => b'b',
        b'Z' => b'B',
        l => l + 1,
    };
    String::from_utf8(b).unwrap()
}

fn gen_c08(r: &mut Rng, seed: u64) -> LibCase {
    let mut w = world(r);
    let concurrent = r.chance(70);
    let nt = if concurrent { r.range(2, 4) } else { 1 } as usize;
    let mut tasks = Vec::new();
    let mut k = 0;
    for _ in 0..nt {
        let n = if concurrent { r.range(1, 3) } else { r.range(2, 7) };
        let mut v: Vec<Call> = Vec::new();
        for _ in 0..n {
            if !v.is_empty() && r.chance(15) {
                // the same call again
                let c = v[r.us(v.len())].clone();
                v.push(c);
            } else if !v.is_empty() && r.chance(25) {
                // same input, other options or name
                let mut c = v[r.us(v.len())].clone();
                let dummy = small_sample(r, 0);
                if !matches!(c.expect, Expect::Error) {
                    let was_sql = c.options.contains("input_mode: \"sql\"");
                    c.options = opts(r, &dummy, 20, 0, 30);
                    if was_sql {
                        c.options = crate::gen::sql_mode(&c.options);
                    }
                    if r.chance(50) {
                        c.name = type_name(r);
                    }
                }
                v.push(c);
            } else if !v.is_empty() && r.chance(20) {
                // almost the same text in the same place: what a memory keyed by less
                // than the whole of it would take for the same
                let i = r.us(v.len());
                let (p, old) = (v[i].input.clone(), v[i].expect.clone());
                let Expect::Inline(old) = old else { continue };
                let new = nearly(r, &old);
                let mut c = v[i].clone();
                c.expect = Expect::Inline(new.clone());
                if p == old {
                    c.input = new;
                } else if p.starts_with("/f/") && !concurrent {
                    for e in v.iter_mut().filter(|e| e.input == p) {
                        let Expect::Inline(t) = &e.expect else { continue };
                        if e.before.iter().all(|b| b.0 != p) {
                            e.before.push((p.clone(), Bytes(t.clone().into_bytes())));
                        }
                    }
                    c.before.retain(|b| b.0 != p);
                    c.before.push((p, Bytes(new.into_bytes())));
                } else {
                    continue;
                }
                v.push(c);
            } else {
                let odd = r.chance(15) && w.files.len() < 20;
                v.push(if odd { odd_call(r, &mut w, k) } else { some_call(r, &mut w, k, !concurrent) });
                k += 1;
            }
        }
        tasks.push(v);
    }
    if !concurrent && r.chance(30) && w.routes.len() < 18 {
        // one URL, two versions of the resource
        let a = small_sample(r, 0);
        let mut b = small_sample(r, 0);
        if r.chance(40) {
            b.text = nearly(r, &a.text);
        }
        let u = url(r, 0);
        let u = Url { path: "/changing.json".into(), text: format!("http://{}/changing.json", u.host), ..u };
        let ep = reachable(&mut w, &u, 0);
        for (i, s) in [&a, &b].iter().enumerate() {
            let resp = any_response(r, s.text.as_bytes(), false);
            w.routes.push(RouteSpec { ep: Some(ep), host: u.host.clone(), path: u.path.clone(), resp, max_uses: if i == 0 { 1 } else { 0 } });
        }
        let name = type_name(r);
        let o = opts(r, &a, 0, 0, 20);
        tasks[0].push(Call::new(&name, &u.text, &o, Expect::Inline(a.text.clone())));
        if r.chance(50) {
            let c = some_call(r, &mut w, 90, false);
            tasks[0].push(c);
        }
        tasks[0].push(Call::new(&name, &u.text, &o, Expect::Inline(b.text.clone())));
    }
    let mut c = case("C08", seed, w, vec![]);
    c.tasks = tasks;
    c.switch_pct = *r.pick(&[5, 20, 50, 90]);
    if concurrent && r.chance(60) {
        c.alloc_every = *r.pick(&[1, 3, 17, 101]);
    }
    if r.chance(25) {
        c.variant = "progress".into();
    }
    c
}

pub fn env_any(r: &mut Rng) -> String {
    r.pick(&["1", "0", "true", "false", "/data/sample.json", "/tmp", "http://proxy.test:3128", "tr_TR.UTF-8", "typescript", "{}", "debug", "camelCase", "x"]).to_string()
}

fn gen_c09(r: &mut Rng, seed: u64) -> LibCase {
    let mut w = world(r);
    let s = if r.chance(25) { differing_objects(r) } else { small_sample(r, 10) };
    let o = opts(r, &s, 40, 20, 40);
    let name = type_name(r);
    let sql = r.chance(8);
    let o = if sql { crate::gen::sql_mode(&o) } else { o };
    let input = if sql {
        crate::gen::sql(r)
    } else if s.is_container() && r.chance(50) {
        s.text.clone()
    } else if r.chance(70) || !s.is_container() {
        let mut f = FileSpec::new("/data/sample.json", s.text.as_bytes());
        f.rd = delivery(r, s.text.as_bytes(), true, true);
        w.files.push(f);
        "/data/sample.json".to_string()
    } else {
        let mut resp = any_response(r, s.text.as_bytes(), true);
        resp.rd.events.retain(|e| !matches!(e.1, Ev::Err(..)));
        place(r, &mut w, resp, 0, &mut Allowed::default())
    };
    let mut c = case("C09", seed, w, vec![Call::new(&name, &input, &o, Expect::Any)]);
    let n = r.range(3, 5);
    for i in 0..n {
        let mut env = vec![];
        for k in ["LANG", "LC_ALL", "TZ", "HOME", "USER", "RUST_LOG", "NO_COLOR", "TERM", "CARGO_PKG_NAME", "SOURCE_DATE_EPOCH", "JSON_TYPEGEN_OPTIONS", "COLUMNS"] {
            if r.chance(40) {
                let v = *r.pick(&["C", "tr_TR.UTF-8", "1", "", "/nonexistent", "UTC", "debug", "sv_SE"]);
                env.push((k.to_string(), v.to_string()));
            }
        }
        c.alts.push(Alt {
            rand_seed: r.next(),
            clock_ns: 1 + (r.below(4_000_000_000) as i64) * 1_000_000_000 + r.below(999_999_999) as i64,
            warmups: if i == 0 { 0 } else { r.below(4) as u32 },
            cwd: if r.chance(50) { r.pick(&["/", "/tmp/x", "/home/user/project"]).to_string() } else { String::new() },
            heap: if r.chance(60) { r.range(1, 2000) as u32 } else { 0 },
            env,
            env_any: if r.chance(50) { env_any(r) } else { String::new() },
        });
    }
    if r.chance(30) {
        c.variant = "progress".into();
    }
    c
}

fn gen_c10(r: &mut Rng, seed: u64) -> LibCase {
    let mut w = world(r);
    let s = small_sample(r, 5);
    let mut o = opts(r, &s, 30, 15, 20);
    let name = type_name(r);
    let damaged;
    let bytes = if r.chance(30) {
        damaged = damage(r, s.text.as_bytes());
        &damaged[..]
    } else {
        s.text.as_bytes()
    };
    let mut al = Allowed::default();
    let mut variant = if r.chance(35) { "progress" } else { "plain" };
    let kind = r.below(10);
    let input = match kind {
        0..=2 => {
            // inline, also text that mentions paths and URLs
            let t = match r.below(6) {
                5 => {
                    o = crate::gen::sql_mode(&o);
                    match r.below(6) {
                        0 => "http://example.test/x".to_string(),
                        1 => "/data/sample.json".to_string(),
                        2 => "CREATE TABLE \"/data/sample.json\" (\"http://example.test/x\" INT)".to_string(),
                        3 => "COPY t FROM '/data/sample.json'; CREATE EXTERNAL TABLE t (a INT) LOCATION 'http://example.test/x'".to_string(),
                        _ => crate::gen::sql(r),
                    }
                }
                0 => "{\"url\": \"http://example.test/x\", \"file\": \"/etc/passwd\"}".to_string(),
                1 => "[\"http://example.test/x\", \"/data/sample.json\"]".to_string(),
                2 => "  {\"$ref\": \"http://example.test/schema.json\"}".to_string(),
                3 => "{\"broken".to_string(),
                _ => {
                    if s.is_container() {
                        s.text.clone()
                    } else {
                        "[1]".into()
                    }
                }
            };
            t
        }
        3..=5 => {
            let (input, abs) = path(r);
    let (input, abs) = (&input[..], &abs[..]);
            let mut f = FileSpec::new(abs, bytes);
            match r.below(8) {
                0 => f.open_err = libc::EACCES,
                1 => f.exists = false,
                2 => f.rd.add(offset(r, bytes, s.end.min(bytes.len()) as u64), Ev::Err(libc::EIO, 0)),
                3 => f.rd.add(offset(r, bytes, s.end.min(bytes.len()) as u64), Ev::Eof),
                _ => f.rd = delivery(r, bytes, true, false),
            }
            w.files.push(f);
            al.paths.push(abs.to_string());
            input.to_string()
        }
        _ => {
            let mut resp = any_response(r, bytes, false);
            match r.below(6) {
                0 => resp.status = *r.pick(&[404, 500, 401]),
                1 => resp.cut = Some(r.below(resp.wire().len() as u64)),
                _ => {}
            }
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, true, false);
            let hops = if r.chance(60) { 0 } else { r.range(1, 3) };
            place(r, &mut w, resp, hops, &mut al)
        }
    };
    if r.chance(12) {
        variant = "nolocal";
        al = Allowed::default();
    }
    // decoys that must stay untouched
    w.files.push(FileSpec::new("/w/config.toml", b"x = 1"));
    w.files.push(FileSpec::new("/w/.json_typegen", b"{}"));
    w.hosts.push(HostSpec { name: "proxy.test".into(), rc: 0, addrs: vec![0xC6336499], delay_ms: 0 });
    w.eps.push(EpSpec { ip: 0xC6336499, port: 3128, kind: EpKind::Ok, delay_ms: 0, wr: Script::default() });
    if r.chance(50) {
        w.env_any = env_any(r);
    }
    let n = r.range(1, 2) as usize;
    let mut c = case("C10", seed, w, vec![Call::new(&name, &input, &o, Expect::Any); n]);
    c.variant = variant.into();
    c.allowed = Some(al);
    c
}

fn gen_c11(r: &mut Rng, seed: u64) -> LibCase {
    let mut w = world(r);
    let limit = r.range(3, 6) as u32;
    let mut calls: Vec<Call> = Vec::new();
    let n = r.range(2, 8);
    for k in 0..n {
        if k > 0 && r.chance(50) {
            let c = calls[r.us(calls.len())].clone();
            calls.push(c);
            continue;
        }
        let mut c = some_call(r, &mut w, k as usize, false);
        if r.chance(30) && w.routes.len() < 18 {
            let u = url(r, 0);
            let u = Url { path: format!("/z{}", k), text: format!("http://{}/z{}", u.host, k), ..u };
            let ep = reachable(&mut w, &u, 0);
            let s = small_sample(r, 0);
            let mut resp = any_response(r, s.text.as_bytes(), false);
            match r.below(5) {
                0 => resp.status = 404,
                1 => resp.status = 500,
                2 => {
                    resp.status = 302;
                    resp.headers.retain(|h| h.0 != "Location");
                    resp.headers.push(("Location".into(), "/nowhere".into()));
                }
                _ => {
                    let n = resp.wire().len() as u64;
                    resp.cut = Some(r.below(n))
                }
            }
            let wire = resp.wire();
            resp.rd = delivery(r, &wire, true, false);
            route(&mut w, ep, &u, resp);
            c = Call::new("Root", &u.text, "{}", Expect::Any);
        } else if r.chance(35) {
            c = odd_call(r, &mut w, k as usize);
        }
        calls.push(c);
    }
    w.fd_limit = limit;
    let mut c = case("C11", seed, w, calls);
    if r.chance(45) {
        c.variant = "progress".into();
    }
    if r.chance(20) {
        // same thing with two tasks
        let mid = c.tasks[0].len() / 2;
        let half = c.tasks[0].split_off(mid);
        c.tasks.push(half);
        c.world.fd_limit = limit * 2;
    }
    c
}

pub fn gen_case(prop: &str, seed: u64, tier: &str) -> LibCase {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut c = gen_plain(r, prop, seed, tier);
    // whatever is asked for in place of the named source is there, and good
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C06" | "C10") && r.chance(35) {
        c.world.elsewhere = Some(Bytes(if r.chance(50) { b"{\"elsewhere\": [1]}".to_vec() } else { small_sample(r, 4).text.into_bytes() }));
    }
    // the environment names no source and sets no option
    if c.world.env_any.is_empty() && r.chance(15) {
        c.world.env_any = env_any(r);
    }
    c
}

fn gen_plain(r: &mut Rng, prop: &str, seed: u64, tier: &str) -> LibCase {
    match prop {
        "C01" => gen_c01(r, seed),
        "C02" => gen_c02(r, seed, tier),
        "C03" => gen_c03(r, seed),
        "C04" => gen_c04(r, seed),
        "C05" => gen_c05(r, seed),
        "C06" => gen_c06(r, seed),
        "C07" => gen_c07(r, seed),
        "C08" => gen_c08(r, seed),
        "C09" => gen_c09(r, seed),
        "C10" => gen_c10(r, seed),
        "C11" => gen_c11(r, seed),
        _ => panic!("no generator for {}", prop),
    }
}

// ---- checking -------------------------------------------------------------------------------

/// The same call with its bytes delivered whole and at once from a plain file.
fn clean(shm: &Shm, c: &Call, data: &[u8]) -> Outcome {
    let mut w = World::default();
    w.files.push(FileSpec::new("/base/sample.json", data));
    let mut call = c.clone();
    call.input = "/base/sample.json".into();
    call.before.clear();
    let cs = case("base", 0, w, vec![call]);
    run(shm, &cs).outcomes[0][0].clone()
}

fn sample_bytes(case: &LibCase) -> Vec<u8> {
    if let Some(f) = case.world.files.first() {
        return f.data.0.clone();
    }
    if let Some(r) = case.world.routes.first() {
        return r.resp.body.0.clone();
    }
    vec![]
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Outcome::Ok(x), Outcome::Ok(y)) => x == y,
        (Outcome::Err { class: c1, msg: m1 }, Outcome::Err { class: c2, msg: m2 }) => c1 == c2 && blame(m1) == blame(m2),
        (Outcome::Panic(_), Outcome::Panic(_)) => true,
        _ => false,
    }
}

/// As `same`; inline text is trimmed, which may change what exactly is wrong at its end.
fn same_as_inline(text: &str, a: &Outcome, b: &Outcome) -> bool {
    same(a, b)
        || match (a, b) {
            (Outcome::Err { class: x, .. }, Outcome::Err { class: y, .. }) => x == y && text.trim_end() != text,
            _ => false,
        }
}

fn source_tag(input: &str) -> &'static str {
    let t = input.trim();
    if t.starts_with('{') || t.starts_with('[') {
        "inline"
    } else if t.starts_with("http") {
        "http"
    } else {
        "file"
    }
}

pub fn check_case(shm: &Shm, case: &LibCase) -> Verdict {
    let mut v = Verdict::default();
    let mut sched_alts: Vec<(Outcome, String)> = vec![];
    if case.prop == "C09" {
        // the same call under changed circumstances
        for (i, alt) in case.alts.iter().enumerate() {
            let mut c = case.clone();
            c.world.rand_seed = alt.rand_seed;
            c.world.clock_ns = alt.clock_ns;
            c.world.env_any = alt.env_any.clone();
            c.world.sim_seed ^= i as u64;
            let mut warm = vec![];
            for k in 0..alt.warmups {
                warm.push(Call::new("Warm", &format!("{{\"w{}\": [{{\"x\": 1, \"y\": \"{}\"}}]}}", k, k), "{ output_mode: \"rust\" }", Expect::Any));
            }
            let n = warm.len();
            warm.extend(c.tasks[0].clone());
            c.tasks[0] = warm;
            let mut junk: Vec<Vec<u8>> = vec![];
            let mut hr = Rng::new(alt.rand_seed);
            for _ in 0..alt.heap {
                junk.push(vec![0; 1 + hr.us(300)]);
            }
            for k in (0..junk.len()).rev() {
                if hr.chance(50) {
                    junk.swap_remove(k);
                }
            }
            let saved: Vec<(String, Option<String>)> = alt.env.iter().map(|(k, _)| (k.clone(), std::env::var(k).ok())).collect();
            for (k, val) in &alt.env {
                std::env::set_var(k, val);
            }
            let out = run_in(shm, &c, &alt.cwd);
            for (k, old) in saved {
                match old {
                    Some(o) => std::env::set_var(&k, o),
                    None => std::env::remove_var(&k),
                }
            }
            drop(junk);
            v.collect(shm);
            sched_alts.push((out.outcomes[0][n].clone(), format!("{:?}", alt)));
        }
        let first = sched_alts[0].clone();
        for (o, a) in &sched_alts[1..] {
            let eq = match (o, &first.0) {
                (Outcome::Ok(x), Outcome::Ok(y)) => x == y,
                (Outcome::Err { .. }, Outcome::Err { .. }) => o == &first.0,
                (Outcome::Panic(_), Outcome::Panic(_)) => true,
                _ => false,
            };
            if !eq {
                v.fail("not_reproducible", format!("output depends on circumstances: under {} got {} but under {} got {}", first.1, diff_brief(&first.0, o).0, a, diff_brief(&first.0, o).1));
            }
        }
        return v;
    }

    let out = run(shm, case);
    v.collect(shm);
    let (fired_err, n_stat_err, open_fds, bad_close) = {
        let s = shm.s();
        (s.fired[EV_ERR as usize], s.n_stat_err, s.open_fds, s.bad_close)
    };
    if let Some(al) = &case.allowed {
        check_allowed(shm, case, al, &mut v);
    }
    if case.prop == "C05" {
        let s = shm.s();
        for i in 0..(s.nops as usize).min(MAXOPS) {
            let o = &s.ops[i];
            if o.op == OP_OPEN && o.ret >= 0 {
                v.fail("fallback", format!("a file was opened for a URL sample: {:?}", shm.op_str(i)));
            }
        }
    }
    if case.prop == "C11" {
        if open_fds != 0 {
            v.fail("leak", format!("{} descriptor(s) still open after the calls returned: {}", open_fds, outs(&out)));
        }
        if bad_close != 0 {
            v.fail("double_close", format!("{} operation(s) on a closed descriptor: {}", bad_close, outs(&out)));
        }
        if case.tasks.len() == 1 {
            for (i, rec) in out.recs[0].iter().enumerate() {
                if rec.fds_after != 0 {
                    v.fail("leak", format!("{} descriptor(s) still open after call {} returned {}", rec.fds_after, i, out.outcomes[0][i].brief()));
                }
            }
        }
    }
    let sched = out.sched.clone();
    for (t, calls) in case.tasks.iter().enumerate() {
        for (i, c) in calls.iter().enumerate() {
            let got = &out.outcomes[t][i];
            let rec = &out.recs[t][i];
            v.add(&format!("calls_{}", source_tag(&c.input)), 1);
            v.add(if got.is_ok() { "calls_ok" } else { "calls_err" }, 1);
            let at = if case.tasks.len() > 1 || calls.len() > 1 { format!("task {} call {}: ", t, i) } else { String::new() };
            if let Some(b) = case.bound_ms {
                let took = (rec.end_ns - rec.start_ns) / 1_000_000;
                if rec.hang && !rec.hung_before {
                    v.fail("hang", format!("{}waits for ever for a peer that stopped making progress (no timeout)", at));
                } else if took > b {
                    v.fail("hang", format!("{}took {} s of simulated time, bound {} s", at, took / 1000, b / 1000));
                }
            } else if rec.hang && !rec.hung_before {
                v.fail("hang", format!("{}waits for ever for a peer that stopped making progress (no timeout)", at));
            }
            match &c.expect {
                Expect::Any => {}
                Expect::Inline(text) => {
                    let base = inline(c, text);
                    if !same_as_inline(text, &base, got) {
                        if case.prop == "C02" && matches!(got, Outcome::Err { .. }) {
                            if let Some((kind, what, _)) = without_known(case).into_iter().find(|k| same_as_inline(text, &base, &run(shm, &k.2).outcomes[t][i])) {
                                v.fail(kind, format!("{}{}: {}", at, what, got.brief()));
                                continue;
                            }
                        }
                        v.fail("differs", format!("{}expected the result of the same text inline: {} got: {}", at, diff_brief(&base, got).0, diff_brief(&base, got).1));
                    }
                }
                Expect::Clean => {
                    let base = clean(shm, c, &sample_bytes(case));
                    if !same(&base, got) {
                        if case.prop == "C02" && matches!(got, Outcome::Err { .. }) {
                            if let Some((kind, what, _)) = without_known(case).into_iter().find(|k| same(&base, &run(shm, &k.2).outcomes[t][i])) {
                                v.fail(kind, format!("{}{}: {}", at, what, got.brief()));
                                continue;
                            }
                        }
                        v.fail("differs", format!("{}expected the result of the same bytes delivered whole: {} got: {}", at, diff_brief(&base, got).0, diff_brief(&base, got).1));
                    }
                }
                Expect::Error => match got {
                    Outcome::Err { .. } => {}
                    _ => v.fail(if got.is_ok() { "types_from_failure" } else { "panic" }, format!("{}an error was due, got: {}", at, got.brief())),
                },
                Expect::OpenError(n) => match got {
                    Outcome::Err { msg, .. } => {
                        let want = os_err(*n);
                        let cause = want.split(" (os error").next().unwrap().to_lowercase();
                        let m = msg.to_lowercase();
                        if !m.contains(&cause) && !m.contains(&format!("os error {}", n)) {
                            v.fail("cause_not_named", format!("{}opening failed with '{}', but the error says: {}", at, want, msg));
                        }
                    }
                    _ => v.fail("types_from_failure", format!("{}the file could not be opened, got: {}", at, got.brief())),
                },
                Expect::IoError(b) => {
                    let is_stat = case.world.files.iter().any(|f| f.stat_err != 0);
                    let is_dir = case.world.files.iter().any(|f| f.is_dir);
                    let net = c.input.starts_with("http");
                    if is_stat && n_stat_err == 0 {
                        v.add("fault_not_reached", 1);
                        continue;
                    }
                    if !is_stat && !is_dir && fired_err == 0 {
                        // reading ended before the failing byte was asked for: only right for an
                        // earlier error of the sample itself
                        v.add("fault_not_reached", 1);
                    }
                    let base = match std::str::from_utf8(&b.0) {
                        Ok(t) if t.trim().starts_with(['{', '[']) => inline(c, t),
                        _ => clean(shm, c, &b.0),
                    };
                    match got {
                        Outcome::Err { msg, .. } => {
                            if base.is_ok() || is_dir {
                                let bl = blame(msg);
                                if bl != "io" {
                                    v.fail("wrong_blame", format!("{}reading failed{}, but the error reported is: {}", at, if net { " on the network" } else { "" }, msg));
                                }
                            }
                        }
                        Outcome::Ok(_) => v.fail("types_from_failure", format!("{}reading failed before the sample was complete, got: {}", at, got.brief())),
                        Outcome::Panic(_) => v.fail("panic", format!("{}{}", at, got.brief())),
                    }
                }
                Expect::Delivered(b) => match got {
                    Outcome::Panic(m) => v.fail("panic", format!("{}panicked: {}", at, clip(m, 300))),
                    _ if c.options.contains("input_mode: \"sql\"") => {}
                    Outcome::Ok(_) => {
                        let end = root_end(&b.0);
                        if let Some(e) = end {
                            if std::str::from_utf8(&b.0[..e]).is_err() {
                                v.fail("not_utf8", format!("{}the sample is not UTF-8, got: {}", at, got.brief()));
                            }
                        } else if let Some(f) = b.0.iter().find(|c| !matches!(c, b' ' | b'\n' | b'\t' | b'\r')) {
                            if *f == b'{' || *f == b'[' {
                                v.fail("types_from_failure", format!("{}the damaged sample has no complete top-level value, got: {}", at, got.brief()));
                            }
                        }
                        // text given inline is trimmed of every kind of space first
                        let text = match std::str::from_utf8(&b.0) {
                            Ok(t) if source_tag(&c.input) == "inline" => t.trim().as_bytes(),
                            _ => &b.0[..],
                        };
                        if structure(text).is_none() {
                            v.fail("types_from_failure", format!("{}the damaged sample is not JSON, got: {}", at, got.brief()));
                        }
                        let base = match std::str::from_utf8(&b.0) {
                            Ok(t) if source_tag(&c.input) == "inline" || t.trim_start_matches([' ', '\n', '\t', '\r']).starts_with(['{', '[']) => inline(c, t),
                            _ => clean(shm, c, &b.0),
                        };
                        if !same(&base, got) {
                            v.fail("differs", format!("{}expected the types of the bytes that arrived: {} got: {}", at, diff_brief(&base, got).0, diff_brief(&base, got).1));
                        }
                    }
                    Outcome::Err { .. } => {
                        let base = match std::str::from_utf8(&b.0) {
                            Ok(t) if source_tag(&c.input) == "inline" || t.trim_start_matches([' ', '\n', '\t', '\r']).starts_with(['{', '[']) => inline(c, t),
                            _ => clean(shm, c, &b.0),
                        };
                        if base.is_ok() {
                            v.fail("differs", format!("{}the bytes that arrived are a good sample inline ({}), but: {}", at, base.brief(), got.brief()));
                        }
                    }
                },
            }
        }
    }
    if case.tasks.len() > 1 {
        v.info = format!("schedule of {} decisions", sched.len());
    }
    v
}

fn outs(o: &RunOut) -> String {
    let v: Vec<String> = o.outcomes.iter().flatten().map(|x| clip(&x.brief(), 60)).collect();
    clip(&v.join(" | "), 400)
}

/// Both outcomes, cut to the region where they differ.
pub fn diff_brief(a: &Outcome, b: &Outcome) -> (String, String) {
    if let (Outcome::Ok(x), Outcome::Ok(y)) = (a, b) {
        let (xc, yc): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
        let mut i = 0;
        while i < xc.len() && i < yc.len() && xc[i] == yc[i] {
            i += 1;
        }
        let from = i.saturating_sub(30);
        let show = |c: &Vec<char>| format!("Ok(...{})", c[from.min(c.len())..].iter().take(90).collect::<String>());
        return (show(&xc), show(&yc));
    }
    (a.brief(), b.brief())
}

fn check_allowed(shm: &Shm, case: &LibCase, al: &Allowed, v: &mut Verdict) {
    let s = shm.s();
    for i in 0..(s.nops as usize).min(MAXOPS) {
        let o = &s.ops[i];
        let name = OP_NAMES[(o.op as usize).min(OP_NAMES.len() - 1)];
        let st = shm.op_str(i).unwrap_or_default();
        match o.op {
            OP_OPEN => {
                let fl = o.a as i32;
                if fl & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) != libc::O_RDONLY {
                    v.fail("opened_for_writing", format!("{} opened for writing (flags {:#o})", st, fl));
                }
                if !al.paths.contains(&st) {
                    v.fail("foreign_file", format!("opened {} for input {}", st, clip(&case.tasks[0][0].input, 60)));
                }
            }
            OP_STAT | 16 => {
                if !st.is_empty() && !al.paths.contains(&st) {
                    v.fail("foreign_file", format!("inspected {} for input {}", st, clip(&case.tasks[0][0].input, 60)));
                }
            }
            OP_WRITE | OP_RENAME | OP_UNLINK | OP_MKDIR | OP_TRUNC | 24 | 25 | 26 => {
                v.fail("modifies", format!("{} {} during code generation", name, st));
            }
            OP_DNS => {
                if !al.hosts.iter().any(|h| h.eq_ignore_ascii_case(&st)) {
                    v.fail("foreign_host", format!("resolved {} for input {}", st, clip(&case.tasks[0][0].input, 60)));
                }
            }
            OP_CONNECT => {
                let ok = al.addrs.iter().any(|(ip, p)| st == format!("{}.{}.{}.{}:{}", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255, p));
                if !ok {
                    v.fail("foreign_host", format!("connected to {} for input {}", st, clip(&case.tasks[0][0].input, 60)));
                }
            }
            _ => {}
        }
    }
    for i in 0..s.nreqs as usize {
        let t = cstr(&s.reqs[i].text);
        let first = t.lines().next().unwrap_or("").to_string();
        let mut parts = first.split(' ');
        let (m, target) = (parts.next().unwrap_or(""), parts.next().unwrap_or(""));
        let host = t.lines().find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case("host")).map(|(_, v)| v.trim().to_string())).unwrap_or_default();
        if m != "GET" {
            v.fail("not_a_get", format!("request {}", first));
        }
        if !al.targets.iter().any(|(h, p)| h.eq_ignore_ascii_case(&host) && p == target) {
            v.fail("foreign_resource", format!("requested {} from {}", target, host));
        }
    }
}
