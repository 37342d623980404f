//! Generators: samples, option blocks, delivery scripts, HTTP responses.
use crate::rng::Rng;
use crate::world::*;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

/// A sample: the text and where its top-level value lies in it.
#[derive(Clone, Debug)]
pub struct Sample {
    pub text: String,
    pub start: usize,
    pub end: usize,
    pub value: J,
}
impl Sample {
    /// Puts a control character as it is into some string (the lexer lets it pass).
    pub fn raw_control(&mut self, r: &mut Rng) {
        let b = self.text.as_bytes();
        let (mut at, mut inside, mut i) = (vec![], false, self.start);
        while i < self.end.min(b.len()) {
            match b[i] {
                b'"' => inside = !inside,
                b'\\' if inside => i += 1,
                c if inside && c.is_ascii_alphabetic() && b[i - 1] != b'\\' && !self.text[..i].ends_with("\\u") => at.push(i),
                _ => {}
            }
            i += 1;
        }
        // not into the digits of an escape
        at.retain(|i| !self.text[..*i].chars().rev().take(5).any(|c| c == '\\'));
        if !at.is_empty() {
            let i = *r.pick(&at);
            let c = *r.pick(&[1u8, 3, 4, 7, 8, 0x0b, 0x0c, 0x10, 0x13, 0x1a, 0x1b, 0x1c, 0x1f, 0x7f, b'\n', b'\r', b'\t']) as char;
            self.text.insert(i, c);
            self.end += 1;
        }
    }
    pub fn is_container(&self) -> bool {
        matches!(self.value, J::Arr(_) | J::Obj(_))
    }
    pub fn closed(&self) -> bool {
        !matches!(self.value, J::Num(_) | J::Null | J::Bool(_))
    }
}

const KEYS: &[&str] = &[
    "id", "name", "foo", "bar", "baz", "some_key", "someKey", "SomeKey", "type", "fn", "class",
    "self", "æøå", "日本", "with space", "1digit", "x-y", "data", "items", "a", "b", "c", "k1", "k2",
    "created_at", "URL", "emoji😀", "kebab-key-name", "", "value", "values", "children", "Root",
    "object", "null", "true", "in", "async", "val", "$ref", "@id", "a.b", "quote\"d", "back\\slash",
    "tab\there", "ID", "Id", "list", "String", "Option", "u00e9", "Point",
];
const STRS: &[&str] = &[
    "", "x", "hello", "æ", "日本語", "😀", "a\"b", "back\\slash", "line\nbreak", "tab\t", "\u{8}\u{c}\r",
    "2020-01-01T00:00:00Z", "http://example.com/x", "{}", "[1]", "null", "\u{7f}", "\u{ffff}", "\u{10ffff}",
    "long long long long long long text with several words in it", "/", "\u{e9}",
];
const NUMS: &[&str] = &[
    "0", "1", "-1", "42", "123456789", "-0", "3.14", "-2.5", "1e10", "1E-5", "1.5e+3", "0.1", "9007199254740993",
    "12345678901234567890", "100", "7",
];

/// A key in any script, with any ending.
fn odd_key(r: &mut Rng) -> String {
    const BITS: &[&str] = &[
        "æ", "ß", "ŉ", "İ", "ı", "ǆ", "日本", "例", "😀", "e\u{301}", "\u{200d}", "\u{feff}", "\u{1}", "ﬁ", "Ω", "ж", "أ", "\u{1F469}\u{200d}\u{1F4BB}",
        "x", "Name", "_", "-", " ", "  ", "\n\n", "a  b", "\t", "//", "/*", ".", "/", "~", "'", "\"", "\\", "{", "}", "#", "$", "@", "*", "?", "!", "0", "12", "::", "<", ">", "&", "é", "ﬀ", "\u{85}", "\u{2028}",
    ];
    const ENDS: &[&str] = &["", "s", "es", "ies", "'s", "s'", "'", "S", "IES", "series", "news", "ss", "_list", "[]", "(s)", "s ", "ſ", "ś", "1", "?"];
    let mut k = String::new();
    for _ in 0..r.range(1, 3) {
        k.push_str(*r.pick(BITS));
    }
    k.push_str(*r.pick(ENDS));
    k
}

const FAMILIES: &[&str] = &["a_rather_long_key_that_goes_on_and_on_", "someVeryLongFieldNameOfTheKindThatSchemasHave", "long key with words in it and more of them than usual ", "ключ_", "item", "a", "Feld-"];

pub fn key(r: &mut Rng) -> String {
    if r.chance(5) {
        odd_key(r)
    } else if r.chance(3) {
        format!("{}{}", r.pick(FAMILIES).repeat(*r.pick(&[1usize, 1, 2, 8])), r.below(6))
    } else if r.chance(8) {
        format!("k{}", r.below(1000))
    } else if r.chance(55) {
        KEYS[r.us(8)].to_string()
    } else {
        r.pick(KEYS).to_string()
    }
}

pub fn scalar(r: &mut Rng) -> J {
    match r.below(10) {
        0 => J::Null,
        1 | 2 => J::Bool(r.chance(50)),
        3..=6 => J::Num(r.pick(NUMS).to_string()),
        _ => J::Str(r.pick(STRS).to_string()),
    }
}

pub fn value(r: &mut Rng, depth: usize, budget: &mut i64) -> J {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || r.chance(35) {
        return scalar(r);
    }
    if r.chance(50) {
        let n = match r.below(10) {
            0 => 0,
            1..=6 => r.range(1, 4),
            7 | 8 => r.range(5, 9),
            _ => r.range(10, 20),
        };
        let mut v: Vec<(String, J)> = Vec::new();
        // all keys alike but for their ends, or all of one length
        let family = if r.chance(4) { *r.pick(FAMILIES) } else { "" };
        for _ in 0..n {
            let k = if family.is_empty() { key(r) } else { format!("{}{}", family, r.below(10)) };
            if v.iter().any(|(x, _)| *x == k) && r.chance(90) {
                continue;
            }
            v.push((k, value(r, depth - 1, budget)));
        }
        J::Obj(v)
    } else {
        let n = match r.below(10) {
            0 => 0,
            1..=5 => r.range(1, 4),
            6 | 7 => r.range(5, 12),
            _ => r.range(12, 20),
        };
        if r.chance(60) && n > 0 {
            // elements of similar shape, as real samples have
            let proto = value(r, depth - 1, budget);
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(vary(r, &proto));
            }
            J::Arr(v)
        } else {
            J::Arr((0..n).map(|_| value(r, depth - 1, budget)).collect())
        }
    }
}

fn vary(r: &mut Rng, j: &J) -> J {
    match j {
        J::Obj(f) => {
            let mut v = Vec::new();
            for (k, x) in f {
                if r.chance(12) {
                    continue;
                }
                v.push((k.clone(), if r.chance(8) { J::Null } else { vary(r, x) }));
            }
            if r.chance(10) {
                v.push((key(r), scalar(r)));
            }
            J::Obj(v)
        }
        J::Arr(v) => {
            let mut w: Vec<J> = v.iter().map(|x| vary(r, x)).collect();
            if r.chance(20) {
                w.pop();
            }
            J::Arr(w)
        }
        x => {
            if r.chance(10) {
                scalar(r)
            } else {
                x.clone()
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Style {
    pub ws: u64,
    pub esc: u64,
    pub pretty: bool,
}

fn wsp(r: &mut Rng, st: Style, out: &mut String) {
    if r.chance(st.ws) {
        for _ in 0..r.range(1, 3) {
            out.push(*r.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

pub fn write_str(r: &mut Rng, s: &str, st: Style, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            '/' if r.chance(st.esc) => out.push_str("\\/"),
            c if (c as u32) < 0x20 || r.chance(st.esc) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if r.chance(50) {
                        out.push_str(&format!("\\u{:04x}", u));
                    } else {
                        out.push_str(&format!("\\u{:04X}", u));
                    }
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn write(r: &mut Rng, j: &J, st: Style, out: &mut String) {
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => out.push_str(n),
        J::Str(s) => write_str(r, s, st, out),
        J::Arr(v) => {
            out.push('[');
            wsp(r, st, out);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    wsp(r, st, out);
                }
                write(r, x, st, out);
                wsp(r, st, out);
            }
            out.push(']');
        }
        J::Obj(f) => {
            out.push('{');
            wsp(r, st, out);
            for (i, (k, x)) in f.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    wsp(r, st, out);
                }
                write_str(r, k, st, out);
                wsp(r, st, out);
                out.push(':');
                wsp(r, st, out);
                write(r, x, st, out);
                wsp(r, st, out);
            }
            out.push('}');
        }
    }
}

pub fn style(r: &mut Rng) -> Style {
    Style { ws: *r.pick(&[0, 0, 10, 40]), esc: *r.pick(&[0, 0, 5, 40]), pretty: false }
}

pub fn small_value(r: &mut Rng, root_scalar_pct: u64) -> J {
    if r.chance(root_scalar_pct) {
        return scalar(r);
    }
    loop {
        let mut budget = *r.pick(&[6i64, 15, 40, 40]);
        let depth = r.range(1, 4) as usize;
        let v = value(r, depth, &mut budget);
        if matches!(v, J::Arr(_) | J::Obj(_)) {
            return v;
        }
    }
}

fn finish(r: &mut Rng, v: J, st: Style, lead: bool) -> Sample {
    let mut text = String::new();
    if lead {
        wsp(r, st, &mut text);
    }
    let start = text.len();
    write(r, &v, st, &mut text);
    let end = text.len();
    if r.chance(30) {
        text.push('\n');
    } else {
        wsp(r, st, &mut text);
    }
    Sample { text, start, end, value: v }
}

pub fn small_sample(r: &mut Rng, root_scalar_pct: u64) -> Sample {
    let v = small_value(r, root_scalar_pct);
    let st = style(r);
    finish(r, v, st, true)
}

/// Tokens whose bytes must not come apart.
const TOKENS: &[&str] = &[
    "\"\\u00e6\"", "\"\\uD83D\\uDE00\"", "\"😀\"", "\"日本語\"", "\"a\\\"b\"", "\"\\\\\"", "true", "false", "null", "12.5",
    "-123456", "1e10", "1.25E+3", "\"\"", "{}", "[]", "[1.5]", "{\"k\":\"\\n\"}", "\"é\"", "\"\\/\"", "3.0", "100000.5",
];

/// A big sample in which a token straddles byte `boundary` of the file.
pub fn straddling(r: &mut Rng, boundary: usize, tail: usize) -> Sample {
    let tok = *r.pick(TOKENS);
    let cut = r.us(tok.len() + 1);
    let straddle_key = r.chance(25);
    let open = "{\"pad\":";
    let mid: String = if straddle_key { ",".into() } else { ",\"edge\":".into() };
    // tok starts at boundary - cut
    let want = boundary.saturating_sub(cut);
    let fill_total = want.saturating_sub(open.len() + mid.len());
    let filler = match r.below(8) {
        4 => {
            // escapes of one length, the cut anywhere in them
            let e = *r.pick(&["\\u00e9", "\\n", "\\\"", "\\ud83d\\ude00", "\\\\"]);
            let n = fill_total.saturating_sub(2);
            format!("\"{}{}\"", e.repeat(n / e.len()), "z".repeat(n % e.len()))
        }
        5 => format!("1{}", "0".repeat(fill_total.saturating_sub(1))),
        6 => {
            // a long key
            let n = fill_total.saturating_sub(6);
            format!("{{\"{}\":1}}", "k".repeat(n))
        }
        0 | 7 => {
            // a long string
            let n = fill_total.saturating_sub(2);
            format!("\"{}\"", "x".repeat(n))
        }
        1 => {
            // whitespace
            format!("{}1", " ".repeat(fill_total.saturating_sub(1)))
        }
        2 => {
            // multi-byte text: 3 bytes each
            let n = fill_total.saturating_sub(2);
            format!("\"{}{}\"", "日".repeat(n / 3), "y".repeat(n % 3))
        }
        _ => {
            // an array of small objects, padded to length
            let mut s = String::from("[");
            let mut i = 0;
            while s.len() + 24 < fill_total {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(&format!("{{\"n\":{}}}", i % 1000));
                i += 1;
            }
            if i == 0 {
                s.push('0');
            }
            let room = fill_total.saturating_sub(s.len() + 1);
            s.push_str(&" ".repeat(room));
            s.push(']');
            s
        }
    };
    let mut text = String::from(open);
    text.push_str(&filler);
    text.push_str(&mid);
    if straddle_key {
        text.push_str(if tok.starts_with('"') { tok } else { "\"edge\\u0041key\"" });
        text.push_str(":1");
    } else {
        text.push_str(tok);
    }
    let st = style(r);
    let mut i = 0;
    let goal = text.len() + tail;
    while i < 1 || text.len() < goal {
        text.push_str(&format!(",\"t{}\":", i % 40));
        let v = small_value(r, 30);
        write(r, &v, st, &mut text);
        i += 1;
    }
    text.push('}');
    let end = text.len();
    if r.chance(50) {
        text.push('\n');
    }
    Sample { text, start: 0, end, value: J::Obj(vec![]) }
}

pub const BOUNDARIES: &[usize] = &[
    512, 1024, 2048, 4096, 8192, 10240, 16384, 32768, 65536, 131072, 196608, 262144,
];

pub fn big_sample(r: &mut Rng, max: usize) -> Sample {
    let c: Vec<usize> = BOUNDARIES.iter().copied().filter(|b| *b <= max).collect();
    let b = *r.pick(&c);
    // also right before/after a multiple of the boundary
    let tail = *r.pick(&[0, 10, 300, 5000]);
    straddling(r, b, tail)
}

/// A list of objects, each with fields the others do not have.
pub fn differing_objects(r: &mut Rng) -> Sample {
    let family = if r.chance(70) { *r.pick(FAMILIES) } else { "" };
    let times = *r.pick(&[1usize, 1, 3]);
    let n = r.range(2, 14);
    let list = (0..n)
        .map(|_| {
            let mut o: Vec<(String, J)> = vec![];
            for _ in 0..r.range(1, 7) {
                let k = if family.is_empty() { key(r) } else { format!("{}{}", family.repeat(times), r.below(30)) };
                if !o.iter().any(|(x, _)| *x == k) {
                    let v = if r.chance(20) { value(r, 2, &mut 10) } else { scalar(r) };
                    o.push((k, v));
                }
            }
            J::Obj(o)
        })
        .collect();
    let st = style(r);
    finish(r, J::Arr(list), st, true)
}

/// A long array, most of whose elements are alike.
pub fn long_array(r: &mut Rng) -> Sample {
    let n = *r.pick(&[13usize, 14, 100, 1000, 1025, 2500, 5000, 10_000, 20_000]);
    let kinds: &[&str] = &["1", "0.5", "\"s\"", "null", "true", "{\"a\":1}", "{\"a\":1,\"b\":null}", "[1,2]", "[]", "{}", "[[\"x\"]]"];
    let usual = *r.pick(kinds);
    // now and then two kinds take turns: a field that comes and goes, or is null at times
    const TURNS: &[(&str, &str)] = &[
        ("{\"a\":1,\"b\":null}", "{\"a\":1}"),
        ("{\"b\":null}", "{\"b\":2}"),
        ("{\"b\":[]}", "{}"),
        ("null", "1.5"),
        ("null", "{\"a\":null}"),
        ("[null]", "[1,2]"),
        ("{\"b\":{\"c\":null}}", "{\"b\":{}}"),
    ];
    let turns = r.chance(40).then(|| *r.pick(TURNS));
    let every = r.us(3) + 1;
    // none, one or a few others, at the start, the end or anywhere
    let mut others: Vec<(usize, &str)> = vec![];
    for _ in 0..*r.pick(&[0usize, 0, 1, 1, 3]) {
        let at = match r.below(4) {
            0 => n - 1,
            1 => r.us(20).min(n - 1),
            _ => r.us(n),
        };
        others.push((at, *r.pick(&["1", "0.5", "\"s\"", "null", "{\"a\":\"t\"}", "{\"late\":true}", "{\"b\":1.5}", "{}", "[1.5]", "{\"a\":1,\"c\":[]}"])));
    }
    let sep = *r.pick(&[",", ",", ", ", ",\n  ", ",\t"]);
    let mut list = String::from("[");
    for i in 0..n {
        if i > 0 {
            list.push_str(sep);
        }
        list.push_str(others.iter().find(|o| o.0 == i).map_or(
            match turns {
                Some((_, b)) if i % (every + 1) == 0 => b,
                Some((a, _)) => a,
                None => usual,
            },
            |o| o.1,
        ));
    }
    list.push(']');
    let elem = |t: &str| match t.as_bytes()[0] {
        b'{' => J::Obj(vec![("a".into(), J::Num("1".into()))]),
        b'[' => J::Arr(vec![]),
        _ => J::Null,
    };
    let arr = J::Arr(vec![elem(turns.map_or(usual, |t| t.0))]);
    let (text, value) = match r.below(5) {
        0 => (format!("{{\"list\":{}}}", list), J::Obj(vec![("list".into(), arr)])),
        1 => (format!("{{\"list\":{},\"after\":1}}", list), J::Obj(vec![("list".into(), arr), ("after".into(), J::Null)])),
        _ => (list, arr),
    };
    let end = text.len();
    Sample { text, start: 0, end, value }
}

/// Many keys: the generated code is long.
pub fn wide_sample(r: &mut Rng) -> Sample {
    let n = *r.pick(&[30usize, 200, 200, 700, 2500]);
    let nested = if n <= 200 { *r.pick(&[0u64, 10, 60]) } else { 0 };
    let stem = *r.pick(&["k", "someLongFieldNameNumber", "feltnavn_æ", "field-"]);
    let fields = (0..n)
        .map(|i| {
            let v = if r.chance(nested) { J::Obj(vec![(format!("{}{}x", stem, i), scalar(r)), ("id".into(), scalar(r))]) } else { scalar(r) };
            (format!("{}{}", stem, i), v)
        })
        .collect();
    let o = J::Obj(fields);
    let st = style(r);
    let v = if r.chance(25) { J::Arr(vec![o]) } else { o };
    finish(r, v, st, true)
}

/// More than a megabyte, up to 17. Read in large pieces: see `huge_delivery`.
pub fn huge_sample(r: &mut Rng) -> Sample {
    let n = *r.pick(&[1usize, 1, 1, 2, 4, 8, 10, 16]) * 1024 * 1024 + r.us(1 << 19);
    straddling(r, n, 300)
}
pub fn huge_delivery(r: &mut Rng, len: u64) -> Script {
    let mut s = Script { chunk: *r.pick(&[0, 16384, 60_000, 131_072, 1 << 20]), ..Default::default() };
    for _ in 0..r.below(4) {
        let off = if r.chance(50) { (1 + r.below(len >> 20)) << 20 } else { r.below(len + 1) };
        s.add(off.min(len), if r.chance(50) { Ev::Split } else { Ev::Eintr(r.range(1, 3) as u32) });
    }
    s
}

/// Samples for general use: mostly small, some big, some with many keys.
pub fn sample(r: &mut Rng, scalar_pct: u64, big_pct: u64) -> Sample {
    if r.chance(1) {
        wide_sample(r)
    } else if r.chance(big_pct) {
        if r.chance(30) { long_array(r) } else { big_sample(r, 262144) }
    } else {
        small_sample(r, scalar_pct)
    }
}

pub const MODES: &[&str] = &[
    "rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python",
    "json_schema", "zod", "shape",
];

fn lit(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', "\\t"))
}

/// A JSON pointer into the value; keys that cannot be written in a pointer end it.
pub fn pointer(r: &mut Rng, j: &J, want_obj: bool) -> Option<String> {
    let mut p = String::new();
    let mut cur = j.clone();
    for _ in 0..5 {
        let here_ok = !want_obj || matches!(cur, J::Obj(_));
        if here_ok && r.chance(35) {
            break;
        }
        let next = match &cur {
            J::Obj(f) if !f.is_empty() => {
                let (k, v) = r.pick(f).clone();
                if k.contains('/') || k.contains('\\') || k.contains('"') || k.contains('\t') {
                    break;
                }
                p.push('/');
                if r.chance(20) {
                    p.push('-');
                } else {
                    p.push_str(&k);
                }
                v
            }
            J::Arr(v) if !v.is_empty() => {
                let i = r.us(v.len());
                p.push('/');
                if r.chance(60) {
                    p.push('-');
                } else {
                    p.push_str(&i.to_string());
                }
                v[i].clone()
            }
            _ => break,
        };
        cur = next;
    }
    if want_obj && !matches!(cur, J::Obj(_)) && r.chance(80) {
        return None;
    }
    Some(p)
}

pub struct OptCfg {
    pub hints: u64,
    pub unwrap: u64,
    pub threshold: u64,
}

/// An options block as the user would write it (JSON-like syntax).
pub fn options(r: &mut Rng, v: &J, cfg: &OptCfg) -> String {
    let mut o: Vec<String> = Vec::new();
    if r.chance(85) {
        o.push(format!("output_mode: {}", lit(r.pick(MODES))));
    }
    if r.chance(25) {
        let f = *r.pick(&["camelCase", "snake_case", "PascalCase", "kebab-case", "UPPERCASE", "SCREAMING_SNAKE_CASE"]);
        o.push(format!("property_name_format: {}", lit(f)));
    }
    if r.chance(50) {
        let f = *r.pick(&["add_imports", "assume_existing", "qualified_paths"]);
        o.push(format!("import_style: {}", lit(f)));
    }
    if r.chance(15) {
        o.push("deny_unknown_fields".into());
    }
    if r.chance(15) {
        o.push("use_default_for_missing_fields: true".into());
    }
    if r.chance(15) {
        o.push("allow_option_vec: true".into());
    }
    if r.chance(20) {
        o.push("collect_additional: true".into());
    }
    if r.chance(10) {
        o.push(format!("field_visibility: {}", lit("pub(crate)")));
    }
    if r.chance(20) {
        let d = *r.pick(&["Debug", "Debug, Clone", "Serialize, Deserialize", "Default, Debug, serde_derive::Serialize", "a::b::C, d::E"]);
        o.push(format!("derives: {}", lit(d)));
    }
    if r.chance(cfg.threshold) {
        o.push(format!("infer_map_threshold: {}", lit(&r.range(0, 6).to_string())));
    }
    if r.chance(cfg.unwrap) {
        if let Some(p) = pointer(r, v, false) {
            o.push(format!("unwrap: {}", lit(&p)));
        }
    }
    if r.chance(cfg.hints) {
        for _ in 0..r.range(1, 3) {
            let kind = r.below(4);
            let p = pointer(r, v, kind == 0);
            let Some(p) = p else { continue };
            let body = match kind {
                0 => "use_type: \"map\"".to_string(),
                1 | 2 => format!("use_type: {}", lit(*r.pick(&["Foo", "my::Type", "serde_json::Value", "T"]))),
                _ => format!("type_name: {}", lit(*r.pick(&["Named", "Thing"]))),
            };
            o.push(format!("{}: {{ {} }}", lit(&p), body));
        }
    }
    format!("{{ {} }}", o.join(", "))
}

pub fn type_name(r: &mut Rng) -> String {
    r.pick(&["Root", "Point", "pub Foo", "pub(crate) Bar", "my_type", "A"]).to_string()
}

/// Table definitions for the SQL input mode.
pub fn sql(r: &mut Rng) -> String {
    let mut t = String::new();
    if r.chance(15) {
        t.push_str(*r.pick(&["-- tables\n", "/* tables */ ", "SELECT 1;\n", "DROP TABLE IF EXISTS a;\n", "INSERT INTO a VALUES ('http://example.test/x');\n", "  \n"]));
    }
    for _ in 0..if r.chance(75) { 1 } else { r.range(0, 4) } {
        t.push_str(*r.pick(&["CREATE TABLE ", "CREATE TABLE ", "create table ", "CREATE TABLE IF NOT EXISTS ", "CREATE TEMPORARY TABLE ", "CREATE OR REPLACE TABLE "]));
        t.push_str(*r.pick(&["users", "app.users", "\"Odd name\"", "`users`", "æ", "t1"]));
        t.push_str(" (\n");
        let n = if r.chance(5) { 0 } else { r.range(1, 9) };
        for i in 0..n {
            let name = match r.below(8) {
                0 => format!("\"{}\"", r.pick(KEYS).replace('"', "")),
                1 => r.pick(&["id", "type", "`a b`", "[c]", "order_", "Fn", "_x", "æøå"]).to_string(),
                2 => "id".to_string(),
                _ => format!("c{}", r.below(30)),
            };
            let ty = *r.pick(&["INT", "int", "BIGINT UNSIGNED", "SERIAL", "VARCHAR(255)", "varchar", "CHARACTER VARYING(3)", "TEXT", "BOOLEAN", "DATE", "TIMESTAMP", "TIMESTAMP WITH TIME ZONE", "DATETIME(3)", "NUMERIC(10, 2)", "DOUBLE PRECISION", "FLOAT", "UUID", "BYTEA", "JSON", "JSONB", "INT[]", "TEXT[][]", "ENUM('a', 'b''c')", "INTERVAL", "custom.thing", "ARRAY<INT>", "REAL", "BLOB"]);
            let opt = *r.pick(&["", "", " NOT NULL", " NOT NULL", " NULL", " PRIMARY KEY", " NOT NULL UNIQUE", " DEFAULT 1", " DEFAULT CURRENT_TIMESTAMP", " DEFAULT 'it''s'", " CHECK (c1 > 0 AND (c2 IS NULL OR c2 LIKE 'x%'))", " REFERENCES other (id) ON DELETE CASCADE", " COMMENT 'note'", " DEFAULT (1 + 2 * -3)", " GENERATED ALWAYS AS IDENTITY", " COLLATE \"C\"", " AUTO_INCREMENT"]);
            t.push_str(&format!("  {} {}{}{}", name, ty, opt, if i + 1 < n { ",\n" } else { "\n" }));
        }
        if n > 0 && r.chance(20) {
            t.push_str(*r.pick(&[", PRIMARY KEY (id)", ", CONSTRAINT k UNIQUE (c1, c2)", ", FOREIGN KEY (id) REFERENCES o (id)", ",", ", INDEX i (c1)"]));
        }
        t.push_str(*r.pick(&[");\n", ");\n", ")", ") ENGINE=InnoDB;\n", ") AS SELECT 1;\n", ") WITH (x = 1);\n"]));
    }
    t
}

/// The same options, for SQL.
pub fn sql_mode(o: &str) -> String {
    o.replacen('{', "{ input_mode: \"sql\", ", 1)
}

/// Offsets at which a delivery boundary is most likely to matter.
pub fn edges(text: &[u8]) -> Vec<u64> {
    let mut v = Vec::new();
    for i in 0..text.len() {
        let b = text[i];
        let p = if i > 0 { text[i - 1] } else { b' ' };
        if b == b'"' || p == b'"' || p == b'\\' || b == b'\\' || (b & 0xC0) == 0x80 || b"{}[],:".contains(&b) || b"{}[],:".contains(&p) || b.is_ascii_digit() || b"-.eE+tfnu".contains(&b)
        {
            v.push(i as u64);
        }
        if v.len() > 20000 {
            break;
        }
    }
    v
}

/// A legal way of delivering `len` bytes: splits, interruptions, delays.
pub fn delivery(r: &mut Rng, data: &[u8], eintr: bool, delays: bool) -> Script {
    let len = data.len() as u64;
    let mut s = Script::default();
    match r.below(6) {
        0 => s.chunk = 1,
        1 => s.chunk = *r.pick(&[2, 3, 5, 7, 16, 100, 1000, 4096, 65536]),
        2 => {
            s.chunk = *r.pick(&[3, 16, 200, 5000, 100000]);
            s.jitter = true;
        }
        3 => {}
        _ => {
            let e = edges(data);
            for _ in 0..r.range(1, 6) {
                let off = if !e.is_empty() && r.chance(70) { *r.pick(&e) } else { r.below(len + 1) };
                s.add(off, Ev::Split);
            }
        }
    }
    if len > 20000 && s.chunk > 0 && s.chunk < 16 && r.chance(80) {
        // thousands of one-byte reads only now and then
        s.chunk *= 509;
    }
    if len > 4096 && r.chance(60) {
        for b in BOUNDARIES {
            if (*b as u64) < len && r.chance(40) {
                s.add(*b as u64, Ev::Split);
            }
        }
    }
    // ureq's chunked decoder forgets a chunk's length when the read after it is interrupted: a known
    // finding of C02, which tries it on purpose
    if eintr && r.chance(60) && !is_chunked(data) {
        for _ in 0..r.range(1, 3) {
            let off = match r.below(6) {
                0 => 0,
                1 => len,
                _ => r.below(len + 1),
            };
            s.add(off, Ev::Eintr(r.range(1, 4) as u32));
        }
    }
    if delays && r.chance(40) {
        for _ in 0..r.range(1, 3) {
            let off = r.below(len + 1);
            s.add(off, Ev::Delay(r.range(1, 9000) as u32));
        }
    }
    s
}

fn is_chunked(wire: &[u8]) -> bool {
    let end = wire.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(0);
    wire.starts_with(b"HTTP/") && wire[..end].windows(7).any(|w| w.eq_ignore_ascii_case(b"chunked"))
}

pub fn framing(r: &mut Rng) -> Framing {
    match r.below(4) {
        0 | 1 => Framing::Length(0),
        2 => Framing::Chunked((0..r.range(1, 4)).map(|_| *r.pick(&[1u32, 2, 7, 64, 1000, 8192, 16384, 70000])).collect()),
        _ => Framing::Close,
    }
}

pub const HOSTS: &[&str] = &["example.test", "api.example.test", "samples.test"];
pub const IPS: &[u32] = &[0xC0000201, 0xC0000202, 0xC6336401];

pub fn errno_read(r: &mut Rng) -> i32 {
    *r.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::ENOMEM, libc::ETIMEDOUT, libc::ENXIO, libc::EAGAIN, libc::EACCES])
}
pub fn errno_net(r: &mut Rng) -> i32 {
    *r.pick(&[libc::ECONNRESET, libc::ECONNRESET, libc::ETIMEDOUT, libc::ENETDOWN, libc::EHOSTUNREACH, libc::EPIPE, libc::ENOBUFS])
}
