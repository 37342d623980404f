//! Minimisation: the smallest case that still fails in the same way.
use crate::cli::*;
use crate::gen::*;
use crate::lib_exec::*;
use crate::mac::*;
use crate::world::*;
use crate::Case;
use std::time::{Duration, Instant};

fn scripts(w: &mut World) -> Vec<&mut Script> {
    let mut v = vec![];
    for f in w.files.iter_mut() {
        v.push(&mut f.rd);
        v.push(&mut f.wr);
    }
    for e in w.eps.iter_mut() {
        v.push(&mut e.wr);
        if let EpKind::Raw(_, s) = &mut e.kind {
            v.push(s);
        }
    }
    for r in w.routes.iter_mut() {
        v.push(&mut r.resp.rd);
    }
    v
}
fn case_scripts(c: &mut Case) -> Vec<&mut Script> {
    match c {
        Case::Lib(l) => scripts(&mut l.world),
        Case::Mac(m) => scripts(&mut m.world),
        Case::Cli(k) => {
            let mut v = scripts(&mut k.world);
            v.push(&mut k.stdout.wr);
            v.push(&mut k.stderr.wr);
            if let Some((_, s)) = &mut k.stdin {
                v.push(s);
            }
            v
        }
    }
}
fn nscripts(c: &Case) -> usize {
    case_scripts(&mut c.clone()).len()
}

/// Events that are a way of delivering, not the fault the expectation rests on.
fn optional(e: &Ev) -> bool {
    matches!(e, Ev::Split | Ev::Eintr(_) | Ev::Delay(_))
}
/// Everything in the case that may name a file or a resource.
fn mentions(c: &Case) -> String {
    let mut s = String::new();
    let w = match c {
        Case::Lib(l) => {
            for k in l.tasks.iter().flatten() {
                s.push_str(&k.input);
                s.push('\n');
            }
            &l.world
        }
        Case::Cli(k) => {
            s.push_str(&k.input);
            s.push_str(k.output.as_deref().unwrap_or(""));
            if let Some((b, _)) = &k.stdin {
                s.push_str(&String::from_utf8_lossy(&b.0));
            }
            &k.world
        }
        Case::Mac(k) => {
            s.push_str(&k.input);
            &k.world
        }
    };
    for r in &w.routes {
        for h in &r.resp.headers {
            s.push_str(&h.1);
            s.push('\n');
        }
    }
    s
}
/// The sample may be replaced by a smaller one without changing what is expected of the case.
fn shrinkable(c: &Case) -> bool {
    match c {
        Case::Lib(l) => l.tasks.iter().flatten().all(|k| matches!(k.expect, Expect::Inline(_) | Expect::Clean | Expect::Any)),
        Case::Cli(k) => matches!(k.want, Want::Text(_)),
        Case::Mac(k) => matches!(k.want, MacWant::Text(_)),
    }
}

fn expr_texts(c: &Case) -> Vec<String> {
    // texts that stand for the sample
    let mut v = vec![];
    match c {
        Case::Lib(l) => {
            for t in &l.tasks {
                for k in t {
                    match &k.expect {
                        Expect::Inline(x) => v.push(x.clone()),
                        _ => {}
                    }
                }
            }
            for f in &l.world.files {
                if let Ok(t) = std::str::from_utf8(&f.data.0) {
                    v.push(t.to_string());
                }
            }
            for r in &l.world.routes {
                if let Ok(t) = std::str::from_utf8(&r.resp.body.0) {
                    v.push(t.to_string());
                }
            }
        }
        Case::Cli(k) => {
            if let Want::Text(t) = &k.want {
                v.push(t.clone());
            }
        }
        Case::Mac(k) => {
            if let MacWant::Text(t) = &k.want {
                v.push(t.clone());
            }
        }
    }
    v.sort();
    v.dedup();
    v.retain(|t| t.len() > 2);
    v
}

/// Replaces one text by another wherever it occurs as a whole.
fn replace_text(c: &Case, from: &str, to: &str) -> Case {
    let mut c = c.clone();
    let fb = from.as_bytes();
    let rw = |w: &mut World| {
        for f in w.files.iter_mut() {
            if f.data.0 == fb {
                f.data = Bytes(to.as_bytes().to_vec());
            }
        }
        for r in w.routes.iter_mut() {
            if r.resp.body.0 == fb {
                r.resp.body = Bytes(to.as_bytes().to_vec());
            }
        }
    };
    match &mut c {
        Case::Lib(l) => {
            rw(&mut l.world);
            for t in l.tasks.iter_mut() {
                for k in t.iter_mut() {
                    if k.input == from {
                        k.input = to.to_string();
                    }
                    for b in k.before.iter_mut() {
                        if b.1 .0 == fb {
                            b.1 = Bytes(to.as_bytes().to_vec());
                        }
                    }
                    match &mut k.expect {
                        Expect::Inline(x) if x == from => *x = to.to_string(),
                        Expect::IoError(x) | Expect::Delivered(x) if x.0 == fb => *x = Bytes(to.as_bytes().to_vec()),
                        _ => {}
                    }
                }
            }
        }
        Case::Cli(k) => {
            rw(&mut k.world);
            if k.input == from {
                k.input = to.to_string();
            }
            if let Some((b, _)) = &mut k.stdin {
                if b.0 == fb {
                    *b = Bytes(to.as_bytes().to_vec());
                }
            }
            if let Want::Text(t) = &mut k.want {
                if t == from {
                    *t = to.to_string();
                }
            }
        }
        Case::Mac(k) => {
            rw(&mut k.world);
            if k.input == from {
                k.input = to.to_string();
            }
            if let MacWant::Text(t) = &mut k.want {
                if t == from {
                    *t = to.to_string();
                }
            }
        }
    }
    c
}

fn parse_j(v: &serde_json::Value) -> J {
    use serde_json::Value as V;
    match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Number(n) => J::Num(n.to_string()),
        V::String(s) => J::Str(s.clone()),
        V::Array(a) => J::Arr(a.iter().map(parse_j).collect()),
        V::Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), parse_j(v))).collect()),
    }
}
fn size(j: &J) -> usize {
    match j {
        J::Arr(v) => 1 + v.iter().map(size).sum::<usize>(),
        J::Obj(v) => 1 + v.iter().map(|x| size(&x.1)).sum::<usize>(),
        _ => 1,
    }
}
/// The value with node number `n` (preorder) removed from its parent.
fn without(j: &J, n: usize, at: &mut usize) -> J {
    match j {
        J::Arr(v) => {
            let mut o = vec![];
            for x in v {
                *at += 1;
                let here = *at;
                let y = without(x, n, at);
                if here != n {
                    o.push(y);
                }
            }
            J::Arr(o)
        }
        J::Obj(v) => {
            let mut o = vec![];
            for (k, x) in v {
                *at += 1;
                let here = *at;
                let y = without(x, n, at);
                if here != n {
                    o.push((k.clone(), y));
                }
            }
            J::Obj(o)
        }
        x => x.clone(),
    }
}
fn text_of(j: &J) -> String {
    let mut s = String::new();
    let mut r = crate::rng::Rng::new(1);
    write(&mut r, j, Style { ws: 0, esc: 0, pretty: false }, &mut s);
    s
}

pub fn minimise(case: &Case, kind: &str, budget: Duration, mut fails: impl FnMut(&Case) -> Option<String>) -> (Case, u32) {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut tries = 0u32;
    let over = |t0: &Instant| t0.elapsed() > budget;
    let mut attempt = |cand: Case, best: &mut Case, tries: &mut u32| -> bool {
        if over(&t0) || cand == *best {
            return false;
        }
        *tries += 1;
        match fails(&cand) {
            Some(k) if k == kind => {
                *best = cand;
                true
            }
            _ => false,
        }
    };
    let mut progress = true;
    let mut rounds = 0;
    while progress && rounds < 6 && !over(&t0) {
        progress = false;
        rounds += 1;
        // fewer tasks and calls, simpler options
        if let Case::Lib(l) = best.clone() {
            for t in (0..l.tasks.len()).rev() {
                if l.tasks.len() > 1 {
                    let mut c = l.clone();
                    c.tasks.remove(t);
                    c.sched = None;
                    progress |= attempt(Case::Lib(c), &mut best, &mut tries);
                }
            }
            let Case::Lib(l) = best.clone() else { continue };
            for t in 0..l.tasks.len() {
                for i in (0..l.tasks[t].len()).rev() {
                    let Case::Lib(mut c) = best.clone() else { continue };
                    if c.tasks.len() > t && c.tasks[t].len() > 1 && i < c.tasks[t].len() {
                        c.tasks[t].remove(i);
                        progress |= attempt(Case::Lib(c), &mut best, &mut tries);
                    }
                }
            }
            let Case::Lib(l) = best.clone() else { continue };
            for t in 0..l.tasks.len() {
                for i in 0..l.tasks[t].len() {
                    for o in simpler_options(&l.tasks[t][i].options) {
                        let Case::Lib(mut c) = best.clone() else { continue };
                        c.tasks[t][i].options = o;
                        progress |= attempt(Case::Lib(c), &mut best, &mut tries);
                    }
                    let Case::Lib(mut c) = best.clone() else { continue };
                    c.tasks[t][i].name = "Root".into();
                    progress |= attempt(Case::Lib(c), &mut best, &mut tries);
                }
            }
            let Case::Lib(mut c) = best.clone() else { continue };
            c.alloc_every = 0;
            progress |= attempt(Case::Lib(c), &mut best, &mut tries);
            let Case::Lib(l) = best.clone() else { continue };
            for i in (0..l.alts.len()).rev() {
                let Case::Lib(mut c) = best.clone() else { continue };
                if c.alts.len() > 2 && i < c.alts.len() {
                    c.alts.remove(i);
                    progress |= attempt(Case::Lib(c), &mut best, &mut tries);
                }
            }
            for i in 0..l.alts.len() {
                for what in 0..4 {
                    let Case::Lib(mut c) = best.clone() else { continue };
                    if i >= c.alts.len() {
                        break;
                    }
                    match what {
                        0 => c.alts[i].env.clear(),
                        1 => c.alts[i].warmups = 0,
                        2 => c.alts[i].heap = 0,
                        _ => c.alts[i].cwd.clear(),
                    }
                    progress |= attempt(Case::Lib(c), &mut best, &mut tries);
                }
            }
        }
        if let Case::Cli(k) = best.clone() {
            let mut c = k.clone();
            c.env.clear();
            progress |= attempt(Case::Cli(c), &mut best, &mut tries);
            for what in 0..6 {
                let Case::Cli(mut c) = best.clone() else { continue };
                match what {
                    0 => c.options = None,
                    1 => c.mode = None,
                    2 => c.name = None,
                    3 => c.stdout.tty = false,
                    4 => c.stderr.tty = false,
                    _ => c.world.tick_ns = 1000,
                }
                progress |= attempt(Case::Cli(c), &mut best, &mut tries);
            }
        }
        if let Case::Mac(k) = best.clone() {
            for o in simpler_options(&k.options) {
                let Case::Mac(mut c) = best.clone() else { continue };
                c.options = o;
                progress |= attempt(Case::Mac(c), &mut best, &mut tries);
            }
            for i in (0..k.vars.len()).rev() {
                let Case::Mac(mut c) = best.clone() else { continue };
                c.vars.remove(i);
                progress |= attempt(Case::Mac(c), &mut best, &mut tries);
            }
            for bit in 0..10 {
                let Case::Mac(mut c) = best.clone() else { continue };
                if c.form & (1 << bit) != 0 {
                    c.form &= !(1 << bit);
                    progress |= attempt(Case::Mac(c), &mut best, &mut tries);
                }
            }
        }
        // fewer events
        for i in 0..nscripts(&best) {
            let mut c = best.clone();
            {
                let mut v = case_scripts(&mut c);
                if i >= v.len() || (v[i].events.is_empty() && v[i].chunk == 0) {
                    continue;
                }
                let keep: Vec<_> = v[i].events.iter().filter(|e| !optional(&e.1)).cloned().collect();
                *v[i] = Script { events: keep, chunk: 0, jitter: false };
            }
            if attempt(c, &mut best, &mut tries) {
                progress = true;
                continue;
            }
            let mut c = best.clone();
            case_scripts(&mut c)[i].chunk = 0;
            progress |= attempt(c, &mut best, &mut tries);
            let mut c = best.clone();
            case_scripts(&mut c)[i].jitter = false;
            progress |= attempt(c, &mut best, &mut tries);
            let n = case_scripts(&mut best.clone())[i].events.len();
            for k in (0..n).rev() {
                let mut c = best.clone();
                {
                    let mut v = case_scripts(&mut c);
                    if k >= v[i].events.len() || !optional(&v[i].events[k].1) {
                        continue;
                    }
                    v[i].events.remove(k);
                }
                progress |= attempt(c, &mut best, &mut tries);
            }
        }
        // less world
        {
            let w = match &best {
                Case::Lib(l) => l.world.clone(),
                Case::Cli(k) => k.world.clone(),
                Case::Mac(k) => k.world.clone(),
            };
            let mut cands: Vec<World> = vec![];
            let used = mentions(&best);
            if w.elsewhere.is_some() {
                let mut x = w.clone();
                x.elsewhere = None;
                cands.push(x);
            }
            if !w.env_any.is_empty() {
                let mut x = w.clone();
                x.env_any = String::new();
                cands.push(x);
            }
            for i in 0..w.files.len() {
                let mut x = w.clone();
                let last = x.files[i].path.rsplit('/').next().unwrap_or("").to_string();
                if !used.contains(&last) {
                    x.files.remove(i);
                    cands.push(x);
                }
                let mut x = w.clone();
                if x.files[i].fake_size.is_some() || x.files[i].is_fifo {
                    x.files[i].fake_size = None;
                    x.files[i].is_fifo = false;
                    cands.push(x);
                }
            }
            for i in 0..w.routes.len() {
                let mut x = w.clone();
                if !used.contains(&x.routes[i].path) {
                    x.routes.remove(i);
                    cands.push(x);
                }
                let mut x = w.clone();
                x.routes[i].resp.headers.retain(|h| h.0.eq_ignore_ascii_case("location"));
                x.routes[i].resp.gzip = false;
                cands.push(x);
                for bit in 0..9 {
                    if w.routes[i].resp.dress & (1 << bit) != 0 {
                        let mut x = w.clone();
                        x.routes[i].resp.dress &= !(1 << bit);
                        cands.push(x);
                    }
                }
            }
            cands.reverse();
            for x in cands {
                let mut c = best.clone();
                match &mut c {
                    Case::Lib(l) => l.world = x,
                    Case::Cli(k) => k.world = x,
                    Case::Mac(k) => k.world = x,
                }
                progress |= attempt(c, &mut best, &mut tries);
            }
        }
        // smaller samples
        for t in if shrinkable(&best) { expr_texts(&best) } else { vec![] } {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) else { continue };
            let mut j = parse_j(&v);
            let mut cur = t.clone();
            let plain = text_of(&j);
            if plain != cur && attempt(replace_text(&best, &cur, &plain), &mut best, &mut tries) {
                progress = true;
                cur = plain;
            }
            let mut n = 1;
            while n < size(&j) && !over(&t0) {
                let k = without(&j, n, &mut 0);
                let s = text_of(&k);
                if attempt(replace_text(&best, &cur, &s), &mut best, &mut tries) {
                    progress = true;
                    cur = s;
                    j = k;
                } else {
                    n += 1;
                }
                if n > 400 {
                    break;
                }
            }
        }
    }
    (best, tries)
}

fn simpler_options(o: &str) -> Vec<String> {
    // drop one top-level entry at a time, last first, so that later removals stay valid
    let inner = o.trim().trim_start_matches('{').trim_end_matches('}');
    let mut parts: Vec<String> = vec![];
    let (mut depth, mut in_str, mut cur) = (0, false, String::new());
    let mut esc = false;
    for c in inner.chars() {
        if in_str {
            cur.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                in_str = false;
            }
            continue;
        }
        match c {
            '"' => {
                in_str = true;
                cur.push(c)
            }
            '{' => {
                depth += 1;
                cur.push(c)
            }
            '}' => {
                depth -= 1;
                cur.push(c)
            }
            ',' if depth == 0 => {
                parts.push(cur.trim().to_string());
                cur = String::new();
            }
            _ => cur.push(c),
        }
    }
    if !cur.trim().is_empty() {
        parts.push(cur.trim().to_string());
    }
    let mut v = vec!["{  }".to_string()];
    if parts.len() > 1 {
        for i in 0..parts.len() {
            v.push(format!("{{ {} }}", parts[i]));
        }
        for i in 0..parts.len() {
            let mut p = parts.clone();
            p.remove(i);
            v.push(format!("{{ {} }}", p.join(", ")));
        }
    }
    v
}
