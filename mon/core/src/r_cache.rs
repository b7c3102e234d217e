//! C31: the document caches of the plugin library against the document, and
//! incremental analysis driven by the state cache's frontier against analysing
//! the whole document again.
use monlib::*;
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use xi_core_lib::plugin_rpc::{GetDataResponse, TextUnit};
use xi_plugin_lib::{Cache, ChunkCache, DataSource, Error, StateCache};
use xi_rope::delta::{Builder, Delta};
use xi_rope::{DeltaElement, Interval, Rope, RopeDelta, RopeInfo};

/// The core's side: the text at the newest revision, answering as the core does
/// but giving no more than it likes at a time.
struct Doc {
    text: String,
    lines: Vec<usize>,
    rev: u64,
    max: usize,
    /// fail so many requests from now on
    failing: Cell<usize>,
    asked: RefCell<Vec<(usize, bool)>>,
    bad: RefCell<Option<String>>,
    rng: RefCell<Rng>,
}

fn lines_of(s: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(s.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    v
}

impl Doc {
    fn set(&mut self, t: String) {
        self.lines = lines_of(&t);
        self.text = t;
        self.rev += 1;
    }
    fn n_lines(&self) -> usize {
        self.lines.len()
    }
    fn line(&self, i: usize) -> &str {
        let e = self.lines.get(i + 1).copied().unwrap_or(self.text.len());
        &self.text[self.lines[i]..e]
    }
    fn line_of(&self, off: usize) -> usize {
        match self.lines.binary_search(&off) {
            Ok(i) => i,
            Err(i) => i - 1,
        }
    }
}

impl DataSource for Doc {
    fn get_data(&self, start: usize, unit: TextUnit, max_size: usize, rev: u64) -> Result<GetDataResponse, Error> {
        let is_line = match unit {
            TextUnit::Line => true,
            TextUnit::Utf8 => false,
        };
        self.asked.borrow_mut().push((start, is_line));
        if self.asked.borrow().len() > 200_000 {
            panic!("the cache keeps asking");
        }
        if rev != self.rev {
            *self.bad.borrow_mut() = Some(format!("asked for revision {} when at {}", rev, self.rev));
            return Err(Error::BadRequest);
        }
        if self.failing.get() > 0 {
            self.failing.set(self.failing.get() - 1);
            return Err(Error::PeerDisconnect);
        }
        let off = if is_line {
            if start > self.n_lines() {
                return Err(Error::BadRequest);
            }
            self.lines.get(start).copied().unwrap_or(self.text.len())
        } else {
            if start > self.text.len() {
                return Err(Error::BadRequest);
            }
            text::floor_boundary(&self.text, start)
        };
        let want = off.saturating_add(max_size.min(1 + self.rng.borrow_mut().below(self.max)));
        let mut end = text::floor_boundary(&self.text, want.min(self.text.len()));
        if end <= off {
            // at least one character
            end = off + self.text[off..].chars().next().map(|c| c.len_utf8()).unwrap_or(0);
        }
        let l = self.line_of(off);
        Ok(GetDataResponse { chunk: self.text[off..end].to_string(), offset: off, first_line: l, first_line_offset: off - self.lines[l] })
    }
}

fn gen_text(r: &mut Rng, max: usize) -> String {
    let alpha: &[&str] = match r.below(4) {
        0 => &["a", "\n", "b", "{", "}"],
        1 => &["\n", "\n", "x{", "}", "é", "\""],
        2 => &["ab", "日本", "🎉", "e\u{301}", "\r\n", "\n", "{", "\""],
        _ => &["word ", "x", "y", "{", "}", "z", "\"", "more text", "\n"],
    };
    let n = match r.below(6) {
        0 => 0,
        1 => r.below(4),
        _ => r.below(max + 1),
    };
    text::gen(r, alpha, n)
}

/// A random edit of `t` of some kind, and what it makes of it.
fn gen_delta(r: &mut Rng, t: &str) -> (RopeDelta, &'static str) {
    let n = t.len();
    let ins = |r: &mut Rng| {
        let k = *r.pick(&[1usize, 1, 2, 5, 20]);
        let mut s = gen_text(r, k);
        if s.is_empty() {
            s = (*r.pick(&["\n", "a", "{"])).to_string();
        }
        s
    };
    // positions next to line starts matter most
    let pos = |r: &mut Rng| {
        if r.chance(1, 3) {
            let l = lines_of(t);
            *r.pick(&l)
        } else {
            text::pos(r, t)
        }
    };
    match r.weighted(&[40, 30, 10, 12, 3, 3, 2]) {
        0 => {
            let a = pos(r);
            (Delta::simple_edit(Interval::new(a, a), Rope::from(ins(r)), n), "insert")
        }
        1 if n > 0 => {
            let (mut a, mut b) = (pos(r), pos(r));
            if r.chance(2, 3) {
                b = text::floor_boundary(t, a + r.below(8));
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if a == b {
                if a > 0 {
                    a = text::floor_boundary(t, a - 1);
                } else {
                    b = t.chars().next().unwrap().len_utf8();
                }
            }
            (Delta::simple_edit(Interval::new(a, b), Rope::from(""), n), "delete")
        }
        2 => {
            let (mut a, mut b) = (pos(r), pos(r));
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            (Delta::simple_edit(Interval::new(a, b), Rope::from(ins(r)), n), "replace")
        }
        3 => {
            // several places at once
            let mut b: Builder<RopeInfo> = Builder::new(n);
            let mut p: Vec<usize> = (0..r.range(2, 6)).map(|_| pos(r)).collect();
            p.sort();
            p.dedup();
            let mut i = 0;
            while i < p.len() {
                if i + 1 < p.len() && r.bool() {
                    let s = if r.bool() { Rope::from(ins(r)) } else { Rope::from("") };
                    b.replace(p[i]..p[i + 1], s);
                    i += 2;
                } else {
                    b.replace(p[i]..p[i], Rope::from(ins(r)));
                    i += 1;
                }
            }
            (b.build(), "several")
        }
        4 => (Delta::simple_edit(Interval::new(0, n), Rope::from(gen_text(r, 60)), n), "all"),
        5 => {
            // nothing changes
            let els = if n == 0 { vec![] } else { vec![DeltaElement::Copy(0, n)] };
            (Delta { els, base_len: n }, "nothing")
        }
        _ => {
            // the same insertion in two pieces
            let a = pos(r);
            let mut els = vec![];
            if a > 0 {
                els.push(DeltaElement::Copy(0, a));
            }
            els.push(DeltaElement::Insert(Rope::from(ins(r))));
            els.push(DeltaElement::Insert(Rope::from(ins(r))));
            if a < n {
                els.push(DeltaElement::Copy(a, n));
            }
            (Delta { els, base_len: n }, "pieces")
        }
    }
}

fn apply(d: &RopeDelta, t: &str) -> String {
    let mut s = String::new();
    for e in &d.els {
        match e {
            DeltaElement::Copy(a, b) => s.push_str(&t[*a..*b]),
            DeltaElement::Insert(r) => s.push_str(&String::from(r)),
        }
    }
    s
}

fn show(d: &RopeDelta) -> String {
    let v: Vec<String> = d.els.iter().map(|e| match e {
        DeltaElement::Copy(a, b) => format!("{}..{}", a, b),
        DeltaElement::Insert(r) => short(&String::from(r)),
    }).collect();
    format!("[{}]", v.join(", "))
}

/// Where old positions are in the new text: (old from, old to, new from) of what is kept.
fn kept(d: &RopeDelta) -> Vec<(usize, usize, usize)> {
    let (mut v, mut n) = (vec![], 0);
    for e in &d.els {
        match e {
            DeltaElement::Copy(a, b) => {
                v.push((*a, *b, n));
                n += b - a;
            }
            DeltaElement::Insert(r) => n += r.len(),
        }
    }
    v
}

fn new_doc(cx: &mut Cx, max: usize) -> Doc {
    let t = gen_text(&mut cx.rng, max);
    let chunk = *cx.rng.pick(&[1usize, 4, 16, 64, 300, 1 << 20]);
    Doc {
        lines: lines_of(&t),
        text: t,
        rev: 1,
        max: chunk,
        failing: Cell::new(0),
        asked: RefCell::new(vec![]),
        bad: RefCell::new(None),
        rng: RefCell::new(Rng::new(cx.seed ^ 0x51)),
    }
}

/// Puts random questions and compares the answers with the document.
fn ask<C: Cache>(cx: &mut Cx, c: &mut C, d: &Doc, n: usize) -> Result<(), Fail> {
    for _ in 0..n {
        d.asked.borrow_mut().clear();
        let fail = cx.rng.chance(1, 25);
        if fail {
            d.failing.set(1);
        }
        let nl = d.n_lines();
        let what;
        match cx.rng.weighted(&[10, 8, 3, 6, 6, 1, 2]) {
            0 => {
                let l = if cx.rng.chance(1, 4) { *cx.rng.pick(&[0, nl - 1, nl, nl + 1]) } else { cx.rng.below(nl + 1) };
                what = format!("get_line {}", l);
                cx.note(what.clone());
                match c.get_line(d, l) {
                    Ok(s) => {
                        ensure!(l < nl, "cache:line", "line {} of {} was given as {}", l, nl, short(&s));
                        ensure_eq!(s, d.line(l), "cache:line", "line {}", l);
                        cx.count("lines", 1);
                    }
                    Err(e) => ensure!(l >= nl || (fail && d.failing.get() == 0), "cache:line", "line {} of {} refused: {:?}", l, nl, e),
                }
            }
            1 => {
                let (a, b) = if cx.rng.chance(1, 5) { (0, d.text.len()) } else { text::span(&mut cx.rng, &d.text) };
                what = format!("get_region {}..{}", a, b);
                cx.note(what.clone());
                match c.get_region(d, a..b) {
                    Ok(s) => {
                        ensure_eq!(s, &d.text[a..b], "cache:region", "{}..{}", a, b);
                        cx.count("regions", 1);
                    }
                    Err(e) => ensure!(fail && d.failing.get() == 0, "cache:region", "{}..{} of {} refused: {:?}", a, b, d.text.len(), e),
                }
            }
            2 => {
                let a = text::pos(&mut cx.rng, &d.text);
                let b = d.text.len() + 1 + cx.rng.below(10);
                what = format!("get_region {}..{} of {}", a, b, d.text.len());
                cx.note(what.clone());
                let r = c.get_region(d, a..b);
                ensure!(r.is_err(), "cache:region", "{}..{} of {} was given as {}", a, b, d.text.len(), short(&r));
                cx.count("regions_outside", 1);
            }
            3 => {
                let l = if cx.rng.chance(1, 4) { *cx.rng.pick(&[0, nl - 1, nl, nl + 1]) } else { cx.rng.below(nl + 2) };
                what = format!("offset_of_line {}", l);
                cx.note(what.clone());
                match c.offset_of_line(d, l) {
                    Ok(o) => {
                        ensure!(l <= nl, "cache:offset_of_line", "line {} of {} is at {}", l, nl, o);
                        ensure_eq!(o, d.lines.get(l).copied().unwrap_or(d.text.len()), "cache:offset_of_line", "line {}", l);
                        cx.count("line_offsets", 1);
                    }
                    Err(e) => ensure!(l > nl || (fail && d.failing.get() == 0), "cache:offset_of_line", "line {} of {} refused: {:?}", l, nl, e),
                }
            }
            4 => {
                let o = if cx.rng.chance(1, 8) { d.text.len() + cx.rng.below(3) } else { text::pos(&mut cx.rng, &d.text) };
                what = format!("line_of_offset {}", o);
                cx.note(what.clone());
                match c.line_of_offset(d, o) {
                    Ok(l) => {
                        ensure!(o <= d.text.len(), "cache:line_of_offset", "{} of {} is in line {}", o, d.text.len(), l);
                        ensure_eq!(l, d.line_of(o), "cache:line_of_offset", "offset {}", o);
                        cx.count("offset_lines", 1);
                    }
                    Err(e) => {
                        ensure!(o > d.text.len() || (fail && d.failing.get() == 0), "cache:line_of_offset", "{} of {} refused: {:?}", o, d.text.len(), e)
                    }
                }
            }
            5 => {
                what = "clear".into();
                cx.note("clear");
                c.clear();
            }
            _ => {
                what = "get_document".into();
                cx.note("get_document");
                match c.get_document(d) {
                    Ok(s) => {
                        ensure_eq!(s, d.text, "cache:document", "document");
                        cx.count("documents", 1);
                    }
                    Err(e) => ensure!(fail && d.failing.get() == 0, "cache:document", "refused: {:?}", e),
                }
            }
        }
        if fail && d.failing.get() == 0 {
            cx.count("failed_requests", 1);
        }
        d.failing.set(0);
        if let Some(b) = d.bad.borrow_mut().take() {
            fail!("cache:request", "{}: {}", what, b);
        }
        let n = d.asked.borrow().len();
        cx.count(if n == 0 { "answered_from_cache" } else { "answered_after_asking" }, 1);
    }
    Ok(())
}

fn chunk_case(cx: &mut Cx) -> Result<(), Fail> {
    if cx.rng.bool() {
        reads::<ChunkCache>(cx)
    } else {
        reads::<StateCache<u32>>(cx)
    }
}

fn reads<C: Cache>(cx: &mut Cx) -> Result<(), Fail> {
    let max = *cx.rng.pick(&[5usize, 40, 40, 300]);
    let mut d = new_doc(cx, max);
    cx.note(format!("document {:?}, at most {} bytes at a time", d.text, d.max));
    let mut c = C::new(d.text.len(), d.rev, d.n_lines());
    let steps = cx.rng.range(3, if cx.thorough { 40 } else { 20 });
    for _ in 0..steps {
        let n = cx.rng.below(5);
        ask(cx, &mut c, &d, n)?;
        let (delta, kind) = gen_delta(&mut cx.rng, &d.text);
        let t = apply(&delta, &d.text);
        let told = !cx.rng.chance(1, 12);
        cx.note(format!("edit {} {}{}", kind, show(&delta), if told { "" } else { " (not told)" }));
        d.set(t);
        c.update(if told { Some(&delta) } else { None }, d.text.len(), d.n_lines(), d.rev);
        cx.count("edits", 1);
        cx.state(hash_str(&d.text));
    }
    ask(cx, &mut c, &d, 6)?;
    let h = cx.trace_hash();
    cx.key(h, d.n_lines() > 1);
    if cx.want_sample() {
        let tr = cx.trace_head(8);
        cx.sample(json!({"history": tr}));
    }
    Ok(())
}

// -------------------------------------------------------------- incremental

/// A state of the analysis; the tag says who computed it and does not count.
#[derive(Clone, Default, Debug)]
struct St {
    v: u32,
    tag: usize,
}

/// The state after a line: like a highlighter's, mostly independent of it.
fn step(lang: u32, v: u32, line: &str) -> u32 {
    let mut v = v;
    match lang {
        0 => {
            for ch in line.bytes() {
                match ch {
                    b'{' => v = (v + 1).min(4),
                    b'}' => v = v.saturating_sub(1),
                    _ => {}
                }
            }
        }
        1 => {
            for ch in line.bytes() {
                if ch == b'"' {
                    v ^= 1;
                }
            }
        }
        2 => v = (v + line.bytes().filter(|b| *b == b'{').count() as u32) % 3,
        _ => v = (v * 31 + line.len() as u32) % 5,
    }
    v
}

struct Painter {
    lang: u32,
    /// for each line: state it was analysed from, if it was since it last changed
    painted: Vec<Option<u32>>,
    /// where the states given to the cache are now
    at: BTreeMap<usize, (usize, u32)>,
    tags: usize,
    max_line: usize,
}

fn states_case(cx: &mut Cx) -> Result<(), Fail> {
    // now and then more lines than the cache holds states
    let big = cx.rng.chance(1, if cx.thorough { 60 } else { 150 });
    let max = if big { 4000 } else { *cx.rng.pick(&[10usize, 60, 60, 200]) };
    let mut d = new_doc(cx, max);
    if big {
        let n = cx.rng.range(1020, 1500);
        let mut t = String::new();
        for i in 0..n {
            t.push_str(if i % 97 == 3 { "{\n" } else if i % 53 == 1 { "}\"\n" } else { "x\n" });
        }
        d.set(t);
        d.max = 1 << 20;
    }
    cx.note(format!("document {:?}, at most {} bytes at a time", short(&d.text), d.max));
    let mut c: StateCache<St> = StateCache::new(d.text.len(), d.rev, d.n_lines());
    let mut p = Painter { lang: cx.rng.below(4) as u32, painted: vec![None; d.n_lines()], at: BTreeMap::new(), tags: 1, max_line: 0 };
    c.clear();
    let steps = cx.rng.range(3, if cx.thorough { 50 } else { 25 });
    for _ in 0..steps {
        // some work
        let n = match cx.rng.below(4) {
            0 => 0,
            1 => cx.rng.below(3),
            2 => cx.rng.below(2 * d.n_lines() + 1),
            _ => usize::MAX,
        };
        work(cx, &mut c, &d, &mut p, n)?;
        if cx.rng.chance(1, 3) {
            let k = cx.rng.below(4);
            ask_no_clear(cx, &mut c, &d, k)?;
        }
        lookups(cx, &c, &d, &p)?;
        if cx.rng.chance(1, 12) {
            // a state for a line that is not there, or when no answer is to be had
            let l = if cx.rng.bool() { d.n_lines() + cx.rng.below(4) } else { cx.rng.range(1, d.n_lines()) };
            cx.note(format!("set {} without an answer", l));
            if c.get(l).is_none() {
                d.failing.set(usize::MAX / 2);
                let tag = p.tags;
                p.tags += 1;
                c.set(&d, l, St { v: 99, tag });
                let asked = usize::MAX / 2 - d.failing.get();
                d.failing.set(0);
                d.asked.borrow_mut().clear();
                if l >= d.n_lines() || asked > 0 {
                    ensure!(c.get(l).is_none(), "states:set", "line {} of {} has a state it could not be given", l, d.n_lines());
                    cx.count("states_refused", 1);
                } else {
                    // known without asking: it is there, and wrong, so start again
                    p.at.insert(d.lines[l], (tag, 99));
                    c.clear();
                    p.painted = vec![None; d.n_lines()];
                    p.at.clear();
                }
            }
        }
        if cx.rng.chance(1, 25) {
            p.lang = cx.rng.below(4) as u32;
            cx.note(format!("language {}", p.lang));
            c.clear();
            p.painted = vec![None; d.n_lines()];
            p.at.clear();
            continue;
        }
        // some edits
        for _ in 0..cx.rng.range(1, 3) {
            let (delta, kind) = gen_delta(&mut cx.rng, &d.text);
            let told = !cx.rng.chance(1, 25);
            cx.note(format!("edit {} {}{}", kind, show(&delta), if told { "" } else { " (not told)" }));
            edit(&mut c, &mut d, &mut p, &delta, told);
            cx.count("edits", 1);
            cx.count(&format!("edits_{}", kind), 1);
        }
        cx.state(mix(hash_str(&d.text), p.painted.iter().filter(|x| x.is_some()).count() as u64));
    }
    work(cx, &mut c, &d, &mut p, usize::MAX)?;
    lookups(cx, &c, &d, &p)?;
    let h = cx.trace_hash();
    cx.key(h, d.n_lines() > 2);
    if cx.want_sample() {
        let tr = cx.trace_head(8);
        cx.sample(json!({"history": tr}));
    }
    Ok(())
}

fn ask_no_clear(cx: &mut Cx, c: &mut StateCache<St>, d: &Doc, n: usize) -> Result<(), Fail> {
    for _ in 0..n {
        let nl = d.n_lines();
        let l = cx.rng.below(nl);
        if cx.rng.bool() {
            cx.note(format!("get_line {}", l));
            ensure_eq!(c.get_line(d, l).ok(), Some(d.line(l)), "cache:line", "line {}", l);
        } else {
            let (a, b) = text::span(&mut cx.rng, &d.text);
            cx.note(format!("get_region {}..{}", a, b));
            ensure_eq!(c.get_region(d, a..b).ok(), Some(&d.text[a..b]), "cache:region", "{}..{}", a, b);
        }
        d.asked.borrow_mut().clear();
    }
    Ok(())
}

fn edit(c: &mut StateCache<St>, d: &mut Doc, p: &mut Painter, delta: &RopeDelta, told: bool) {
    let k = kept(delta);
    let old_lines = d.lines.clone();
    let old_len = d.text.len();
    let t = apply(delta, &d.text);
    d.set(t);
    // a line keeps what it was painted with if it is wholly the line it was
    let mut np = Vec::with_capacity(d.n_lines());
    for i in 0..d.n_lines() {
        let (a, b) = (d.lines[i], d.lines.get(i + 1).copied().unwrap_or(d.text.len()));
        let mut v = None;
        for (o, e, n) in &k {
            if *n <= a && b <= n + (e - o) && a < b {
                let oa = a - n + o;
                let ob = b - n + o;
                if let Ok(ix) = old_lines.binary_search(&oa) {
                    if old_lines.get(ix + 1).copied().unwrap_or(old_len) == ob {
                        v = p.painted[ix];
                    }
                }
            }
        }
        np.push(v);
    }
    if !told {
        np = vec![None; d.n_lines()];
    }
    p.painted = np;
    // where states may still be
    let mut at = BTreeMap::new();
    if told {
        for (pos, s) in p.at.iter() {
            for (o, e, n) in &k {
                // the end of what was kept stays the place before what is inserted there
                if o <= pos && pos <= e {
                    at.entry(pos - o + n).or_insert(*s);
                    break;
                }
            }
        }
    }
    p.at = at;
    c.update(if told { Some(delta) } else { None }, d.text.len(), d.n_lines(), d.rev);
}

/// Works as a highlighter does: takes the frontier, goes back to the state
/// before it, and on until the state is what it was.
fn work(cx: &mut Cx, c: &mut StateCache<St>, d: &Doc, p: &mut Painter, max: usize) -> Result<(), Fail> {
    let mut n = 0;
    let limit = 60 * (d.n_lines() + 20);
    let mut done = 0;
    while n < max {
        let want = match c.get_frontier() {
            None => {
                // nothing left to do: everything must be as if done afresh
                let mut v = 0;
                for l in 0..d.n_lines() {
                    if d.line(l).is_empty() {
                        break;
                    }
                    ensure_eq!(p.painted[l], Some(v), "frontier:done", "nothing is left to do, but line {} of {} was not analysed from the right state", l, d.n_lines());
                    v = step(p.lang, v, d.line(l));
                }
                cx.count("completed_analyses", 1);
                break;
            }
            Some(l) => l,
        };
        n += 1;
        ensure!(n < limit, "frontier:endless", "after {} steps the analysis of {} lines is not done; frontier {}", n, d.n_lines(), want);
        let (l, off, st) = c.get_prev(want);
        cx.note(format!("work at {}: from line {} at {} {:?}", want, l, off, st));
        ensure!(l <= want, "frontier:prev", "the state before line {} is that of line {}", want, l);
        ensure!(l < d.n_lines() && d.lines[l] == off, "frontier:prev", "the state before line {} is of line {}, said to be at {} but at {:?}", want, l, off, d.lines.get(l));
        if l == 0 {
            ensure!(st.tag == 0, "frontier:prev", "line 0 has state {:?}", st);
        } else {
            ensure_eq!(p.at.get(&off).map(|x| x.0), Some(st.tag), "frontier:prev", "line {} has the state of another place", l);
        }
        let line = match c.get_line(d, l) {
            Ok(s) => s.to_string(),
            Err(e) => {
                ensure!(l >= d.n_lines(), "cache:line", "line {} of {} refused: {:?}", l, d.n_lines(), e);
                String::new()
            }
        };
        d.asked.borrow_mut().clear();
        ensure_eq!(line, d.line(l), "cache:line", "line {}", l);
        let mut next = None;
        if !line.is_empty() {
            p.painted[l] = Some(st.v);
            done += 1;
            if line.ends_with('\n') {
                next = Some(step(p.lang, st.v, &line));
            }
        }
        let mut go_on = false;
        if let Some(v) = next {
            let old = c.get(l + 1).cloned();
            if old.map(|s| s.v) != Some(v) {
                let tag = p.tags;
                p.tags += 1;
                c.set(d, l + 1, St { v, tag });
                p.at.insert(d.lines[l + 1], (tag, v));
                c.update_frontier(l + 1);
                go_on = true;
            }
        }
        if !go_on {
            c.close_frontier();
        }
        p.max_line = p.max_line.max(l);
    }
    cx.count("lines_analysed", done);
    Ok(())
}

/// The states the cache holds are where they were put.
fn lookups(cx: &mut Cx, c: &StateCache<St>, d: &Doc, p: &Painter) -> Result<(), Fail> {
    for _ in 0..6 {
        let l = cx.rng.below(d.n_lines() + 1);
        if let Some(s) = c.get(l) {
            ensure!(l < d.n_lines(), "states:get", "line {} of {} has a state", l, d.n_lines());
            ensure_eq!(p.at.get(&d.lines[l]).map(|x| x.0), Some(s.tag), "states:get", "state of line {}", l);
            cx.count("states_compared", 1);
        }
        let (pl, off, s) = c.get_prev(l);
        ensure!(pl <= l, "states:prev", "state before line {} is of line {}", l, pl);
        ensure_eq!(d.lines.get(pl).copied(), Some(off), "states:prev", "place of line {}", pl);
        if pl > 0 {
            ensure_eq!(p.at.get(&off).map(|x| x.0), Some(s.tag), "states:prev", "state of line {}", pl);
            // none is nearer
            for k in pl + 1..=l {
                ensure!(c.get(k).is_none(), "states:prev", "before line {} line {} was found rather than {}", l, pl, k);
            }
        }
        if let Ok(_) = c.find_offset(off) {
            cx.count("offsets_found", 1);
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    let mut p = Prop::new(
        "C31",
        "ChunkCache and StateCache of the plugin library, fed by a source that answers as the core does but with pieces of 1 byte to 1 MiB and fails now and then, through random histories of edits (insertions, deletions, replacements, several places at once, edits too big to be told), each question compared with the document; and a highlighter driven by the frontier, working in slices between bursts of edits, changes of language and eviction of states, whose result must be that of a full analysis whenever nothing is left to do. Non-trivial: more than one line.",
        vec![
            Suite { name: "reads", f: chunk_case, quick: 300_000, thorough: 12_000_000 },
            Suite { name: "analysis", f: states_case, quick: 200_000, thorough: 8_000_000 },
        ],
    );
    p.must_observe = &["lines", "regions", "answered_from_cache", "completed_analyses", "states_compared", "failed_requests"];
    p
}
