//! The frontend's line cache, as docs/frontend-protocol.md specifies it.
use monlib::*;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Line {
    pub text: String,
    pub ln: Option<usize>,
    pub cursor: Vec<usize>,
    /// (start, end, id)
    pub styles: Vec<(usize, usize, i64)>,
}

#[derive(Default)]
pub struct Mirror {
    pub lines: Vec<Option<Line>>,
    pub pristine: bool,
    pub annotations: Vec<Value>,
    /// what the frontend told the core it shows; the core starts with ten lines
    pub window: (usize, usize),
    pub scroll_to: Option<(usize, usize)>,
    pub scrolls: u64,
    /// the core scrolled its own idea of the window and the frontend has not followed
    pub lag: bool,
    pub find: Vec<Value>,
    pub replace: Option<Value>,
    pub replace_sent: u64,
    pub updates: u64,
    pub closed: bool,
    pub ops: [u64; 5],
}

fn int(v: &Value) -> Option<usize> {
    v.as_u64().map(|x| x as usize)
}

impl Mirror {
    pub fn new() -> Mirror {
        Mirror { pristine: true, window: (0, 10), ..Mirror::default() }
    }

    pub fn apply(&mut self, u: &Value, styles: &BTreeMap<i64, Value>) -> Result<(), Fail> {
        let old = std::mem::take(&mut self.lines);
        let mut new: Vec<Option<Line>> = Vec::with_capacity(old.len());
        let mut ix = 0usize;
        let ops = u["ops"].as_array().ok_or_else(|| Fail::new("update-malformed", "no ops"))?;
        for op in ops {
            let kind = op["op"].as_str().unwrap_or("?");
            let n = int(&op["n"]).unwrap_or(0);
            // "in all cases, n is guaranteed positive and nonzero"
            ensure!(n > 0, "update-op-empty", "op {} with n = {}", kind, op["n"]);
            match kind {
                "copy" => {
                    self.ops[0] += 1;
                    ensure!(ix + n <= old.len(), "update-copy-past-end", "copy {} at {} of {} old lines", n, ix, old.len());
                    let ln = int(&op["ln"]);
                    ensure!(ln.is_some(), "update-copy-without-ln", "copy op without ln: {}", op);
                    let mut num = ln.unwrap();
                    let mut first = true;
                    // nothing moved: the numbers stay (those of missing lines are not known)
                    let same = ops.len() == 1 && n == old.len() && num == 1;
                    for l in &old[ix..ix + n] {
                        if same {
                            new.push(l.clone());
                            continue;
                        }
                        if l.is_none() {
                            num += if first { 0 } else { 1 };
                        }
                        let mut l = l.clone();
                        if let Some(l) = l.as_mut() {
                            if l.ln.is_some() {
                                if !first {
                                    num += 1;
                                }
                                l.ln = Some(num);
                            }
                        }
                        first = false;
                        new.push(l);
                    }
                    ix += n;
                }
                "skip" => {
                    self.ops[1] += 1;
                    ensure!(ix + n <= old.len(), "update-skip-past-end", "skip {} at {} of {} old lines", n, ix, old.len());
                    ix += n;
                }
                "invalidate" => {
                    self.ops[2] += 1;
                    for _ in 0..n {
                        new.push(None);
                    }
                }
                "ins" => {
                    self.ops[3] += 1;
                    let ls = op["lines"].as_array().map(|v| v.as_slice()).unwrap_or(&[]);
                    ensure!(ls.len() == n, "update-ins-count", "ins n {} with {} lines", n, ls.len());
                    for l in ls {
                        let text = l["text"].as_str().ok_or_else(|| Fail::new("update-ins-without-text", format!("{}", l)))?;
                        new.push(Some(Line {
                            text: text.to_string(),
                            ln: int(&l["ln"]),
                            cursor: cursors(l, text)?.unwrap_or_default(),
                            styles: spans(l, text, styles)?.unwrap_or_default(),
                        }));
                    }
                }
                "update" => {
                    self.ops[4] += 1;
                    let ls = op["lines"].as_array().map(|v| v.as_slice()).unwrap_or(&[]);
                    ensure!(ls.len() == n, "update-update-count", "update n {} with {} lines", n, ls.len());
                    ensure!(ix + n <= old.len(), "update-update-past-end", "update {} at {} of {} old lines", n, ix, old.len());
                    let mut num = int(&op["ln"]);
                    let mut first = true;
                    for (l, o) in ls.iter().zip(&old[ix..ix + n]) {
                        ensure!(l.get("text").is_none(), "update-update-with-text", "update line carries text: {}", l);
                        let mut o = o.clone();
                        if let Some(o) = o.as_mut() {
                            if let Some(c) = cursors(l, &o.text)? {
                                o.cursor = c;
                            }
                            if let Some(s) = spans(l, &o.text, styles)? {
                                o.styles = s;
                            }
                            if let (Some(k), true) = (num.as_mut(), o.ln.is_some()) {
                                if !first {
                                    *k += 1;
                                }
                                o.ln = Some(*k);
                            }
                            if l.get("ln").is_some() {
                                o.ln = int(&l["ln"]);
                            }
                        }
                        first = false;
                        new.push(o);
                    }
                    ix += n;
                }
                k => fail!("update-op-unknown", "op {}", k),
            }
        }
        self.lines = new;
        self.pristine = u["pristine"].as_bool().ok_or_else(|| Fail::new("update-without-pristine", brief_of(u)))?;
        self.annotations = u["annotations"].as_array().cloned().ok_or_else(|| Fail::new("update-without-annotations", brief_of(u)))?;
        for a in &self.annotations {
            let n = int(&a["n"]).unwrap_or(usize::MAX);
            let r = a["ranges"].as_array().map(|x| x.len()).unwrap_or(0);
            ensure!(n == r, "annotation-count", "annotation n {} with {} ranges", n, r);
            if let Some(p) = a["payloads"].as_array() {
                ensure!(p.len() == r, "annotation-payload-count", "annotation with {} ranges and {} payloads", r, p.len());
            }
        }
        self.updates += 1;
        Ok(())
    }

    pub fn take_find(&mut self, q: &Value) -> Result<(), Fail> {
        let q = q.as_array().ok_or_else(|| Fail::new("find-status-malformed", format!("{}", q)))?;
        // "matches only" statuses leave the parameters out: keep the known ones
        let mut new = Vec::new();
        for s in q {
            let mut s = s.clone();
            if let Some(o) = self.find.iter().find(|o| o["id"] == s["id"]) {
                for k in &["chars", "case_sensitive", "is_regex", "whole_words"] {
                    if s[*k].is_null() {
                        s[*k] = o[*k].clone();
                    }
                }
            }
            new.push(s);
        }
        self.find = new;
        Ok(())
    }

    /// Selection regions as (start, end) offsets into `text`, given its visual line starts.
    pub fn selection(&self, starts: &[usize]) -> Result<Vec<(usize, usize)>, Fail> {
        self.ann("selection", starts)
    }

    pub fn ann(&self, kind: &str, starts: &[usize]) -> Result<Vec<(usize, usize)>, Fail> {
        let mut v = Vec::new();
        for a in self.annotations.iter().filter(|a| a["type"] == kind) {
            v.extend(ranges(a, starts)?);
        }
        Ok(v)
    }
}

pub fn ranges(a: &Value, starts: &[usize]) -> Result<Vec<(usize, usize)>, Fail> {
    let mut v = Vec::new();
    for r in a["ranges"].as_array().unwrap() {
        let x: Vec<usize> = r.as_array().map(|r| r.iter().filter_map(int).collect()).unwrap_or_default();
        ensure!(x.len() == 4, "annotation-range-malformed", "range {}", r);
        ensure!(x[0] < starts.len() && x[2] < starts.len(), "annotation-line-out-of-range", "range {:?} in a text of {} lines", x, starts.len());
        v.push((starts[x[0]] + x[1], starts[x[2]] + x[3]));
    }
    Ok(v)
}

fn brief_of(v: &Value) -> String {
    v.to_string().chars().take(200).collect()
}

fn cursors(l: &Value, text: &str) -> Result<Option<Vec<usize>>, Fail> {
    let a = match l.get("cursor") {
        Some(Value::Array(a)) => a,
        _ => return Ok(None),
    };
    let v: Vec<usize> = a.iter().filter_map(int).collect();
    ensure!(v.len() == a.len(), "cursor-malformed", "cursor {:?}", a);
    for w in v.windows(2) {
        // "in increasing order"
        ensure!(w[0] <= w[1], "cursor-order", "cursors {:?}", v);
    }
    for c in &v {
        ensure!(*c <= text.len() && text.is_char_boundary(*c), "cursor-out-of-line", "cursor {} in line {:?}", c, short(&text));
    }
    Ok(Some(v))
}

fn spans(l: &Value, text: &str, known: &BTreeMap<i64, Value>) -> Result<Option<Vec<(usize, usize, i64)>>, Fail> {
    let a = match l.get("styles") {
        Some(Value::Array(a)) => a,
        _ => return Ok(None),
    };
    ensure!(a.len() % 3 == 0, "styles-malformed", "styles of length {}", a.len());
    let mut pos = 0i64;
    let mut v = Vec::new();
    for t in a.chunks(3) {
        let (d, n, id) = (t[0].as_i64().unwrap_or(i64::MIN / 4), t[1].as_i64().unwrap_or(0), t[2].as_i64().unwrap_or(-1));
        let s = pos + d;
        let e = s + n;
        // "the length is guaranteed nonzero and positive"
        ensure!(n > 0, "style-span-empty", "style span of length {} in {:?}", n, a);
        ensure!(s >= 0 && e as usize <= text.len(), "style-span-out-of-line", "style span {}..{} in a line of {} bytes", s, e, text.len());
        ensure!(text.is_char_boundary(s as usize) && text.is_char_boundary(e as usize), "style-span-splits-char", "style span {}..{} in {:?}", s, e, text);
        ensure!(id >= 0 && (id < 8 || known.contains_key(&id)), "style-id-undefined", "style id {} was never defined", id);
        v.push((s as usize, e as usize, id));
        pos = e;
    }
    Ok(Some(v))
}

/// Offsets of the starts of the logical lines.
pub fn line_starts(text: &str) -> Vec<usize> {
    let mut v = vec![0];
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            v.push(i + 1);
        }
    }
    v
}
