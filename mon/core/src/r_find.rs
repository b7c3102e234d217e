//! Searching finds every match and nothing else, also after edits; the find and
//! replace commands walk and change exactly those.
use crate::drive::*;
use crate::mirror::{line_starts, ranges};
use crate::model::{self, Reg};
use crate::ops;
use crate::sync::*;
use monlib::*;
use regex::{Regex, RegexBuilder};
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Query {
    pub id: Option<usize>,
    pub chars: String,
    pub case: bool,
    pub rx: bool,
    pub whole: bool,
}

type Occ = (usize, usize);

impl Query {
    fn regex(&self) -> Option<Regex> {
        RegexBuilder::new(&self.chars).size_limit(1_000_000).multi_line(true).case_insensitive(!self.case).build().ok()
    }
    fn multi(&self) -> bool {
        ["\\n", "\\r", "[[:space:]]"].iter().any(|p| self.chars.contains(p))
    }
    /// the match at `o`, for a literal
    fn at(&self, t: &str, o: usize) -> Option<usize> {
        let rest = &t[o..];
        if self.case {
            return if rest.starts_with(&self.chars) { Some(o + self.chars.len()) } else { None };
        }
        let pat: Vec<char> = self.chars.chars().flat_map(|c| c.to_lowercase()).collect();
        let mut k = 0;
        for (i, c) in rest.char_indices() {
            for l in c.to_lowercase() {
                if k == pat.len() {
                    break; // the pattern ends within what one character becomes
                }
                if l != pat[k] {
                    return None;
                }
                k += 1;
            }
            if k == pat.len() {
                return Some(o + i + c.len_utf8());
            }
        }
        None
    }
    fn word(&self, t: &str, s: usize, e: usize) -> bool {
        if !self.whole {
            return true;
        }
        if s == e {
            return false;
        }
        let last = s + t[s..e].char_indices().last().unwrap().0;
        let after = s + t[s..].chars().next().unwrap().len_utf8();
        model::prev_word(t, after) == Some(s) && model::next_word(t, last) == Some(e)
    }
    /// All the matches, the leftmost first where they overlap; `None` where that is not
    /// determined by the query (a regex limited to whole words).
    pub fn expected(&self, t: &str) -> Vec<Occ> {
        let mut v = Vec::new();
        if self.chars.is_empty() {
            return v;
        }
        if !self.rx {
            let mut o = 0;
            while o < t.len() {
                match self.at(t, o) {
                    Some(e) if self.word(t, o, e) => {
                        v.push((o, e));
                        o = e;
                    }
                    _ => o += t[o..].chars().next().unwrap().len_utf8(),
                }
            }
            return v;
        }
        let re = match self.regex() {
            Some(r) => r,
            None => return v,
        };
        let mut lines = Vec::new();
        if self.multi() {
            lines.push((0, t.len()));
        } else {
            let st = line_starts(t);
            for (i, &a) in st.iter().enumerate() {
                lines.push((a, st.get(i + 1).copied().unwrap_or(t.len())));
            }
        }
        for (a, b) in lines {
            let l = &t[a..b];
            let mut o = 0;
            while o < l.len() {
                let m = match re.find_at(l, o) {
                    Some(m) => m,
                    None => break,
                };
                // what follows a line break belongs to the next line
                if m.start() == l.len() && l.ends_with('\n') {
                    break;
                }
                if self.word(t, a + m.start(), a + m.end()) {
                    v.push((a + m.start(), a + m.end()));
                }
                o = m.end();
                if m.start() == m.end() {
                    o += l[o..].chars().next().map_or(1, |c| c.len_utf8());
                }
            }
        }
        v
    }
    fn json(&self) -> Value {
        let mut j = json!({"chars": self.chars, "case_sensitive": self.case, "regex": self.rx, "whole_words": self.whole});
        if let Some(i) = self.id {
            j["id"] = json!(i);
        }
        j
    }
}

pub const RX: &[&str] = &[
    "a*", "[ab]+", "^a", "a|b", "a|ab", ".", "[^a]", "\\s", "\\w+", "a.*b", "b?", "x$", "\\bb", "b\\b", "\\Ba", "^", "$", "(a|é)+", "..", "a{2}", "\\n", "b\\n",
    "a\\s*b", ".*\\n.*", "[[:space:]]+", "\\r\\n", "\\d+", "[^\\n]+", "日.", "a+b+", "ab|abcd", "^\\s+", "(?m)^a", "(?s).+",
];

fn query(r: &mut Rng, doc: &str) -> Query {
    let rx = r.chance(2, 5);
    let chars = if rx {
        r.pick(RX).to_string()
    } else {
        match r.below(8) {
            0 => r.pick(&["a", "b", "ab", "aba", "aa", " ", "\n", ".", "é", "K", "İ", "a\nb", "a a", "(", "ß", "ΑΣ"]).to_string(),
            1 => ops::word(r),
            _ => {
                let (a, b) = text::span(r, doc);
                let b = text::floor_boundary(doc, b.min(a + 1 + r.below(6)));
                doc[a..b.max(a)].to_string()
            }
        }
    };
    let chars = if chars.is_empty() { "a".to_string() } else { chars };
    Query { id: None, chars, case: r.bool(), rx, whole: r.chance(1, 3) }
}

struct F {
    s: Sess,
    v: String,
    q: Vec<Query>,
    visible: bool,
    seen: u64,
    checks: u64,
}

impl F {
    fn occ(&self, text: &str, id: usize) -> Result<Vec<Occ>, Fail> {
        let st = line_starts(text);
        let mut v = Vec::new();
        for a in self.s.views[&self.v].annotations.iter().filter(|a| a["type"] == "find") {
            let rs = ranges(a, &st)?;
            for (i, r) in rs.iter().enumerate() {
                if a["payloads"][i]["id"].as_u64() == Some(id as u64) {
                    v.push(*r);
                }
            }
        }
        Ok(v)
    }

    /// Everything reported about the queries against the text.
    fn check(&mut self, cx: &mut Cx, what: &str) -> Result<(String, Vec<(usize, usize)>, Vec<Vec<Occ>>), Fail> {
        let v = self.v.clone();
        let (text, sel) = check_view(cx, &mut self.s, &v)?;
        let mut all = Vec::new();
        let m = &self.s.views[&v];
        for q in &self.q {
            let id = q.id.unwrap();
            let got = self.occ(&text, id)?;
            let want = q.expected(&text);
            for w in got.windows(2) {
                ensure!(w[0].1 <= w[1].0 && w[0] != w[1], "find-overlap", "results {:?} and {:?} of {:?} overlap", w[0], w[1], q);
            }
            if let Some(w) = want.iter().find(|w| !got.contains(w)) {
                if !got.iter().any(|g| g.0 < w.1 && w.0 < g.1) {
                    fail!("find-missing", "{:?} after {}: match {:?} is not among {} in {:?}", q, what, w, short(&got), short(&text));
                }
            }
            if let Some(g) = got.iter().find(|g| !want.contains(g)) {
                fail!("find-wrong", "{:?} after {}: {:?} is reported, the matches are {} in {:?}", q, what, g, short(&want), short(&text));
            }
            ensure!(got == want, "find-choice", "{:?} after {}: {} reported, want {} in {:?}", q, what, short(&got), short(&want), short(&text));
            self.seen += got.len() as u64;
            self.checks += 1;
            // the status
            let st = m.find.iter().find(|f| f["id"] == id);
            ensure!(st.is_some(), "find-status-missing", "no find_status for query {} after {}", id, what);
            let st = st.unwrap();
            ensure_eq!(st["matches"].as_u64(), Some(got.len() as u64), "find-status-count", "{:?} after {}: {}", q, what, st);
            ensure!(st["chars"] == q.chars.as_str() && st["case_sensitive"] == q.case && st["whole_words"] == q.whole && st["is_regex"] == q.rx, "find-status-query", "query {:?} has status {}", q, st);
            let starts = line_starts(&text);
            let lines: Vec<usize> = got.iter().map(|g| model::line_of(&text, g.0) + 1).collect();
            ensure!(st["lines"] == json!(lines), "find-status-lines", "{:?} after {}: lines {} want {:?}", q, what, st["lines"], lines);
            // highlights: style id (index + 1) covers exactly the occurrences of visible lines
            let style = self.q.iter().position(|x| x.id == q.id).unwrap() as i64 + 1;
            for (i, l) in m.lines.iter().enumerate() {
                let l = match l {
                    Some(l) => l,
                    None => continue,
                };
                let (a, b) = (starts[i], starts.get(i + 1).copied().unwrap_or(text.len()));
                let mut hl: Vec<Occ> = l.styles.iter().filter(|x| x.2 == style).map(|x| (a + x.0, a + x.1)).collect();
                hl.sort();
                let want: Vec<Occ> = if self.visible { got.iter().map(|g| (g.0.max(a), g.1.min(b))).filter(|g| g.0 < g.1).collect() } else { vec![] };
                ensure!(hl == want, "find-highlight", "line {} after {} highlights {:?} for {:?}, want {:?} (visible {})", i, what, hl, q, want, self.visible);
            }
            all.push(got);
        }
        let ids: Vec<u64> = m.find.iter().filter_map(|f| f["id"].as_u64()).collect();
        let want: Vec<u64> = self.q.iter().map(|q| q.id.unwrap() as u64).collect();
        ensure!(ids == want, "find-status-ids", "find_status tells of queries {:?}, want {:?}", ids, want);
        Ok((text, sel, all))
    }

    fn new_queries(&mut self, cx: &mut Cx, r: &mut Rng, doc: &str) -> Result<(), Fail> {
        let v = self.v.clone();
        if self.q.len() <= 1 && r.chance(2, 3) {
            let mut q = query(r, doc);
            q.id = self.q.first().and_then(|q| q.id);
            self.s.do_edit(cx, &v, "find", q.json())?;
            if q.id.is_none() {
                q.id = self.s.views[&v].find.first().and_then(|f| f["id"].as_u64()).map(|x| x as usize);
                ensure!(q.id.is_some(), "find-status-missing", "no find_status after find {:?}", q);
            }
            self.q = vec![q];
        } else {
            // keep some, change some, add some
            let mut qs: Vec<Query> = Vec::new();
            for q in self.q.clone() {
                match r.below(3) {
                    0 => {}
                    1 => qs.push(q),
                    _ => {
                        let mut n = query(r, doc);
                        n.id = q.id;
                        qs.push(n);
                    }
                }
            }
            while qs.is_empty() || r.chance(1, 2) && qs.len() < 6 {
                qs.push(query(r, doc));
            }
            let old: Vec<Option<usize>> = self.q.iter().map(|q| q.id).collect();
            self.s.do_edit(cx, &v, "multi_find", json!({"queries": qs.iter().map(|q| q.json()).collect::<Vec<_>>()}))?;
            let ids: Vec<usize> = self.s.views[&v].find.iter().filter_map(|f| f["id"].as_u64()).map(|x| x as usize).collect();
            ensure_eq!(ids.len(), qs.len(), "find-status-ids", "queries after multi_find {:?}: {:?}", qs, ids);
            for (q, id) in qs.iter_mut().zip(ids) {
                if q.id.is_none() {
                    ensure!(!old.contains(&Some(id)), "find-id-reused", "new query got id {}", id);
                    q.id = Some(id);
                }
            }
            self.q = qs;
        }
        Ok(())
    }
}

fn start(cx: &mut Cx, r: &mut Rng, doc: &str) -> Result<F, Fail> {
    let mut s = Sess::start(cx)?;
    if r.chance(1, 2) {
        s.set_config(cx, json!("general"), json!({"surrounding_pairs": []}))?;
    }
    let (v, _) = s.open_text(cx, r, doc)?;
    s.do_edit(cx, &v, "scroll", json!([0, 100_000]))?;
    Ok(F { s, v, q: Vec::new(), visible: false, seen: 0, checks: 0 })
}

fn document(r: &mut Rng) -> String {
    match r.below(5) {
        0 => text::any(r, 200),
        1 => {
            // long lines across leaves
            let n = 300 + r.below(2500);
            text::long(r, n)
        }
        _ => {
            let alpha: &[&str] = r.pick(&[&["a", "b", " ", "\n"][..], &["a", "b"], &["ab", "a", "\n", "A", "é"], &["foo", "bar", " ", "-", "\n", "_", "Foo"], &["x", "1", " ", "\r\n", "日"], &["K", "k", "i", "İ", "I", "\u{212a}", "ß", "\n"]]);
            let n = r.below(60);
            text::gen(r, alpha, n)
        }
    }
}

/// The reported results are the matches in the text, after every edit.
fn results(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let doc = document(&mut r);
    let mut f = start(cx, &mut r, &doc)?;
    let v = f.v.clone();
    f.new_queries(cx, &mut r, &doc)?;
    let (mut t, _, _) = f.check(cx, "find")?;
    let n = 4 + r.below(if cx.thorough { 60 } else { 24 });
    let mut edits = 0;
    for _ in 0..n {
        let (m, p) = match r.below(13) {
            12 => {
                // while only some of the lines are shown
                let lines = line_starts(&t).len();
                let (a, h) = (r.below(lines), 1 + r.below(6));
                f.s.do_edit(cx, &v, "scroll", json!([a, a + h]))?;
                if r.bool() {
                    f.new_queries(cx, &mut r, &t)?;
                } else {
                    f.visible = r.bool();
                    f.s.do_edit(cx, &v, "highlight_find", json!({"visible": f.visible}))?;
                    if r.bool() {
                        f.s.do_edit(cx, &v, "insert", json!({ "chars": ops::chars(&mut r) }))?;
                    }
                }
                f.s.do_edit(cx, &v, "scroll", json!([0, 100_000]))?;
                let x = f.check(cx, "search in a small window")?;
                t = x.0;
                continue;
            }
            0 => {
                f.new_queries(cx, &mut r, &t)?;
                let x = f.check(cx, "find")?;
                t = x.0;
                continue;
            }
            1 => {
                f.visible = r.bool();
                ("highlight_find".to_string(), json!({"visible": f.visible}))
            }
            2 if !t.is_empty() => {
                // type what is searched for, or a piece of it
                let q = r.pick(&f.q).chars.clone();
                let k = text::floor_boundary(&q, 1 + r.below(q.len()));
                ("insert".to_string(), json!({"chars": &q[..k]}))
            }
            _ => loop {
                let x = ops::any(&mut r, &t, line_starts(&t).len());
                if !x.0.contains("find") && !x.0.contains("scroll") && !x.0.contains("replace") && !x.0.contains("recording") && !x.0.contains("page") {
                    break x;
                }
            },
        };
        f.s.do_edit(cx, &v, &m, p)?;
        let x = f.check(cx, &m)?;
        if x.0 != t {
            edits += 1;
        }
        t = x.0;
        cx.state(hash_str(&t));
        if t.len() > 6_000 {
            break;
        }
    }
    cx.count("results_compared", f.seen);
    cx.count("result_sets_compared", f.checks);
    cx.count("edits", edits);
    cx.key(cx.trace_hash(), f.seen > 3 && edits > 1);
    Ok(())
}

/// find_next and find_previous walk through the results; find_all selects them.
fn walk(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut doc = document(&mut r);
    if doc.len() > 400 {
        doc.truncate(text::floor_boundary(&doc, 400));
    }
    let mut f = start(cx, &mut r, &doc)?;
    let v = f.v.clone();
    let mut q = query(&mut r, &doc);
    while q.expected(&doc).len() > 60 || q.expected(&doc).iter().any(|o| o.0 == o.1) {
        q = query(&mut r, &doc);
    }
    f.s.do_edit(cx, &v, "find", q.json())?;
    q.id = f.s.views[&v].find.first().and_then(|f| f["id"].as_u64()).map(|x| x as usize);
    f.q = vec![q.clone()];
    let occ = q.expected(&doc);
    let mut walked = 0u64;
    for round in 0..1 + r.below(4) {
        // somewhere
        let (line, col) = (r.below(line_starts(&doc).len()), r.below(12));
        f.s.do_edit(cx, &v, "gesture", json!({"line": line, "col": col, "ty": {"select": {"granularity": ops::granularity(&mut r), "multi": false}}}))?;
        let (t, sel0, _) = f.check(cx, "gesture")?;
        ensure!(t == doc, "find-changed-text", "text changed");
        let back = r.bool();
        let cmd = if back { "find_previous" } else { "find_next" };
        let wrap = r.bool();
        let p = match r.below(3) {
            0 if !wrap => json!({}),
            1 => json!({"wrap_around": wrap}),
            _ => json!({"wrap_around": wrap, "allow_same": false, "modify_selection": "set"}),
        };
        let s0 = sel0[0];
        if r.chance(1, 5) {
            f.s.do_edit(cx, &v, cmd, json!({"wrap_around": wrap, "modify_selection": "none"}))?;
            let (_, sel, _) = f.check(cx, cmd)?;
            ensure!(sel == sel0, "find-none-moves", "{} with modify_selection none selects {:?}, was {:?}", cmd, sel, sel0);
        }
        // the first step: the nearest in that direction
        f.s.do_edit(cx, &v, cmd, p.clone())?;
        let (_, sel, _) = f.check(cx, cmd)?;
        if occ.is_empty() {
            ensure!(sel == sel0, "find-nothing-moves", "{} without results selects {:?}, was {:?}", cmd, sel, sel0);
            continue;
        }
        ensure!(sel.len() == 1, "find-next-many", "{} selects {:?}", cmd, sel);
        let ahead: Vec<usize> = (0..occ.len()).filter(|&i| if back { occ[i].1 <= s0.0 } else { occ[i].0 >= s0.1 }).collect();
        // results the selection touches may count as ahead
        let near: Vec<usize> = (0..occ.len()).filter(|&i| occ[i].0 <= s0.1 && occ[i].1 >= s0.0).collect();
        let strict = if back { ahead.last() } else { ahead.first() };
        let mut allowed: Vec<Occ> = strict.iter().map(|i| occ[**i]).chain(near.iter().map(|i| occ[*i])).collect();
        if strict.is_none() {
            if wrap {
                let mut free = occ.iter().filter(|o| o.1 <= s0.0 || o.0 >= s0.1);
                allowed.push(*if back { free.last() } else { free.next() }.unwrap_or(&s0));
            } else {
                allowed.push(s0);
            }
        }
        ensure!(allowed.contains(&sel[0]), "find-next-wrong", "{} (wrap {}) from {:?} selects {:?}; results {:?}", cmd, wrap, s0, sel[0], short(&occ));
        let mut at = match occ.iter().position(|o| *o == sel[0]) {
            Some(i) => i,
            None => continue, // stayed, at the end
        };
        if s0.0 != s0.1 && occ.contains(&s0) && occ.len() > 1 && (wrap || strict.is_some()) {
            ensure!(sel[0] != s0, "find-next-stays", "{} (wrap {}) stays at {:?}; results {:?}", cmd, wrap, s0, short(&occ));
        }
        // from result to result
        for _ in 0..occ.len() + 2 {
            f.s.do_edit(cx, &v, cmd, p.clone())?;
            let (_, sel, _) = f.check(cx, cmd)?;
            ensure!(sel.len() == 1, "find-next-many", "{} selects {:?}", cmd, sel);
            let want = if back {
                if at > 0 { at - 1 } else if wrap { occ.len() - 1 } else { at }
            } else if at + 1 < occ.len() {
                at + 1
            } else if wrap {
                0
            } else {
                at
            };
            ensure!(sel[0] == occ[want], "find-next-wrong", "{} (wrap {}) from {:?} selects {:?}, want {:?}; results {:?}", cmd, wrap, occ[at], sel[0], occ[want], short(&occ));
            at = want;
            walked += 1;
        }
        if r.chance(1, 3) && round == 0 {
            // adding the next one by one selects them all
            let p = json!({"wrap_around": true, "modify_selection": "add"});
            let mut want = vec![occ[at]];
            for k in 1..occ.len().min(8) {
                f.s.do_edit(cx, &v, "find_next", p.clone())?;
                let (_, sel, _) = f.check(cx, "find_next add")?;
                let _ = k;
                let fresh: Vec<Occ> = sel.iter().filter(|s| !want.contains(s)).cloned().collect();
                ensure!(fresh.len() == 1 && occ.contains(&fresh[0]) && want.iter().all(|w| sel.contains(w)), "find-add-wrong", "find_next add gives {:?} from {:?}; results {:?}", sel, want, short(&occ));
                want = sel;
            }
        }
        if r.chance(1, 3) {
            f.s.do_edit(cx, &v, "find_all", Value::Null)?;
            let (_, sel, _) = f.check(cx, "find_all")?;
            ensure!(sel == occ, "find-all-wrong", "find_all selects {:?}, results {:?}", short(&sel), short(&occ));
            cx.count("find_all", 1);
        }
    }
    cx.count("steps_walked", walked);
    cx.key(cx.trace_hash(), walked > 2);
    Ok(())
}

/// replace_next and replace_all change the results and nothing else.
fn replace(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let doc = document(&mut r);
    let mut f = start(cx, &mut r, &doc)?;
    let v = f.v.clone();
    let mut t = doc;
    let mut done = 0u64;
    for _ in 0..1 + r.below(5) {
        // what to find: set directly or from the selection
        if r.chance(1, 4) && f.q.len() <= 1 && !t.is_empty() {
            let (line, col) = (r.below(line_starts(&t).len()), r.below(12));
            f.s.do_edit(cx, &v, "gesture", json!({"line": line, "col": col, "ty": {"select": {"granularity": ops::granularity(&mut r), "multi": false}}}))?;
            let (text, sel, _) = f.check(cx, "gesture")?;
            let (a, b) = if sel[0].0 < sel[0].1 { sel[0] } else { model::select_word(&text, sel[0].0) };
            let case = r.bool();
            f.s.do_edit(cx, &v, "selection_for_find", json!({ "case_sensitive": case }))?;
            let id = f.s.views[&v].find.first().and_then(|f| f["id"].as_u64()).map(|x| x as usize);
            f.q = vec![Query { id, chars: text[a..b].to_string(), case, rx: false, whole: true }];
            f.check(cx, "selection_for_find")?;
            cx.count("selection_for_find", 1);
        } else {
            let mut q = query(&mut r, &t);
            q.id = f.q.first().and_then(|q| q.id);
            f.s.do_edit(cx, &v, "find", q.json())?;
            if q.id.is_none() {
                q.id = f.s.views[&v].find.first().and_then(|f| f["id"].as_u64()).map(|x| x as usize);
            }
            f.q = vec![q];
        }
        let (text, sel0, occ) = f.check(cx, "find")?;
        t = text;
        let occ: Vec<Occ> = occ[0].clone();
        if occ.iter().any(|o| o.0 == o.1) || f.q[0].chars.is_empty() {
            continue; // what replacing nothing does is left open
        }
        let with = match r.below(5) {
            0 => String::new(),
            1 => f.q[0].chars.clone(),
            2 => format!("{}{}", f.q[0].chars, f.q[0].chars),
            _ => ops::chars(&mut r),
        };
        if r.chance(1, 5) {
            f.s.do_edit(cx, &v, "selection_for_replace", Value::Null)?;
            let l = sel0.last().unwrap();
            let (a, b) = if l.0 < l.1 { *l } else { model::select_word(&t, l.0) };
            let got = f.s.views[&v].replace.clone().map_or(Value::Null, |x| x["chars"].clone());
            ensure!(got == json!(&t[a..b]), "replace-status", "selection_for_replace on {:?} reports {}, want {:?}", sel0, got, short(&&t[a..b]));
        }
        f.s.do_edit(cx, &v, "replace", json!({ "chars": with }))?;
        let got = f.s.views[&v].replace.clone().map_or(Value::Null, |x| x["chars"].clone());
        ensure!(got == json!(with), "replace-status", "replace string {:?} is reported as {}", with, got);
        if r.bool() {
            f.s.do_edit(cx, &v, "replace_all", Value::Null)?;
            let (now, sel, _) = f.check(cx, "replace_all")?;
            let mut want = String::new();
            let mut p = 0;
            for o in &occ {
                want.push_str(&t[p..o.0]);
                want.push_str(&with);
                p = o.1;
            }
            want.push_str(&t[p..]);
            ensure!(now == want, "replace-all-wrong", "replace_all of {} by {:?} in {:?} gave {:?}, want {:?}", short(&occ), with, short(&t), short(&now), short(&want));
            if occ.is_empty() {
                ensure!(sel == sel0, "replace-moves", "replace_all without results selects {:?}, was {:?}", sel, sel0);
            }
            t = now;
            done += 1;
        } else {
            for _ in 0..1 + r.below(4) {
                let (before, s0, o) = f.check(cx, "replace")?;
                let o = &o[0];
                if o.iter().any(|o| o.0 == o.1) {
                    break;
                }
                f.s.do_edit(cx, &v, "replace_next", Value::Null)?;
                let (now, sel, _) = f.check(cx, "replace_next")?;
                if o.is_empty() {
                    ensure!(now == before, "replace-next-wrong", "replace_next without results changed {:?} to {:?}", short(&before), short(&now));
                    ensure!(sel == s0, "replace-moves", "replace_next without results selects {:?}, was {:?}", sel, s0);
                    break;
                }
                let ok = o.iter().any(|o| format!("{}{}{}", &before[..o.0], with, &before[o.1..]) == now);
                ensure!(ok, "replace-next-wrong", "replace_next by {:?} in {:?} gave {:?}; results {}", with, short(&before), short(&now), short(o));
                // a selected result is the one that is replaced
                if s0.len() == 1 && o.contains(&s0[0]) && !(o.iter().any(|p| p.1 == s0[0].0 || p.0 == s0[0].1)) {
                    ensure!(now == format!("{}{}{}", &before[..s0[0].0], with, &before[s0[0].1..]), "replace-next-other", "replace_next with {:?} selected in {:?} gave {:?}", s0, short(&before), short(&now));
                }
                t = now;
                done += 1;
            }
        }
        if t.len() > 8_000 {
            break;
        }
    }
    cx.count("replaced", done);
    cx.count("results_compared", f.seen);
    cx.key(cx.trace_hash(), done > 0);
    Ok(())
}

/// Documents larger than one batch of the incremental search.
fn batches(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let pat = r.pick(&["needle", "aXa", "two\nlines", "日本", "a b"]).to_string();
    let rx = r.chance(1, 3);
    let q = if rx {
        Query { id: None, chars: r.pick(&["n.*e", "^x.*x", "needle$", "\\bneedle\\b", "needle\\n", "X+"]).to_string(), case: true, rx: true, whole: false }
    } else {
        Query { id: None, chars: pat.clone(), case: r.bool(), rx: false, whole: r.chance(1, 4) }
    };
    // filler without matches, needles near the ends of batches and anywhere
    let n = 600_000 + r.below(1_400_000);
    let edits = r.chance(3, 4);
    let unit = *r.pick(&["xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\n", "some words here and there é\n", "xx xx xx xx "]);
    let mut doc = unit.repeat(n / unit.len() + 1);
    let needles = if edits { 150 } else { 3 + r.below(8) };
    for _ in 0..needles {
        let base = if !edits && r.chance(2, 3) { 500_000 * r.below(4) } else { r.below(n) };
        let at = (base + r.below(40)).saturating_sub(20).min(doc.len());
        let at = text::floor_boundary(&doc, at);
        doc.insert_str(at, if rx { *r.pick(&["needle", "X", "needle\n", "n"]) } else { &pat });
    }
    let mut s = Sess::start(cx)?;
    let (v, _) = s.open_text(cx, &mut r, &doc)?;
    let lines = line_starts(&doc).len();
    let first = r.below(lines);
    s.do_edit(cx, &v, "scroll", json!([first, first + 20]))?;
    if r.bool() {
        s.edit(cx, &v, "highlight_find", json!({ "visible": true }))?;
    }
    s.edit(cx, &v, "find", q.json())?;
    // idle work with something in between
    let mut edited = 0u64;
    let mut idles = 0;
    let mut moved = false;
    while s.idle_once(cx)? {
        idles += 1;
        if r.chance(1, 4) {
            let f = r.below(lines);
            s.edit(cx, &v, "scroll", json!([f, f + 20]))?;
            moved = true;
        }
        if edits && r.chance(1, 2) {
            let l = match r.below(4) {
                0 => 0,
                1 => lines - 1,
                _ => r.below(lines),
            };
            s.edit(cx, &v, "gesture", json!({"line": l, "col": r.below(12), "ty": "point_select"}))?;
            match r.below(5) {
                0 | 1 => s.edit(cx, &v, "insert", json!({"chars": if r.bool() { pat.clone() } else { ops::chars(&mut r) }}))?,
                2 => {
                    let to = if r.bool() { (l + 1 + r.below(4000)).min(lines) } else { r.below(lines) };
                    s.edit(cx, &v, "gesture", json!({"line": to, "col": r.below(12), "ty": {"select_extend": {"granularity": "point"}}}))?;
                    s.edit(cx, &v, r.pick(&["delete_backward", "insert_newline", "insert_tab"]), Value::Null)?;
                }
                3 => s.edit(cx, &v, "undo", Value::Null)?,
                _ => s.edit(cx, &v, r.pick(&["delete_backward", "delete_word_forward", "delete_to_end_of_paragraph", "insert_newline", "duplicate_line"]), Value::Null)?,
            }
            edited += 1;
        }
        ensure!(idles < 500, "find-never-ends", "search still running after {} idle turns", idles);
    }
    let _ = moved;
    cx.count("edits_while_searching", edited);
    let doc = s.contents(cx, &v)?;
    let st = line_starts(&doc);
    s.do_edit(cx, &v, "scroll", json!([0, st.len() + 5]))?;
    let mut got = Vec::new();
    for a in s.views[&v].annotations.iter().filter(|a| a["type"] == "find") {
        got.extend(ranges(a, &st)?);
    }
    let want = q.expected(&doc);
    ensure!(got == want, "find-batches", "{:?} finds {:?}, want {:?} ({} bytes, window at line {})", q, short(&got), short(&want), doc.len(), first);
    cx.count("batches", idles);
    cx.count("results_compared", got.len() as u64);
    cx.key(cx.trace_hash(), idles > 2 && !got.is_empty());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = Reg::caret(0);
    vec![Prop::new("C21", "a search with results and edits, steps or replacements", vec![
        Suite { name: "results", f: results, quick: 6000, thorough: 200000 },
        Suite { name: "walk", f: walk, quick: 3000, thorough: 80000 },
        Suite { name: "replace", f: replace, quick: 5000, thorough: 150000 },
        Suite { name: "batches", f: batches, quick: 120, thorough: 1500 },
    ])]
}
