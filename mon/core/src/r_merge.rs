//! Edits of plugins, made on revisions that may be old, are merged with what the user
//! does. Every character is unique, so the history of each can be followed.
use crate::drive::*;
use crate::plug::*;
use crate::r_plugin::*;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Chars {
    pub next: u32,
}
impl Chars {
    pub fn get(&mut self, r: &mut Rng) -> char {
        self.next += 1;
        // one, two, three and four byte characters that no rule treats specially
        loop {
            let base = match r.below(8) {
                0 => 0x1D400,
                1 | 2 => 0x0400,
                3 | 4 if self.next <= 26 => 0x40,
                3 | 4 if self.next <= 52 => 0x60 - 26,
                _ => 0x4E00,
            };
            if base == 0x0400 && self.next > 0x50 {
                continue;
            }
            return char::from_u32(base + self.next).unwrap();
        }
    }
    pub fn lines(&mut self, r: &mut Rng) -> String {
        let mut t = String::new();
        for _ in 0..1 + r.below(6) {
            let k = r.below(8);
            t.push_str(&self.some(r, k));
            if r.chance(2, 3) {
                t.push('\n');
            }
        }
        t
    }
    pub fn some(&mut self, r: &mut Rng, n: usize) -> String {
        (0..n).map(|_| self.get(r)).collect()
    }
}

struct Hist {
    ins: BTreeMap<char, u64>,
    del: BTreeMap<char, BTreeSet<u64>>,
    undone: BTreeSet<u64>,
    live: Vec<u64>,
    cur: usize,
    /// pairs seen together, in this order
    order: BTreeMap<char, BTreeSet<char>>,
}

fn ids(t: &str) -> Vec<char> {
    t.chars().filter(|c| *c != '\n').collect()
}

impl Hist {
    fn visible(&self) -> BTreeSet<char> {
        self.ins.iter().filter(|(c, g)| !self.undone.contains(g) && self.del.get(c).map_or(true, |d| d.iter().all(|g| self.undone.contains(g)))).map(|x| *x.0).collect()
    }

    fn group(&mut self, g: u64) {
        if !self.live[..self.cur].contains(&g) {
            self.live.truncate(self.cur);
            self.live.push(g);
            self.cur += 1;
        }
    }

    fn sequence(&mut self, t: &[char], what: &str) -> Result<(), Fail> {
        for (i, a) in t.iter().enumerate() {
            for b in &t[..i] {
                // b before a
                if let Some(s) = self.order.get(a) {
                    ensure!(!s.contains(b), "order-changed", "{:?} was before {:?}; after {} it is behind, in {:?}", a, b, what, short(&t));
                }
            }
        }
        for (i, a) in t.iter().enumerate() {
            self.order.entry(*a).or_default().extend(t[i + 1..].iter());
        }
        Ok(())
    }

    /// The text now must be that of the history.
    fn check(&mut self, t: &str, what: &str) -> Result<(), Fail> {
        let v = ids(t);
        let set: BTreeSet<char> = v.iter().copied().collect();
        ensure_eq!(set.len(), v.len(), "character-doubled", "after {}: characters in {:?}", what, short(&t));
        let want = self.visible();
        if set != want {
            let lost: Vec<_> = want.difference(&set).collect();
            let extra: Vec<_> = set.difference(&want).collect();
            fail!("characters-differ", "after {}: lost {:?}, should be gone {:?}; text {:?}", what, lost, extra, short(&t));
        }
        self.sequence(&v, what)
    }
}

/// Region ends with, for each, the characters before it.
fn anchors(t: &str, sel: &[(usize, usize)]) -> Vec<(BTreeSet<char>, BTreeSet<char>)> {
    sel.iter().map(|(a, b)| (ids(&t[..*a]).into_iter().collect(), ids(&t[..*b]).into_iter().collect())).collect()
}

fn merge(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut s = Sess::start(cx)?;
    s.set_config(cx, json!("general"), json!({"auto_indent": false, "autodetect_whitespace": false}))?;
    let mut ch = Chars { next: 0 };
    let np = 1 + r.below(3);
    // sees everything at once, so that each step's undo group is known; edits nothing
    let mut watch = connect(cx, &mut s, 90, "watch")?;
    let mut plugs = Vec::new();
    for i in 0..np {
        plugs.push(connect(cx, &mut s, i + 1, &format!("p{}", i))?);
    }
    let mut text = if r.chance(1, 3) { ch.lines(&mut r) } else { String::new() };
    let v = match s.open_file_of(cx, &mut r, &text)? {
        Some(v) => v,
        None => {
            text.clear();
            s.new_view(cx, None)?
        }
    };
    s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
    let mut h = Hist { ins: BTreeMap::new(), del: BTreeMap::new(), undone: BTreeSet::new(), live: vec![0], cur: 1, order: BTreeMap::new() };
    // what the file had is of no group that can be undone
    h.ins.extend(ids(&text).into_iter().map(|c| (c, 0)));
    let n = 10 + r.below(if cx.thorough { 100 } else { 50 });
    let (mut concurrent, mut pedits, mut undos, mut carets) = (0u64, 0u64, 0u64, 0u64);
    let mut first = true;
    for _ in 0..n {
        let mut k = r.below(20);
        if first {
            k = 0;
            first = false;
        }
        match k {
            0..=7 => {
                let lines = text.matches('\n').count() + 1;
                let (m, p) = match r.below(12) {
                    0..=4 => {
                        let mut t = String::new();
                        for _ in 0..1 + r.below(4) {
                            let k = r.below(6);
                            t.push_str(&ch.some(&mut r, k));
                            if r.chance(1, 4) {
                                t.push('\n');
                            }
                        }
                        (if r.bool() { "insert" } else { "paste" }, json!({ "chars": t }))
                    }
                    5 | 6 => (*r.pick(&["delete_backward", "delete_forward", "delete_word_backward", "delete_to_beginning_of_line"]), Value::Null),
                    7 => ("insert_newline", Value::Null),
                    8 | 9 => {
                        let (line, col) = (r.below(lines), r.below(20));
                        s.edit(cx, &v, "gesture", json!({"line": line, "col": col, "ty": {"select": {"granularity": "point", "multi": false}}}))?;
                        ("gesture", json!({"line": r.below(lines), "col": r.below(20), "ty": {"select_extend": {"granularity": "point"}}}))
                    }
                    _ => ("gesture", json!({"line": r.below(lines), "col": r.below(20), "ty": {"select": {"granularity": "point", "multi": false}}})),
                };
                if m.starts_with("insert") || m == "paste" {
                    // one region only, or what is typed would not be unique
                    s.edit(cx, &v, "collapse_selections", Value::Null)?;
                }
                let seen = watch.reps.get(&v).map_or(0, |r| r.updates);
                s.edit(cx, &v, m, p)?;
                let t = s.contents(cx, &v)?;
                watch.pump(cx, &mut s, &mut r, 100_000)?;
                ensure_eq!(watch.reps[&v].text, t, "replica-differs", "the watcher's copy");
                if watch.reps[&v].updates > seen {
                    let g = watch.reps[&v].group.ok_or_else(|| Fail::new("update-without-group", format!("no undo group told for {}", m)))?;
                    h.group(g);
                    let (a, b): (BTreeSet<char>, BTreeSet<char>) = (ids(&text).into_iter().collect(), ids(&t).into_iter().collect());
                    for c in b.difference(&a) {
                        ensure!(!h.ins.contains_key(c), "character-reappeared", "{:?} came back with {}", c, m);
                        h.ins.insert(*c, g);
                    }
                    for c in a.difference(&b) {
                        h.del.entry(*c).or_default().insert(g);
                    }
                    h.check(&t, m)?;
                    text = t;
                }
            }
            8 | 9 => {
                let redo = r.chance(2, 5);
                for _ in 0..1 + r.below(3) {
                    s.edit(cx, &v, if redo { "redo" } else { "undo" }, Value::Null)?;
                    if redo {
                        if h.cur < h.live.len() {
                            h.undone.remove(&h.live[h.cur]);
                            h.cur += 1;
                        }
                    } else if h.cur > 1 {
                        h.cur -= 1;
                        h.undone.insert(h.live[h.cur]);
                    }
                    let t = s.contents(cx, &v)?;
                    h.check(&t, if redo { "redo" } else { "undo" })?;
                    undos += 1;
                    text = t;
                }
                watch.pump(cx, &mut s, &mut r, 100_000)?;
            }
            10..=12 => {
                let i = r.below(np);
                let k = 1 + r.below(4);
                plugs[i].pump(cx, &mut s, &mut r, k)?;
            }
            13 => {
                let i = r.below(np);
                plugs[i].ack(cx, &mut s, 2)?;
            }
            14 => s.settle(cx)?,
            _ => {
                // a plugin edits what it knows
                let i = r.below(np);
                let rep = match plugs[i].reps.get(&v) {
                    Some(rep) => rep.clone(),
                    None => continue,
                };
                let (rev, base) = if r.bool() { rep.revs.last().unwrap().clone() } else { r.pick(&rep.revs).clone() };
                let bounds: Vec<usize> = base.char_indices().map(|x| x.0).chain(std::iter::once(base.len())).collect();
                let mut els = Vec::new();
                let mut want: Vec<char> = Vec::new(); // base with the insertions, deleted ones included
                let (mut ins, mut dels) = (Vec::new(), Vec::new());
                let mut at = 0;
                let mut cuts: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(bounds.len())).collect();
                cuts.sort();
                cuts.dedup();
                for c in cuts {
                    if bounds[c] < at {
                        continue;
                    }
                    if bounds[c] > at {
                        els.push(json!({"copy": [at, bounds[c]]}));
                    }
                    want.extend(ids(&base[at..bounds[c]]));
                    at = bounds[c];
                    if r.chance(2, 3) {
                        let k = 1 + r.below(3);
                        let t = ch.some(&mut r, k);
                        ins.extend(ids(&t));
                        want.extend(ids(&t));
                        els.push(json!({"insert": if r.chance(1, 6) { format!("{}\n", t) } else { t }}));
                    }
                    if r.chance(1, 3) {
                        let e = bounds[(c + r.below(4)).min(bounds.len() - 1)];
                        dels.extend(ids(&base[at..e]));
                        want.extend(ids(&base[at..e]));
                        at = e;
                    }
                }
                if at < base.len() {
                    els.push(json!({"copy": [at, base.len()]}));
                }
                want.extend(ids(&base[at..]));
                let group = if r.bool() && h.cur > 1 { Some(h.live[1 + r.below(h.cur - 1)]) } else { None };
                if ins.is_empty() && dels.is_empty() {
                    continue;
                }
                s.settle(cx)?;
                let (before, sel) = check_view(cx, &mut s, &v)?;
                ensure_eq!(before, text, "text-changed-by-itself", "text before a plugin's edit");
                let edit = json!({"edit": {"rev": rev, "delta": {"base_len": base.len(), "els": els}, "priority": *r.pick(&[0u64, 1, 10, 0x10000, 0x100000]), "after_cursor": r.bool(), "undo_group": group, "author": "p"}});
                plugs[i].notify(cx, &mut s, &v, "edit", edit)?;
                pedits += 1;
                concurrent += (base != before) as u64;
                let seen = watch.reps[&v].updates;
                watch.pump(cx, &mut s, &mut r, 100_000)?;
                let t = s.contents(cx, &v)?;
                let wr = &watch.reps[&v];
                let g = match group {
                    Some(g) => g,
                    // a step of its own
                    None if wr.updates > seen => {
                        let g = wr.group.unwrap_or(0);
                        ensure!(!h.live.contains(&g), "plugin-edit-group", "the edit, given no group, became part of group {}", g);
                        g
                    }
                    None => continue,
                };
                if wr.updates > seen {
                    ensure_eq!(wr.last.1, plugs[i].tag(), "update-author", "author told of a plugin's edit");
                }
                if group.is_none() {
                    h.group(g);
                }
                for c in &ins {
                    h.ins.insert(*c, g);
                }
                for c in &dels {
                    h.del.entry(*c).or_default().insert(g);
                }
                h.check(&t, "a plugin's edit")?;
                // placed where the plugin meant it
                h.sequence(&want, "a plugin's edit")?;
                h.sequence(&ids(&t), "a plugin's edit")?;
                ensure_eq!(wr.text, t, "replica-differs", "the watcher's copy");
                text = t;
                // the user's cursors stay between the same characters
                s.settle(cx)?;
                let (_, now) = check_view(cx, &mut s, &v)?;
                if now.len() == sel.len() {
                    let left: BTreeSet<char> = ids(&text).into_iter().collect();
                    for (o, n) in anchors(&before, &sel).iter().zip(anchors(&text, &now)) {
                        for (what, o, n) in &[("start", &o.0, &n.0), ("end", &o.1, &n.1)] {
                            let a: BTreeSet<char> = o.iter().filter(|c| left.contains(c)).copied().collect();
                            let b: BTreeSet<char> = n.iter().filter(|c| h.order.contains_key(c) && before.contains(**c)).copied().collect();
                            ensure!(a == b, "cursor-moved-over-text", "the {} of a region had {:?} before it, then {:?}; {:?} to {:?}", what, a, b, short(&before), short(&text));
                            carets += 1;
                        }
                    }
                }
            }
        }
        cx.state(hash_str(&text));
        if h.live.len() > 14 || ids(&text).len() > 150 {
            break;
        }
        if r.chance(1, 8) {
            s.settle(cx)?;
            check_view(cx, &mut s, &v)?;
        }
        if r.chance(1, 3) {
            watch.ack(cx, &mut s, 100)?;
        }
    }
    // everything can be undone and redone, the plugins' edits with the user's
    for redo in &[false, true] {
        for _ in 0..h.live.len() {
            s.edit(cx, &v, if *redo { "redo" } else { "undo" }, Value::Null)?;
            if *redo && h.cur < h.live.len() {
                h.undone.remove(&h.live[h.cur]);
                h.cur += 1;
            } else if !*redo && h.cur > 1 {
                h.cur -= 1;
                h.undone.insert(h.live[h.cur]);
            }
            let t = s.contents(cx, &v)?;
            h.check(&t, if *redo { "redo" } else { "undo" })?;
            undos += 1;
        }
    }
    s.settle(cx)?;
    watch.catch_up(cx, &mut s, &mut r)?;
    for p in plugs.iter_mut() {
        p.catch_up(cx, &mut s, &mut r)?;
    }
    plugs.push(watch);
    check_replicas(cx, &mut s, &plugs)?;
    check_view(cx, &mut s, &v)?;
    cx.count("plugin_edits", pedits);
    cx.count("plugin_edits_on_old_text", concurrent);
    cx.count("undo_redo_steps", undos);
    cx.count("cursor_ends_compared", carets);
    cx.key(cx.trace_hash(), concurrent > 0 && pedits > 1);
    Ok(())
}

fn merge_b(cx: &mut Cx) -> Result<(), Fail> {
    bounded(cx, 60, merge)
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C28", "a session with an edit of a plugin on a text that had changed meanwhile", vec![Suite { name: "merge", f: merge_b, quick: 6000, thorough: 120000 }])]
}
