//! Scopes and annotations that plugins give to stretches of text show on that text.
//! Every character is unique, so what was given to it can be followed.
use crate::drive::*;
use crate::mirror::line_starts;
use crate::plug::*;
use crate::r_merge::Chars;
use crate::r_plugin::bounded;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syntect::highlighting::{Color, Highlighter, StyleModifier, Theme, ThemeSet};
use syntect::parsing::Scope;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Val {
    Scope(usize),
    /// it depends on how insertions next to or within a stretch count
    Open,
}

#[derive(Default)]
struct Layer {
    stacks: Vec<Vec<String>>,
    vals: BTreeMap<char, Val>,
}

#[derive(Clone, Debug)]
struct Ann {
    /// characters it must cover
    chars: Vec<char>,
    /// what it must not reach: the characters around it then
    outside: BTreeSet<char>,
    /// an edit came since: may have gone
    may_go: bool,
    /// it covers line ends, which are not followed
    ends: bool,
    /// given for text that was gone already: where it lies depends on how a replacement counts
    loose: bool,
    /// given for an older text: may cover what was inserted since
    stale: bool,
}

#[derive(Clone, PartialEq, Debug, Default)]
struct Look {
    fg: u32,
    bg: Option<u32>,
    weight: Option<u64>,
    underline: Option<bool>,
    italic: Option<bool>,
}

fn argb(c: Color) -> u32 {
    (c.a as u32) << 24 | (c.r as u32) << 16 | (c.g as u32) << 8 | c.b as u32
}

#[derive(Clone, Debug, Default)]
struct Part {
    fg: Option<u32>,
    bg: Option<u32>,
    weight: Option<u64>,
    underline: Option<bool>,
    italic: Option<bool>,
}

struct Oracle {
    theme: Theme,
    memo: BTreeMap<Vec<String>, Part>,
}

impl Oracle {
    fn part(&mut self, stack: &[String]) -> Part {
        if let Some(p) = self.memo.get(stack) {
            return p.clone();
        }
        let scopes: Vec<Scope> = stack.iter().filter_map(|s| Scope::new(s).ok()).collect();
        let h = Highlighter::new(&self.theme);
        let mut m = StyleModifier { foreground: None, background: None, font_style: None };
        for i in 1..=scopes.len() {
            m = m.apply(h.style_mod_for_stack(&scopes[..i]));
        }
        let bits = m.font_style.map_or(0, |f| f.bits());
        let p = Part {
            fg: m.foreground.map(argb),
            bg: m.background.map(argb),
            weight: if bits & 1 != 0 { Some(700) } else { None },
            underline: if bits & 2 != 0 { Some(true) } else { None },
            italic: if bits & 4 != 0 { Some(true) } else { None },
        };
        self.memo.insert(stack.to_vec(), p.clone());
        p
    }

    fn plain(&self) -> Look {
        Look { fg: argb(self.theme.settings.foreground.unwrap_or(Color { r: 0, g: 0, b: 0, a: 255 })), ..Look::default() }
    }
}

const SCOPES: &[&str] = &[
    "source.rust", "source.python", "text.html.markdown", "keyword.control", "keyword.operator.assignment", "string.quoted.double", "string.regexp", "comment.line.double-slash",
    "comment.block.documentation", "entity.name.function", "entity.name.tag", "storage.type", "storage.modifier", "constant.numeric", "constant.language", "constant.character.escape",
    "variable.parameter", "variable.other", "variable.language", "invalid.illegal", "invalid.deprecated", "meta.function", "meta.preprocessor", "punctuation.definition.string.begin",
    "punctuation.section.embedded", "markup.bold", "markup.italic", "markup.heading", "markup.underline.link", "markup.inserted", "markup.deleted", "support.type", "support.function",
    "meta.diff.header", "string", "comment", "keyword", "source", "nothing.known",
];

fn stack(r: &mut Rng, known: &[Vec<String>]) -> Vec<String> {
    // often an extension of one there is
    let mut s: Vec<String> = if !known.is_empty() && r.bool() { r.pick(known).clone() } else { Vec::new() };
    match r.below(12) {
        0 => {
            s.pop();
        }
        1 => return s,
        _ => {
            for _ in 0..1 + r.below(3) {
                s.push(r.pick(SCOPES).to_string());
            }
        }
    }
    match r.below(25) {
        0 => s.clear(),
        // more parts than a scope can have
        1 => s.push("a.b.c.d.e.f.g.h.i.j.k".to_string()),
        _ => {}
    }
    s.truncate(6);
    s
}

/// Non-overlapping stretches of `n` characters, in order.
fn stretches(r: &mut Rng, n: usize, many: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut at = 0;
    for _ in 0..r.below(many + 1) {
        let a = at + if r.bool() { 0 } else { r.below(6) };
        let b = a + 1 + r.below(6);
        if b > n {
            break;
        }
        v.push((a, b));
        at = b;
    }
    v
}

struct World {
    text: String,
    layers: BTreeMap<usize, Layer>,
    anns: BTreeMap<(usize, String), BTreeMap<u64, Ann>>,
    o: Oracle,
    compared: u64,
    styled: u64,
    open: u64,
    anns_seen: u64,
    anns_gone: u64,
}

impl World {
    fn edited(&mut self, new: &str) {
        if new == self.text {
            return;
        }
        let keep: BTreeSet<char> = new.chars().collect();
        for l in self.layers.values_mut() {
            l.vals.retain(|c, _| keep.contains(c));
        }
        // first place that differs
        let pre: usize = self.text.chars().zip(new.chars()).take_while(|(a, b)| a == b).count();
        let before: BTreeSet<char> = self.text.chars().take(pre).filter(|c| *c != '\n').collect();
        let gone: BTreeSet<char> = self.text.chars().filter(|c| !keep.contains(c)).collect();
        for set in self.anns.values_mut() {
            for a in set.values_mut() {
                if a.ends || a.stale || !a.chars.iter().all(|c| before.contains(c)) {
                    a.may_go = true;
                    a.chars.retain(|c| !gone.contains(c));
                }
                a.outside.retain(|c| !gone.contains(c));
            }
            set.retain(|_, a| a.loose || !a.chars.is_empty());
        }
        self.text = new.to_string();
    }

    fn want(&mut self, c: char) -> Option<Look> {
        let mut look = self.o.plain();
        let mut acc = Part::default();
        for l in self.layers.values() {
            match l.vals.get(&c) {
                None => {}
                Some(Val::Open) => return None,
                Some(Val::Scope(i)) => {
                    let p = self.o.part(&l.stacks[*i]);
                    acc = Part {
                        fg: p.fg.or(acc.fg),
                        bg: p.bg.or(acc.bg),
                        weight: p.weight.or(acc.weight),
                        underline: p.underline.or(acc.underline),
                        italic: p.italic.or(acc.italic),
                    };
                }
            }
        }
        look.fg = acc.fg.unwrap_or(look.fg);
        look.bg = acc.bg;
        look.weight = acc.weight;
        look.underline = acc.underline;
        look.italic = acc.italic;
        Some(look)
    }

    fn check_styles(&mut self, s: &Sess, v: &str) -> Result<(), Fail> {
        let plain = self.o.plain();
        let lines = s.views[v].lines.clone();
        for (i, l) in lines.iter().enumerate() {
            let l = match l {
                Some(l) => l,
                None => continue,
            };
            for (at, c) in l.text.char_indices() {
                if c == '\n' {
                    continue;
                }
                let ids: Vec<i64> = l.styles.iter().filter(|x| x.2 >= 8 && x.0 < at + c.len_utf8() && x.1 > at).map(|x| x.2).collect();
                ensure!(ids.len() <= 1, "style-overlap", "styles {:?} on {:?} of line {}", ids, c, i);
                for x in l.styles.iter().filter(|x| x.2 >= 8) {
                    ensure!(l.text.is_char_boundary(x.0) && l.text.is_char_boundary(x.1), "style-splits-char", "style {:?} in {:?}", x, short(&l.text));
                }
                let got = match ids.get(0) {
                    None => plain.clone(),
                    Some(id) => {
                        let d = s.styles.get(id).ok_or_else(|| Fail::new("style-undefined", format!("style {} on {:?} is not defined", id, c)))?;
                        Look {
                            fg: d["fg_color"].as_u64().map_or(plain.fg, |x| x as u32),
                            bg: d["bg_color"].as_u64().map(|x| x as u32),
                            weight: d["weight"].as_u64(),
                            underline: d["underline"].as_bool(),
                            italic: d["italic"].as_bool(),
                        }
                    }
                };
                match self.want(c) {
                    None => self.open += 1,
                    Some(w) => {
                        ensure!(
                            got == w,
                            if got == plain { "style-missing" } else if w == plain { "style-stray" } else { "style-wrong" },
                            "{:?} on line {} of {:?} looks {:?}, should look {:?}; scopes {:?}",
                            c,
                            i,
                            short(&self.text),
                            got,
                            w,
                            self.layers.iter().map(|(k, l)| (*k, l.vals.get(&c).copied())).collect::<Vec<_>>()
                        );
                        self.compared += 1;
                        self.styled += (w != plain) as u64;
                    }
                }
            }
        }
        Ok(())
    }

    fn check_anns(&mut self, s: &Sess, v: &str) -> Result<(), Fail> {
        let starts = line_starts(&self.text);
        let pos = |l: &Value, c: &Value| -> Option<usize> {
            let a = *starts.get(l.as_u64()? as usize)?;
            let p = a + c.as_u64()? as usize;
            if p <= self.text.len() && self.text.is_char_boundary(p) {
                Some(p)
            } else {
                None
            }
        };
        let mut shown: BTreeMap<u64, (String, usize, usize)> = BTreeMap::new();
        let mut parts: Vec<(u64, usize, usize)> = Vec::new();
        for a in &s.views[v].annotations {
            let ty = a["type"].as_str().unwrap_or("?");
            if ty == "selection" || ty == "find" {
                continue;
            }
            let ranges = a["ranges"].as_array().cloned().unwrap_or_default();
            let pay = a["payloads"].as_array().cloned().unwrap_or_default();
            ensure_eq!(ranges.len(), pay.len(), "annotation-form", "ranges and payloads of {}", brief(a));
            ensure_eq!(a["n"].as_u64(), Some(ranges.len() as u64), "annotation-form", "n of {}", brief(a));
            for (rg, p) in ranges.iter().zip(&pay) {
                let id = p["id"].as_u64().ok_or_else(|| Fail::new("annotation-payload", format!("payload {}", p)))?;
                let (x, y) = match (pos(&rg[0], &rg[1]), pos(&rg[2], &rg[3])) {
                    (Some(x), Some(y)) => (x, y),
                    _ => fail!("annotation-position", "range {} of annotation {} is no place in {:?}", rg, id, short(&self.text)),
                };
                parts.push((id, x, y));
                let twice = shown.insert(id, (ty.to_string(), x, y)).is_some();
                ensure!(!twice || self.anns.values().any(|m| m.get(&id).map_or(false, |a| a.loose)), "annotation-twice", "annotation {} twice in {}", id, brief(a));
            }
        }
        let mut known = BTreeSet::new();
        for ((_, ty), set) in self.anns.iter_mut() {
            let mut gone = Vec::new();
            for (id, a) in set.iter() {
                known.insert(*id);
                match shown.get(id) {
                    None => {
                        ensure!(a.may_go, "annotation-missing", "annotation {} ({}) of {:?} is not shown; text {:?}", id, ty, a.chars, short(&self.text));
                        gone.push(*id);
                    }
                    Some((t, x, y)) => {
                        ensure!(t == ty, "annotation-type", "annotation {} has type {:?}, was given {:?}", id, t, ty);
                        if a.loose {
                            for (_, x, y) in parts.iter().filter(|p| p.0 == *id) {
                                ensure!(!self.text[*x..*y].chars().any(|c| a.outside.contains(&c)), "annotation-off-text", "annotation {} of {:?} covers {:?}", id, a.chars, short(&&self.text[*x..*y]));
                            }
                            continue;
                        }
                        let cov: BTreeSet<char> = self.text[*x..*y].chars().collect();
                        ensure!(a.chars.iter().all(|c| cov.contains(c)) || a.may_go, "annotation-short", "annotation {} of {:?} covers {:?}", id, a.chars, short(&&self.text[*x..*y]));
                        ensure!(a.chars.iter().all(|c| cov.contains(c)), "annotation-off-text", "annotation {} of {:?} covers {:?} after an edit", id, a.chars, short(&&self.text[*x..*y]));
                        ensure!(!cov.iter().any(|c| a.outside.contains(c)), "annotation-off-text", "annotation {} of {:?} covers {:?}", id, a.chars, short(&&self.text[*x..*y]));
                        self.anns_seen += 1;
                    }
                }
            }
            self.anns_gone += gone.len() as u64;
            for g in gone {
                set.remove(&g);
            }
        }
        for (id, x) in &shown {
            ensure!(known.contains(id), "annotation-stray", "annotation {} at {}..{} should be gone", id, x.1, x.2);
        }
        Ok(())
    }
}

fn ids(t: &str) -> Vec<char> {
    t.chars().filter(|c| *c != '\n').collect()
}

fn styles(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut s = Sess::start(cx)?;
    s.set_config(cx, json!("general"), json!({"auto_indent": false, "autodetect_whitespace": false}))?;
    let themes = ThemeSet::load_defaults();
    let names: Vec<String> = themes.themes.keys().cloned().collect();
    let mut ch = Chars { next: 0 };
    let mut watch = connect(cx, &mut s, 90, "watch")?;
    let mut plugs: Vec<Plug> = Vec::new();
    let mut next_id = 1;
    for _ in 0..1 + r.below(3) {
        plugs.push(connect(cx, &mut s, next_id, &format!("p{}", next_id))?);
        next_id += 1;
    }
    let mut text = ch.lines(&mut r);
    let v = match s.open_file_of(cx, &mut r, &text)? {
        Some(v) => v,
        None => {
            text.clear();
            s.new_view(cx, None)?
        }
    };
    s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
    let mut w = World {
        text,
        layers: BTreeMap::new(),
        anns: BTreeMap::new(),
        o: Oracle { theme: themes.themes["InspiredGitHub"].clone(), memo: BTreeMap::new() },
        compared: 0,
        styled: 0,
        open: 0,
        anns_seen: 0,
        anns_gone: 0,
    };
    let mut ann_id = 0u64;
    let n = 10 + r.below(if cx.thorough { 90 } else { 45 });
    let (mut stale, mut theme_changes, mut span_updates, mut ann_updates) = (0u64, 0u64, 0u64, 0u64);
    let mut only_insert = w.text.is_empty() as usize;
    for _ in 0..n {
        let k = if only_insert > 0 { 0 } else { r.below(24) };
        only_insert = 0;
        match k {
            0..=6 => {
                let lines = w.text.matches('\n').count() + 1;
                let (m, p) = match r.below(12) {
                    0..=4 => {
                        let mut t = String::new();
                        for _ in 0..1 + r.below(4) {
                            let k = r.below(8);
                            t.push_str(&ch.some(&mut r, k));
                            if r.chance(1, 4) {
                                t.push('\n');
                            }
                        }
                        (if r.bool() { "insert" } else { "paste" }, json!({ "chars": t }))
                    }
                    5 => (*r.pick(&["delete_backward", "delete_forward", "delete_word_backward", "delete_to_beginning_of_line"]), Value::Null),
                    6 => ("insert_newline", Value::Null),
                    7 => (if r.chance(1, 3) { "redo" } else { "undo" }, Value::Null),
                    8 => {
                        let (line, col) = (r.below(lines), r.below(20));
                        s.edit(cx, &v, "gesture", json!({"line": line, "col": col, "ty": {"select": {"granularity": "point", "multi": false}}}))?;
                        ("gesture", json!({"line": r.below(lines), "col": r.below(20), "ty": {"select_extend": {"granularity": "point"}}}))
                    }
                    _ => ("gesture", json!({"line": r.below(lines), "col": r.below(20), "ty": {"select": {"granularity": "point", "multi": false}}})),
                };
                if m.starts_with("insert") || m == "paste" {
                    s.edit(cx, &v, "collapse_selections", Value::Null)?;
                }
                s.edit(cx, &v, m, p)?;
                let t = s.contents(cx, &v)?;
                w.edited(&t);
                watch.pump(cx, &mut s, &mut r, 100_000)?;
            }
            7 | 8 => {
                let i = r.below(plugs.len());
                let k = 1 + r.below(4);
                plugs[i].pump(cx, &mut s, &mut r, k)?;
            }
            9 => {
                let i = r.below(plugs.len());
                plugs[i].ack(cx, &mut s, 2)?;
            }
            10 => s.settle(cx)?,
            11 => {
                let t = if r.chance(1, 8) { "no such theme".to_string() } else { r.pick(&names).clone() };
                s.notif(cx, "set_theme", json!({ "theme_name": t }))?;
                if let Some(th) = themes.themes.get(&t) {
                    w.o = Oracle { theme: th.clone(), memo: BTreeMap::new() };
                    theme_changes += 1;
                }
            }
            12 if r.chance(1, 3) => {
                let i = r.below(plugs.len());
                let mut p = plugs.remove(i);
                p.die(cx, &mut s, &mut r)?;
                p.exit(cx, &mut s)?;
                w.layers.remove(&p.id);
                w.anns.retain(|k, _| k.0 != p.id);
                if plugs.is_empty() || r.bool() {
                    plugs.push(connect(cx, &mut s, next_id, &format!("p{}", next_id))?);
                    next_id += 1;
                }
            }
            12..=14 => {
                let k = r.below(plugs.len());
                let p = &mut plugs[k];
                if !p.reps.contains_key(&v) {
                    p.pump(cx, &mut s, &mut r, 100)?;
                }
                let l = w.layers.entry(p.id).or_default();
                let new: Vec<Vec<String>> = (0..1 + r.below(5)).map(|_| stack(&mut r, &l.stacks)).collect();
                l.stacks.extend(new.iter().cloned());
                p.notify(cx, &mut s, &v, "add_scopes", json!({ "scopes": new }))?;
            }
            15..=20 => {
                // scopes for a part of the text the plugin knows
                let k = r.below(plugs.len());
                let p = &mut plugs[k];
                let rep = match p.reps.get(&v) {
                    Some(rep) => rep.clone(),
                    None => continue,
                };
                let l = match w.layers.get_mut(&p.id) {
                    Some(l) if !l.stacks.is_empty() => l,
                    _ => continue,
                };
                let (rev, base) = if r.chance(2, 3) { rep.revs.last().unwrap().clone() } else { r.pick(&rep.revs).clone() };
                let (first, chars, off, spans) = region(&mut r, &base);
                let sp: Vec<(usize, usize, usize)> = spans.iter().map(|(a, b)| (*a, *b, r.below(l.stacks.len()))).collect();
                let msg: Vec<Value> = sp.iter().map(|(a, b, id)| json!({"start": off[*a], "end": off[*b], "scope_id": id})).collect();
                let now: BTreeSet<char> = ids(&w.text).into_iter().collect();
                let was: BTreeSet<char> = ids(&base).into_iter().collect();
                for (i, c) in chars.iter().enumerate() {
                    if *c == '\n' || !now.contains(c) {
                        continue;
                    }
                    match sp.iter().find(|x| x.0 <= i && i < x.1) {
                        Some(x) => l.vals.insert(*c, Val::Scope(x.2)),
                        None => l.vals.remove(c),
                    };
                }
                if base != w.text {
                    stale += 1;
                    // what came since, next to or within the part
                    let inside: BTreeSet<char> = chars.iter().copied().collect();
                    let cur = ids(&w.text);
                    let a = cur.iter().position(|c| inside.contains(c));
                    let b = cur.iter().rposition(|c| inside.contains(c));
                    if let (Some(mut a), Some(mut b)) = (a, b) {
                        while a > 0 && !was.contains(&cur[a - 1]) {
                            a -= 1;
                        }
                        while b + 1 < cur.len() && !was.contains(&cur[b + 1]) {
                            b += 1;
                        }
                        for c in &cur[a..=b] {
                            if !was.contains(c) {
                                l.vals.insert(*c, Val::Open);
                            }
                        }
                    } else {
                        // all gone, or only line ends: whatever came is open
                        for c in &cur {
                            if !was.contains(c) {
                                l.vals.insert(*c, Val::Open);
                            }
                        }
                    }
                }
                span_updates += 1;
                let len = off[chars.len()];
                p.notify(cx, &mut s, &v, "update_spans", json!({"start": first, "len": len, "spans": msg, "rev": rev}))?;
            }
            _ => {
                let k = r.below(plugs.len());
                let p = &mut plugs[k];
                let rep = match p.reps.get(&v) {
                    Some(rep) => rep.clone(),
                    None => continue,
                };
                let (rev, base) = if r.chance(2, 3) { rep.revs.last().unwrap().clone() } else { r.pick(&rep.revs).clone() };
                let (first, chars, off, spans) = region(&mut r, &base);
                let ty = r.pick(&["lint", "hint"]).to_string();
                let set = w.anns.entry((p.id, ty.clone())).or_default();
                let part: BTreeSet<char> = chars.iter().copied().filter(|c| *c != '\n').collect();
                let pre: BTreeSet<char> = base[..first].chars().collect();
                // those there before: gone where the new ones are given. How far one reached
                // that was, or is replaced, by an update of an older text is left open.
                let mut drop = Vec::new();
                let head = base == w.text;
                for (id, a) in set.iter_mut() {
                    let k = a.chars.iter().filter(|c| pre.contains(c)).count();
                    let inn = a.chars.iter().filter(|c| part.contains(c)).count();
                    if a.loose || a.ends || a.stale || !head {
                        a.chars.clear();
                        a.loose = true;
                        a.may_go = true;
                    } else if inn == a.chars.len() {
                        drop.push(*id);
                    } else if inn > 0 || (k > 0 && k < a.chars.len()) {
                        // cut short or in two
                        a.may_go = true;
                        a.loose = true;
                    }
                }
                for d in drop {
                    set.remove(&d);
                }
                let now: BTreeSet<char> = ids(&w.text).into_iter().collect();
                let was: BTreeSet<char> = ids(&base).into_iter().collect();
                let mut msg = Vec::new();
                for (a, b) in &spans {
                    ann_id += 1;
                    msg.push(json!({"start": off[*a], "end": off[*b], "data": {"id": ann_id}}));
                    let mine: Vec<char> = chars[*a..*b].iter().copied().filter(|c| *c != '\n' && now.contains(c)).collect();
                    let m2: BTreeSet<char> = mine.iter().copied().collect();
                    if mine.is_empty() {
                        // of line ends only, or of text that is gone
                        set.insert(ann_id, Ann { chars: Vec::new(), outside: was.intersection(&now).copied().collect(), may_go: true, ends: true, loose: true, stale: true });
                        continue;
                    }
                    set.insert(ann_id, Ann { chars: mine, outside: was.iter().copied().filter(|c| now.contains(c) && !m2.contains(c)).collect(), may_go: false, ends: chars[*a..*b].contains(&'\n'), loose: false, stale: base != w.text });
                }
                stale += (base != w.text) as u64;
                ann_updates += 1;
                let len = off[chars.len()];
                p.notify(cx, &mut s, &v, "update_annotations", json!({"start": first, "len": len, "spans": msg, "annotation_type": {"Other": ty}, "rev": rev}))?;
            }
        }
        if ids(&w.text).len() > 150 {
            break;
        }
        if r.chance(1, 2) {
            s.settle(cx)?;
            let (t, _) = check_view(cx, &mut s, &v)?;
            ensure_eq!(t, w.text, "text-changed-by-itself", "text");
            w.check_styles(&s, &v)?;
            w.check_anns(&s, &v)?;
        }
        if r.chance(1, 3) {
            watch.ack(cx, &mut s, 100)?;
        }
    }
    s.settle(cx)?;
    check_view(cx, &mut s, &v)?;
    w.check_styles(&s, &v)?;
    w.check_anns(&s, &v)?;
    cx.count("characters_compared", w.compared);
    cx.count("characters_styled", w.styled);
    cx.count("characters_left_open", w.open);
    cx.count("annotations_seen", w.anns_seen);
    cx.count("annotations_gone", w.anns_gone);
    cx.count("updates_of_old_text", stale);
    cx.count("theme_changes", theme_changes);
    cx.count("span_updates", span_updates);
    cx.count("annotation_updates", ann_updates);
    cx.key(cx.trace_hash(), w.styled > 0 && stale > 0);
    Ok(())
}

/// A part of `base`: its start, its characters, their offsets in it, stretches of them.
fn region(r: &mut Rng, base: &str) -> (usize, Vec<char>, Vec<usize>, Vec<(usize, usize)>) {
    let b: Vec<usize> = base.char_indices().map(|x| x.0).chain(std::iter::once(base.len())).collect();
    let (mut x, mut y) = if r.chance(1, 3) { (0, b.len() - 1) } else { (r.below(b.len()), r.below(b.len())) };
    if x > y {
        std::mem::swap(&mut x, &mut y);
    }
    let chars: Vec<char> = base[b[x]..b[y]].chars().collect();
    let off: Vec<usize> = (x..=y).map(|i| b[i] - b[x]).collect();
    let many = *r.pick(&[0, 1, 3, 3, 40]);
    let sp = stretches(r, chars.len(), many);
    (b[x], chars, off, sp)
}

fn styles_b(cx: &mut Cx) -> Result<(), Fail> {
    bounded(cx, 60, styles)
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C29", "a session that showed styled text and had an update for an older text", vec![Suite { name: "styles", f: styles_b, quick: 4000, thorough: 80000 }])]
}
