//! Plugins that send what they like, die when they like, or are stopped.
use crate::drive::*;
use crate::mirror::line_starts;
use crate::ops;
use crate::plug::*;
use crate::r_plugin::{bounded, check_replicas};
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Everything a user sees of a view.
fn look(s: &Sess, v: &str) -> Value {
    let m = &s.views[v];
    let lines: Vec<Value> = m
        .lines
        .iter()
        .map(|l| match l {
            None => Value::Null,
            Some(l) => {
                let st: Vec<Value> = l.styles.iter().map(|x| json!([x.0, x.1, s.styles.get(&x.2)])).collect();
                json!([l.text, l.ln, l.cursor, st])
            }
        })
        .collect();
    json!({"lines": lines, "annotations": m.annotations, "pristine": m.pristine})
}

/// Lines may be dropped, not changed.
fn same(a: &Value, b: &Value) -> bool {
    let (x, y) = (a["lines"].as_array().unwrap(), b["lines"].as_array().unwrap());
    a["annotations"] == b["annotations"] && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.is_null() || q.is_null() || p == q)
}

fn some_len(r: &mut Rng, n: usize) -> usize {
    match r.below(12) {
        0 => n.saturating_add(1 + r.below(20)),
        1 => usize::MAX - r.below(3),
        2 => (1 << 32) + r.below(4),
        3 => n,
        4 => 0,
        _ => r.below(n.min(1 << 40) + 1),
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Expect {
    /// the message is not valid: nothing may come of it
    Nothing,
    /// it is valid, or it is open whether it is
    Any,
    /// the text becomes what the delta says
    Edit,
}

/// A stretch and spans over it; whether they are valid for `base`.
fn spans(r: &mut Rng, base: &str, head: bool, data: &mut dyn FnMut(&mut Rng) -> (Value, bool)) -> (usize, usize, Vec<Value>, Option<bool>) {
    let (mut start, mut end) = text::span(r, base);
    let mut len = end - start;
    let (mut ok, mut split) = (true, false);
    match r.below(10) {
        0 => {
            start = some_len(r, base.len());
            len = some_len(r, base.len());
        }
        1 => start += 1,
        2 => len = len.saturating_add(1),
        3 => len = usize::MAX - r.below(2) * start,
        _ => {}
    }
    match start.checked_add(len) {
        Some(e) if e <= base.len() && base.is_char_boundary(start) && base.is_char_boundary(e) => end = e,
        // what splits characters that are gone does no harm
        Some(e) if e <= base.len() && !head => split = true,
        _ => ok = false,
    }
    if split {
        return (start, len, Vec::new(), None);
    }
    let many = *r.pick(&[0, 1, 2, 5, 80]);
    let part = if ok { &base[start..end] } else { "" };
    let mut v = Vec::new();
    let (mut at, mut last, mut overlap) = (0usize, 0, false);
    for _ in 0..r.below(many + 1) {
        let (mut a, mut b);
        if r.chance(1, 40) {
            a = some_len(r, len);
            b = some_len(r, len);
        } else {
            a = text::floor_boundary(part, at.saturating_add(r.below(4)));
            b = text::floor_boundary(part, a.saturating_add(r.below(6)));
            a = a.max(at.min(part.len()));
            b = b.max(a);
            if r.chance(1, 60) {
                std::mem::swap(&mut a, &mut b);
            }
            if r.chance(1, 60) {
                a = b.saturating_sub(1);
            }
        }
        if a > b || b > len || !ok || a < last {
            ok = false;
        } else if !part.is_char_boundary(a) || !part.is_char_boundary(b) {
            ok &= !head;
            overlap |= !head;
        }
        // in order, but not clear of each other
        overlap |= a < at || a == b;
        last = a;
        at = b;
        let (d, fine) = data(r);
        // it may be for text that is gone
        ok &= fine || !head;
        overlap |= !fine && !head;
        let mut o = json!({"start": a, "end": b});
        for (k, x) in d.as_object().unwrap() {
            o[k.as_str()] = x.clone();
        }
        v.push(o);
    }
    (start, len, v, if overlap { None } else if !ok { Some(false) } else { Some(true) })
}

/// A delta on `base`; whether it is valid, and if so what it makes of it.
fn delta(r: &mut Rng, base: &str) -> (Value, Option<String>) {
    let mut els: Vec<Value> = Vec::new();
    let mut at = 0;
    for _ in 0..r.below(5) {
        if r.bool() {
            let a = text::floor_boundary(base, at + r.below(4)).max(at);
            let b = text::floor_boundary(base, a + r.below(12)).max(a);
            if b > a || r.chance(1, 10) {
                els.push(json!({ "copy": [a, b] }));
                at = b;
            }
        }
        if r.bool() {
            let t = if r.chance(1, 15) { String::new() } else { text::any(r, 12) };
            els.push(json!({ "insert": t }));
        }
    }
    if at < base.len() && r.chance(4, 5) {
        els.push(json!({"copy": [at, base.len()]}));
    }
    let mut d = json!({"base_len": base.len(), "els": els});
    let n = d["els"].as_array().unwrap().len();
    match r.below(12) {
        0 => d["base_len"] = json!(some_len(r, base.len())),
        1 if n > 0 => {
            let k = r.below(n);
            let (a, b) = (some_len(r, base.len()), some_len(r, base.len()));
            d["els"][k] = json!({ "copy": [a, b] });
        }
        2 if n > 0 => {
            let k = r.below(n);
            if d["els"][k]["copy"].is_array() {
                let i = r.below(2);
                let x = d["els"][k]["copy"][i].as_u64().unwrap();
                d["els"][k]["copy"][i] = json!(if r.bool() { x + 1 } else { x.saturating_sub(1) });
            }
        }
        3 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            let x = d["els"][i].clone();
            d["els"][i] = d["els"][j].clone();
            d["els"][j] = x;
        }
        4 => {
            let k = r.below(n + 1);
            let x = json!({"copy": [0, base.len()]});
            d["els"].as_array_mut().unwrap().insert(k, x);
        }
        _ => {}
    }
    // in order, within the text, at characters
    let mut last = 0;
    for e in d["els"].as_array().unwrap() {
        if let Some(c) = e["copy"].as_array() {
            let (a, b) = (c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as usize);
            if a < last || b < a || b > base.len() || !base.is_char_boundary(a) || !base.is_char_boundary(b) {
                return (d, None);
            }
            last = b;
        }
    }
    let new = apply_delta(base, &d).ok();
    (d, new)
}

fn odd_json(r: &mut Rng, view: &str, id: usize) -> Value {
    let p = json!({"view_id": view, "plugin_id": id});
    let mut m = r
        .pick(&[
            json!({"method": "edit", "params": {"edit": {"rev": 1, "delta": {"base_len": -1, "els": []}, "priority": 1, "after_cursor": false, "undo_group": null, "author": "x"}}}),
            json!({"method": "edit", "params": {"edit": {"rev": 1, "delta": {"base_len": 0, "els": [{"move": [0, 1]}]}, "priority": 1, "after_cursor": false, "author": "x"}}}),
            json!({"method": "edit", "params": {"edit": null}}),
            json!({"method": "edit", "params": {}}),
            json!({"method": "update_spans", "params": {"start": -1, "len": 0, "spans": [], "rev": 0}}),
            json!({"method": "update_spans", "params": {"start": 0, "len": 0, "spans": {}, "rev": 0}}),
            json!({"method": "add_scopes", "params": {"scopes": ["a"]}}),
            json!({"method": "add_scopes", "params": {"scopes": [[1]]}}),
            json!({"method": "no_such", "params": {}}),
            json!({"method": "get_data", "params": {"start": 0, "unit": "utf8", "max_size": 1, "rev": 0}}),
            json!({"method": "alert", "params": {"msg": 3}}),
            json!({"method": "update_annotations", "params": {"start": 0, "len": 0, "spans": [{"start": 0, "end": 0}], "annotation_type": 3, "rev": 0}}),
            json!({"method": 5, "params": {}}),
            json!({"params": {}}),
        ])
        .clone();
    if m["params"].is_object() && r.chance(4, 5) {
        for (k, x) in p.as_object().unwrap() {
            m["params"][k.as_str()] = x.clone();
        }
    }
    m
}

fn scope_stack(r: &mut Rng) -> Vec<String> {
    (0..r.below(4)).map(|_| r.pick(&["source.rust", "keyword", "comment.line", "", ".", "a..b", " ", "é", "string.quoted", "a.b.c.d.e.f.g.h.i.j.k.l"]).to_string()).collect()
}

struct Seen {
    odd: u64,
    nothing: u64,
    after_stop: u64,
    edits: u64,
    /// a plugin named an undo group that is not its own
    groups: bool,
}

/// One message of plugin `p`, which may be stopped already; what must come of it.
fn one(cx: &mut Cx, s: &mut Sess, r: &mut Rng, p: &mut Plug, scopes: &mut BTreeMap<(usize, String), usize>, texts: &BTreeMap<String, String>, gone: &[String], heads: &BTreeMap<String, u64>, seen: &mut Seen) -> Result<(), Fail> {
    let stopped = p.shutdown || !p.alive;
    let open: Vec<String> = texts.keys().cloned().collect();
    let view = match r.below(14) {
        0 if !gone.is_empty() => r.pick(gone).clone(),
        1 => r.pick(&["view-id-999", "view-id-0", "view-id-18446744073709551615"]).to_string(),
        _ => r.pick(&open).clone(),
    };
    let there = texts.contains_key(&view);
    let known = p.reps.get(&view).map(|x| x.revs.clone());
    let (rev, base, rev_ok) = match known {
        Some(revs) if there => match r.below(14) {
            0 => (r.next() >> r.below(64), revs[0].1.clone(), false),
            1 => (*r.pick(&[0, 1, u64::MAX]), revs[0].1.clone(), false),
            2..=5 => {
                let x = r.pick(&revs).clone();
                (x.0, x.1, true)
            }
            _ => {
                let x = revs.last().unwrap().clone();
                (x.0, x.1, true)
            }
        },
        _ => (r.below(5) as u64, "some text".to_string(), false),
    };
    let head = heads.get(&view) == Some(&rev);
    let mut want_text: Option<String> = None;
    let (method, params, mut expect) = match r.below(20) {
        0..=4 => {
            let n = *scopes.get(&(p.id, view.clone())).unwrap_or(&0);
            let (start, len, sp, ok) = spans(r, &base, head, &mut |r| {
                let id = if n == 0 || r.chance(1, 60) { *r.pick(&[n, n + 1, u32::MAX as usize, 0]) } else { r.below(n) };
                (json!({ "scope_id": id }), id < n)
            });
            ("update_spans", json!({"start": start, "len": len, "spans": sp, "rev": rev}), if ok == Some(false) { Expect::Nothing } else { Expect::Any })
        }
        5..=7 => {
            let (start, len, sp, ok) = spans(r, &base, head, &mut |r| (json!({"data": r.pick(&[Value::Null, json!({"a": [1, 2]}), json!("x"), json!({})])}), true));
            let ty = r.pick(&[json!({"Other": "lint"}), json!({"Other": ""}), json!({"Other": "é"})]).clone();
            ("update_annotations", json!({"start": start, "len": len, "spans": sp, "annotation_type": ty, "rev": rev}), if ok == Some(false) { Expect::Nothing } else { Expect::Any })
        }
        8..=12 => {
            let (d, new) = delta(r, &base);
            // elements without effect may make it invalid
            let empty = d["els"].as_array().unwrap().iter().any(|e| e["insert"] == "" || (e["copy"].is_array() && e["copy"][0] == e["copy"][1]));
            let group = r.pick(&[Value::Null, Value::Null, Value::Null, Value::Null, Value::Null, Value::Null, Value::Null, json!(0), json!(1), json!(3), json!(1000), json!(usize::MAX), json!(u64::MAX - 1)]).clone();
            let e = match &new {
                None => Expect::Nothing,
                _ if empty => Expect::Any,
                // an undone group would swallow it
                Some(_) if head && group.is_null() => Expect::Edit,
                Some(_) => Expect::Any,
            };
            want_text = new;
            seen.groups |= !group.is_null();
            let prio = *r.pick(&[0, 1, 0x10000, 0x10001, u64::MAX]);
            ("edit", json!({"edit": {"rev": rev, "delta": d, "priority": prio, "after_cursor": r.bool(), "undo_group": group, "author": r.pick(&["", "core", "plug", "é"])}}), e)
        }
        13 => {
            let k = r.below(4);
            let st: Vec<Vec<String>> = (0..k).map(|_| scope_stack(r)).collect();
            if there && !stopped {
                *scopes.entry((p.id, view.clone())).or_insert(0) += k;
            }
            ("add_scopes", json!({ "scopes": st }), Expect::Any)
        }
        14 => match r.below(4) {
            0 => ("add_status_item", json!({"key": r.pick(&["k", ""]), "value": "v", "alignment": r.pick(&["left", "right", "up"])}), Expect::Any),
            1 => ("update_status_item", json!({"key": "k", "value": "w"}), Expect::Any),
            2 => ("remove_status_item", json!({"key": r.pick(&["k", "nokey"])}), Expect::Any),
            _ => ("alert", json!({"msg": "hear me"}), Expect::Any),
        },
        15 => {
            let res = r.pick(&[json!({"Ok": {"content": "c", "range": null}}), json!({"Ok": {"content": "c", "range": {"start": usize::MAX, "end": 0}}}), json!({"Err": {"code": 1, "message": "m"}}), json!({"Err": {"code": 1, "message": "m", "data": null}})]).clone();
            ("show_hover", json!({"request_id": r.below(3), "result": res}), Expect::Any)
        }
        16 => {
            // requests
            let rev = if r.chance(1, 3) { r.below(10) as u64 } else { rev };
            let (m, q) = match r.below(5) {
                0 => ("line_count", json!({})),
                1 => ("get_selections", json!({})),
                _ => ("get_data", json!({"start": some_len(r, base.len()), "unit": r.pick(&["utf8", "line"]), "max_size": some_len(r, base.len()), "rev": rev})),
            };
            let a = p.request(cx, s, &view, m, q.clone())?;
            if !there || stopped {
                ensure!(a.is_err(), "request-of-stopped-answered", "{} {} of {} for {} was answered with {:?}", m, q, p.tag(), view, a);
            } else {
                ensure!(a.is_ok(), "request-refused", "{} {} of {} for {} was refused: {:?}", m, q, p.tag(), view, a);
            }
            seen.odd += 1;
            return Ok(());
        }
        _ => {
            seen.odd += 1;
            let m = odd_json(r, &view, p.id);
            return p.raw_notify(cx, s, m);
        }
    };
    if matches!(method, "edit" | "update_spans" | "update_annotations") && !rev_ok {
        // one at random may hit a revision there is
        let real = p.reps.get(&view).map_or(false, |x| x.revs.iter().any(|y| y.0 == rev)) || rev < 3;
        expect = if real { Expect::Any } else { Expect::Nothing };
        if there && rev < 3 {
            return Ok(());
        }
    }
    if !there || stopped {
        expect = Expect::Nothing;
    }
    if expect == Expect::Nothing {
        seen.nothing += 1;
        seen.after_stop += stopped as u64;
        s.settle(cx)?;
        let before: Vec<Value> = open.iter().map(|v| look(s, v)).collect();
        let (said, alerts) = (s.said.len(), s.alerts.len());
        p.notify(cx, s, &view, method, params)?;
        s.settle(cx)?;
        ensure!(s.said.len() == said && s.alerts.len() == alerts, "invalid-message-heard", "{} told the frontend {:?}", method, short(&s.said.last()));
        for (v, b) in open.iter().zip(&before) {
            ensure_eq!(s.contents(cx, v)?, texts[v].clone(), "invalid-message-edits", "text of {}", v);
            let after = look(s, v);
            ensure!(same(b, &after), "invalid-message-shows", "{} changed from {} to {}", v, short(b), short(&after));
        }
    } else {
        p.notify(cx, s, &view, method, params)?;
        if expect == Expect::Edit {
            seen.edits += 1;
            ensure_eq!(short(&s.contents(cx, &view)?), short(&want_text.clone().unwrap()), "plugin-edit-text", "text after the edit");
            ensure!(s.contents(cx, &view)? == want_text.unwrap(), "plugin-edit-text", "text after the edit");
        }
    }
    Ok(())
}

fn storm(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut s = Sess::start(cx)?;
    let mut watch = connect(cx, &mut s, 90, "watch")?;
    let mut plugs: Vec<Plug> = Vec::new();
    let mut stopped: Vec<Plug> = Vec::new();
    let mut scopes: BTreeMap<(usize, String), usize> = BTreeMap::new();
    let mut next = 1;
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    let mut gone: Vec<String> = Vec::new();
    let mut seen = Seen { odd: 0, nothing: 0, after_stop: 0, edits: 0, groups: false };
    for _ in 0..1 + r.below(3) {
        plugs.push(connect(cx, &mut s, next, &format!("p{}", next))?);
        next += 1;
    }
    let doc = text::any(&mut r, 60);
    let (v, doc) = match s.open_file_of(cx, &mut r, &doc)? {
        Some(v) => (v, doc),
        None => (s.new_view(cx, None)?, String::new()),
    };
    s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
    texts.insert(v, doc);
    let n = 10 + r.below(if cx.thorough { 100 } else { 50 });
    let mut stops = 0u64;
    for _ in 0..n {
        let open: Vec<String> = texts.keys().cloned().collect();
        // the newest revisions, even if they say the same
        watch.pump(cx, &mut s, &mut r, 100_000)?;
        let heads: BTreeMap<String, u64> = watch.reps.iter().map(|x| (x.0.clone(), x.1.rev)).collect();
        match r.below(30) {
            0 if open.len() < 3 => {
                let doc = text::any(&mut r, 60);
                let (v, doc) = match s.open_file_of(cx, &mut r, &doc)? {
                    Some(v) => (v, doc),
                    None => (s.new_view(cx, None)?, String::new()),
                };
                s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
                texts.insert(v, doc);
            }
            1 if open.len() > 1 => {
                let v = r.pick(&open).clone();
                s.settle(cx)?;
                s.close(cx, &v)?;
                texts.remove(&v);
                gone.push(v);
            }
            2 if plugs.len() < 4 => {
                let mut p = connect(cx, &mut s, next, &format!("p{}", next))?;
                if r.chance(3, 4) {
                    p.pump(cx, &mut s, &mut r, 100)?;
                }
                plugs.push(p);
                next += 1;
            }
            3 if !plugs.is_empty() => {
                let i = r.below(plugs.len());
                let mut p = plugs.remove(i);
                stops += 1;
                match r.below(3) {
                    0 => {
                        p.die(cx, &mut s, &mut r)?;
                        p.exit(cx, &mut s)?;
                    }
                    1 => {
                        // it is gone before its reader has noticed
                        p.die(cx, &mut s, &mut r)?;
                        let v = r.pick(&open).clone();
                        s.edit(cx, &v, "insert", json!({"chars": "z"}))?;
                        p.exit(cx, &mut s)?;
                    }
                    _ => {
                        s.notif(cx, "plugin", json!({"command": "stop", "view_id": r.pick(&open), "plugin_name": p.name}))?;
                        p.shutdown = p.st.lock().unwrap().out.iter().any(|x| x.0 == "shutdown");
                        ensure!(p.shutdown, "stop-not-told", "{} was stopped and not told to shut down", p.tag());
                        if r.bool() {
                            // it has been told already; now it goes
                            p.die(cx, &mut s, &mut r)?;
                            p.exit(cx, &mut s)?;
                        }
                    }
                }
                stopped.push(p);
            }
            4 | 5 => {
                s.settle(cx)?;
                if r.bool() {
                    watch.catch_up(cx, &mut s, &mut r)?;
                    check_replicas(cx, &mut s, std::slice::from_ref(&watch))?;
                    for v in &open {
                        check_any_view(cx, &mut s, v)?;
                    }
                }
            }
            6 | 7 | 18 | 19 if !plugs.is_empty() => {
                let i = r.below(plugs.len());
                let k = *r.pick(&[1, 2, 5, 100]);
                plugs[i].pump(cx, &mut s, &mut r, k)?;
            }
            8 if !plugs.is_empty() => {
                let i = r.below(plugs.len());
                plugs[i].ack(cx, &mut s, 2)?;
            }
            9 => {
                let name = r.pick(&["p1", "p2", "watch", "none", ""]).to_string();
                let c = match r.below(2) {
                    0 => json!({"command": "start", "view_id": r.pick(&open), "plugin_name": name}),
                    _ => json!({"command": "plugin_rpc", "view_id": r.pick(&open), "receiver": name, "rpc": {"method": r.pick(&["x", "update", ""]), "params": r.pick(&[json!([1]), json!({}), json!([{"a": 1}])]), "rpc_type": r.pick(&["notification", "request"])}}),
                };
                s.notif(cx, "plugin", c)?;
            }
            10 => {
                let v = r.pick(&open).clone();
                s.edit(cx, &v, "request_hover", json!({"request_id": r.below(3), "position": r.pick(&[Value::Null, json!({"line": 0, "column": 0}), json!({"line": 99, "column": 99})])}))?;
            }
            11..=15 => {
                let v = r.pick(&open).clone();
                let t = texts[&v].clone();
                let (m, p) = if r.chance(1, 3) { ("paste".to_string(), json!({"chars": text::any(&mut r, 40)})) } else { ops::any(&mut r, &t, line_starts(&t).len()) };
                s.edit(cx, &v, &m, p)?;
                texts.insert(v.clone(), s.contents(cx, &v)?);
                if texts[&v].len() > 20_000 {
                    break;
                }
            }
            16 | 17 if !stopped.is_empty() => {
                let i = r.below(stopped.len());
                one(cx, &mut s, &mut r, &mut stopped[i], &mut scopes, &texts, &gone, &heads, &mut seen)?;
            }
            _ if !plugs.is_empty() => {
                let i = r.below(plugs.len());
                one(cx, &mut s, &mut r, &mut plugs[i], &mut scopes, &texts, &gone, &heads, &mut seen)?;
                for v in &open {
                    texts.insert(v.clone(), s.contents(cx, v)?);
                }
            }
            _ => {}
        }
        for v in &open {
            if texts.contains_key(v) {
                texts.insert(v.clone(), s.contents(cx, v)?);
            }
        }
    }
    // ordinary work goes on
    s.settle(cx)?;
    watch.catch_up(cx, &mut s, &mut r)?;
    check_replicas(cx, &mut s, std::slice::from_ref(&watch))?;
    for v in texts.keys() {
        check_any_view(cx, &mut s, v)?;
        let before = s.contents(cx, v)?;
        s.do_edit(cx, v, "move_to_beginning_of_document", Value::Null)?;
        s.do_edit(cx, v, "insert", json!({"chars": "X"}))?;
        ensure_eq!(s.contents(cx, v)?, format!("X{}", before), "core-wedged-by-plugin", "text of {} after typing at its beginning", v);
        s.do_edit(cx, v, "undo", Value::Null)?;
        if !seen.groups {
            ensure_eq!(s.contents(cx, v)?, before, "core-wedged-by-plugin", "text of {} after undoing that", v);
        }
    }
    cx.count("messages_to_be_ignored", seen.nothing);
    cx.count("messages_after_stop", seen.after_stop);
    cx.count("edits_compared", seen.edits);
    cx.count("malformed_or_requests", seen.odd);
    cx.count("plugins_stopped", stops);
    cx.key(cx.trace_hash(), seen.nothing > 0 && seen.edits > 0);
    Ok(())
}

fn storm_b(cx: &mut Cx) -> Result<(), Fail> {
    bounded(cx, 60, storm)
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C30", "a session with messages that had to be ignored and edits that had to be applied", vec![Suite { name: "storm", f: storm_b, quick: 6000, thorough: 150000 }])]
}
