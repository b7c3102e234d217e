//! What frontend and plugins say to each other through the core arrives once, in order,
//! unchanged, and at those it is meant for.
use crate::drive::*;
use crate::mirror::line_starts;
use crate::ops;
use crate::plug::*;
use crate::r_plugin::bounded;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const TOLD: [&str; 8] = ["alert", "add_status_item", "update_status_item", "remove_status_item", "show_hover", "plugin_started", "plugin_stopped", "available_plugins"];

struct V {
    id: String,
}

/// Byte offset of a position as the frontend gives it, in the text with visual lines `starts`
/// (each character is a grapheme).
fn offset_of(text: &str, starts: &[usize], line: usize, col: usize) -> usize {
    if line >= starts.len() {
        return text.len();
    }
    let end = starts.get(line + 1).copied();
    let off = starts[line].saturating_add(col);
    match end {
        None if off >= text.len() => text.len(),
        Some(end) if off >= end => {
            // the last position of the line
            text[..end].char_indices().next_back().map_or(0, |c| c.0)
        }
        _ => (0..=off).rev().find(|o| text.is_char_boundary(*o)).unwrap(),
    }
}

/// Lines that regions touch, as ranges; those that overlap or touch are one.
fn touched(text: &str, sel: &[(usize, usize)]) -> Vec<(usize, usize)> {
    let starts = line_starts(text);
    let line = |o: usize| starts.iter().rposition(|s| *s <= o).unwrap();
    let mut is: Vec<bool> = vec![false; starts.len()];
    for &(a, b) in sel {
        for l in line(a)..=line(b) {
            is[l] = true;
        }
    }
    let mut out: Vec<(usize, usize)> = Vec::new();
    for (l, t) in is.iter().enumerate() {
        if *t {
            match out.last_mut() {
                Some(x) if x.1 == l => x.1 = l + 1,
                _ => out.push((l, l + 1)),
            }
        }
    }
    out
}

fn relay_case(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut s = Sess::start(cx)?;
    let wrapped = r.chance(1, 3);
    if wrapped {
        s.notif(cx, "modify_user_config", json!({"domain": "general", "changes": {"wrap_width": 3 + r.below(12)}}))?;
    }
    let names = ["xi-syntect-plugin", "p1", "p2", "p1"];
    let mut plugs: Vec<Plug> = Vec::new();
    let mut next = 1;
    let mut views: Vec<V> = Vec::new();
    // what each plugin and the frontend have to be told, in order
    let mut want: BTreeMap<usize, Vec<Value>> = BTreeMap::new();
    let mut front: Vec<Value> = Vec::new();
    let mut log = 0u64;
    let (mut hovers, mut commands, mut items, mut ranges, mut split) = (0u64, 0u64, 0u64, 0u64, 0u64);
    s.said.clear();
    for step in 0..10 + r.below(40) {
        let kind = r.below(22);
        log = mix(log, kind as u64);
        // a plugin and a view that are there, now and then no longer or never
        let vi = if views.is_empty() { 0 } else { r.below(views.len()) };
        let pi = if plugs.is_empty() { 0 } else { r.below(plugs.len()) };
        match kind {
            0 if plugs.len() < 4 => {
                let name = names[r.below(names.len())];
                let p = connect(cx, &mut s, next, name)?;
                for v in s.views.iter().filter(|v| !v.1.closed) {
                    front.push(json!({"method": "plugin_started", "view_id": v.0, "plugin": name}));
                }
                // in whichever order the views are told
                want.insert(next, Vec::new());
                plugs.push(p);
                next += 1;
            }
            1 if views.len() < 3 => {
                let txt: String = (0..r.below(60)).map(|_| *r.pick(&['a', 'b', ' ', '\n', 'é', '日', '1'])).collect();
                let v = s.new_view(cx, None)?;
                s.edit(cx, &v, "scroll", json!([0, 100000]))?;
                if !txt.is_empty() {
                    s.edit(cx, &v, "insert", json!({ "chars": txt }))?;
                }
                let ps: Vec<Value> = plugs.iter().map(|p| json!({"name": p.name, "running": true})).collect();
                for p in &plugs {
                    front.push(json!({"method": "plugin_started", "view_id": v, "plugin": p.name}));
                }
                front.push(json!({"method": "available_plugins", "view_id": v, "plugins": ps}));
                views.push(V { id: v });
            }
            2 if views.len() > 1 => {
                let v = views.remove(vi);
                s.close(cx, &v.id)?;
            }
            3 if !plugs.is_empty() && r.chance(1, 2) => {
                let mut p = plugs.remove(pi);
                p.pump(cx, &mut s, &mut r, usize::MAX)?;
                compare_plug(cx, &mut p, &mut want)?;
                let stop = r.bool() && !views.is_empty();
                for v in s.views.iter().filter(|v| !v.1.closed) {
                    front.push(json!({"method": "plugin_stopped", "view_id": v.0, "plugin": p.name, "code": if stop { 0 } else { 1 }}));
                }
                if stop {
                    // what they were sent they could still ask about
                    for q in &mut plugs {
                        q.pump(cx, &mut s, &mut r, usize::MAX)?;
                    }
                    // one of that name is stopped: the one that was connected first
                    let twin = plugs.iter().position(|q| q.name == p.name && q.id < p.id);
                    s.notif(cx, "plugin", json!({"command": "stop", "view_id": views[vi % views.len()].id, "plugin_name": p.name}))?;
                    if let Some(t) = twin {
                        plugs.insert(pi, p);
                        p = plugs.remove(t);
                        p.pump(cx, &mut s, &mut r, usize::MAX)?;
                    } else {
                        p.pump(cx, &mut s, &mut r, usize::MAX)?;
                    }
                    compare_plug(cx, &mut p, &mut want)?;
                    ensure!(p.shutdown, "stop-without-shutdown", "{} {} was not told to shut down", p.tag(), p.name);
                    p.die(cx, &mut s, &mut r)?;
                } else {
                    p.die(cx, &mut s, &mut r)?;
                    p.exit(cx, &mut s)?;
                }
                want.remove(&p.id);
            }
            4..=6 if !views.is_empty() => {
                // somewhere else in the text, another selection
                let v = &views[vi].id;
                let (m, p) = match r.below(6) {
                    0 => ("insert".to_string(), json!({"chars": r.pick(&["x", "\n", "日", "a b\n"])})),
                    1 => (r.pick(&["delete_backward", "delete_forward", "undo", "redo"]).to_string(), Value::Null),
                    2 => ("gesture".into(), json!({"line": r.below(8), "col": r.below(9), "ty": {"select": {"granularity": ops::granularity(&mut r), "multi": r.chance(3, 4)}}})),
                    3 => ("gesture".into(), json!({"line": r.below(8), "col": r.below(9), "ty": {"select_extend": {"granularity": "point"}}})),
                    4 => ("gesture".into(), json!({"line": r.below(8), "col": r.below(9), "ty": "point_select"})),
                    _ => (r.pick(ops::MOVES).to_string(), Value::Null),
                };
                s.edit(cx, v, &m, p)?;
                if r.bool() {
                    s.settle(cx)?;
                }
            }
            7..=9 if !views.is_empty() => {
                let v = views[vi].id.clone();
                s.settle(cx)?;
                let (text, starts) = check_any_view(cx, &mut s, &v)?;
                let sel = s.views[&v].selection(&starts)?;
                let id = r.below(1000);
                let (position, at) = if r.chance(1, 3) {
                    (Value::Null, if sel.len() == 1 && sel[0].0 == sel[0].1 { Some(sel[0].0) } else { None })
                } else {
                    let line = r.below(starts.len() + 2);
                    let col = if r.chance(1, 6) { 1000 + r.below(9) } else { r.below(14) };
                    (json!({"line": line, "column": col}), Some(offset_of(&text, &starts, line, col)))
                };
                let params = if position.is_null() && r.bool() { json!({ "request_id": id }) } else { json!({"request_id": id, "position": position}) };
                s.edit(cx, &v, "request_hover", params)?;
                if let Some(at) = at {
                    for p in &plugs {
                        want.get_mut(&p.id).unwrap().push(json!({"get_hover": {"view_id": v, "request_id": id, "position": at}}));
                        hovers += 1;
                    }
                }
            }
            10 | 11 if !views.is_empty() => {
                let v = views[vi].id.clone();
                let (name, count) = if plugs.is_empty() || r.chance(1, 5) {
                    (r.pick(&["nobody", "p", "p11", ""]).to_string(), 0)
                } else {
                    (plugs[pi].name.clone(), 1)
                };
                let params = r.pick(&[json!({}), json!({"a": [1, 2.5, null]}), json!({"view_id": "x", "method": "y"}), json!({"é": {"deep": [[{}]]}})]).clone();
                let method = r.pick(&["go", "update", "", "новый"]).to_string();
                s.notif(cx, "plugin", json!({"command": "plugin_rpc", "view_id": v, "receiver": name, "rpc": {"method": method, "params": params, "rpc_type": "notification"}}))?;
                if count > 0 {
                    for p in plugs.iter().filter(|p| p.name == name) {
                        want.get_mut(&p.id).unwrap().push(json!({"custom_command": {"view_id": v, "method": method, "params": params}}));
                        commands += 1;
                    }
                }
            }
            12 | 13 if !views.is_empty() => {
                // for the plugin that knows how to: with the lines selected
                let v = views[vi].id.clone();
                s.settle(cx)?;
                let (text, starts) = check_any_view(cx, &mut s, &v)?;
                let sel = s.views[&v].selection(&starts)?;
                let lines = touched(&text, &sel);
                let (m, method) = *r.pick(&[("reindent", "reindent"), ("debug_toggle_comment", "toggle_comment")]);
                s.edit(cx, &v, m, Value::Null)?;
                // one of them, if there are several
                let of: Vec<usize> = plugs.iter().filter(|p| p.name == "xi-syntect-plugin").map(|p| p.id).collect();
                if let Some(first) = of.first() {
                    want.get_mut(first).unwrap().push(json!({"custom_command": {"view_id": v, "method": method, "params": lines}}));
                    ranges += 1;
                    split += (lines.len() > 1) as u64;
                }
            }
            14..=20 if !plugs.is_empty() && !views.is_empty() => {
                let v = views[vi].id.clone();
                let key = r.pick(&["k", "k2", "", "ключ"]).to_string();
                let value = r.pick(&["v", "", "two\nlines", "日本"]).to_string();
                let p = &mut plugs[pi];
                let (id, name) = (p.id, p.name.clone());
                items += 1;
                match r.below(6) {
                    0 => {
                        let al = r.pick(&["left", "right"]).to_string();
                        p.notify(cx, &mut s, &v, "add_status_item", json!({"key": key, "value": value, "alignment": al}))?;
                        front.push(json!({"method": "add_status_item", "view_id": v, "source": name, "key": key, "value": value, "alignment": al}));
                    }
                    1 => {
                        p.notify(cx, &mut s, &v, "update_status_item", json!({"key": key, "value": value}))?;
                        front.push(json!({"method": "update_status_item", "view_id": v, "key": key, "value": value}));
                    }
                    2 => {
                        p.notify(cx, &mut s, &v, "remove_status_item", json!({ "key": key }))?;
                        front.push(json!({"method": "remove_status_item", "view_id": v, "key": key}));
                    }
                    3 => {
                        p.notify(cx, &mut s, &v, "alert", json!({ "msg": value }))?;
                        front.push(json!({"method": "alert", "msg": value}));
                    }
                    4 => {
                        let rq = r.below(1000);
                        p.notify(cx, &mut s, &v, "show_hover", json!({"request_id": rq, "result": {"Ok": {"content": value, "range": null}}}))?;
                        front.push(json!({"method": "show_hover", "view_id": v, "request_id": rq, "result": value}));
                    }
                    _ => {
                        // nothing to show
                        p.notify(cx, &mut s, &v, "show_hover", json!({"request_id": 1, "result": {"Err": {"code": -1, "message": "no"}}}))?;
                    }
                }
                let _ = id;
            }
            21 if !plugs.is_empty() => {
                let on = r.bool();
                s.notif(cx, "tracing_config", json!({ "enabled": on }))?;
                for p in &plugs {
                    want.get_mut(&p.id).unwrap().push(json!({"tracing_config": {"enabled": on}}));
                }
            }
            _ => continue,
        }
        if r.chance(2, 3) || step % 7 == 6 {
            // plugins take in and acknowledge at their own pace
            for p in &mut plugs {
                if r.bool() {
                    let n = if r.bool() { usize::MAX } else { r.below(4) };
                    p.pump(cx, &mut s, &mut r, n)?;
                    p.ack(cx, &mut s, n)?;
                }
            }
            compare_front(cx, &mut s, &mut front)?;
        }
    }
    s.settle(cx)?;
    for p in &mut plugs {
        p.catch_up(cx, &mut s, &mut r)?;
    }
    s.settle(cx)?;
    for p in &mut plugs {
        p.catch_up(cx, &mut s, &mut r)?;
        compare_plug(cx, p, &mut want)?;
    }
    compare_front(cx, &mut s, &mut front)?;
    xi_trace::disable_tracing();
    cx.count("hovers_relayed", hovers);
    cx.count("commands_relayed", commands);
    cx.count("line_ranges_relayed", ranges);
    cx.count("several_line_ranges", split);
    cx.count("plugin_messages_relayed", items);
    cx.key(log, hovers + commands + items > 3);
    Ok(())
}

fn compare_plug(_cx: &mut Cx, p: &mut Plug, want: &mut BTreeMap<usize, Vec<Value>>) -> Result<(), Fail> {
    let got = std::mem::replace(&mut p.asked, Vec::new());
    let w = std::mem::replace(want.get_mut(&p.id).unwrap(), Vec::new());
    if let Some(i) = (0..got.len().max(w.len())).find(|i| got.get(*i) != w.get(*i)) {
        let what = w.get(i).or_else(|| got.get(i)).and_then(|x| x.as_object()).and_then(|o| o.keys().next().cloned()).unwrap_or_default();
        fail!(format!("relay-to-plugin:{}", what), "message {} for {} ({}): got {:?}, want {:?}", i, p.tag(), p.name, got.get(i).map(brief), w.get(i).map(brief));
    }
    Ok(())
}

/// What one change makes the core tell of several views may come in any order.
fn compare_front(_cx: &mut Cx, s: &mut Sess, front: &mut Vec<Value>) -> Result<(), Fail> {
    let mut got: Vec<Value> = Vec::new();
    for (m, p) in s.said.drain(..) {
        if TOLD.contains(&m.as_str()) {
            let mut v = p;
            v["method"] = json!(m);
            got.push(v);
        }
    }
    let mut w = std::mem::replace(front, Vec::new());
    let per = |v: &[Value]| {
        let mut by: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for x in v {
            by.entry(x["view_id"].as_str().unwrap_or("").to_string()).or_default().push(x.clone());
        }
        by
    };
    let (g, wv) = (per(&got), per(&w));
    for view in g.keys().chain(wv.keys()) {
        let none = Vec::new();
        let (a, b) = (g.get(view).unwrap_or(&none), wv.get(view).unwrap_or(&none));
        if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
            let what = b.get(i).or_else(|| a.get(i)).map(|x| x["method"].as_str().unwrap_or("").to_string()).unwrap_or_default();
            fail!(format!("relay-to-frontend:{}", what), "message {} about {:?}: got {:?}, want {:?}", i, view, a.get(i).map(brief), b.get(i).map(brief));
        }
    }
    // and all of them in order, up to the order of what comes of one change
    let key = |x: &Value| x["method"].as_str().map_or(false, |m| m.starts_with("plugin_") || m == "available_plugins");
    let (a, b): (Vec<&Value>, Vec<&Value>) = (got.iter().filter(|x| !key(x)).collect(), w.iter().filter(|x| !key(x)).collect());
    ensure!(a == b, "relay-order", "the frontend was told {:?}, want {:?}", a, b);
    w.clear();
    Ok(())
}

fn relay(cx: &mut Cx) -> Result<(), Fail> {
    bounded(cx, 60, relay_case)
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C35", "a session in which frontend and plugins talked through the core", vec![Suite { name: "relay", f: relay, quick: 16000, thorough: 500000 }])]
}
