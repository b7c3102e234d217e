//! Plugins: kept in step with the buffers, their edits merged.
use crate::drive::*;
use crate::mirror::line_starts;
use crate::ops;
use crate::plug::*;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// A case that may lock up (the monitored code holds a lock while it calls out) runs in
/// a thread of its own.
pub fn bounded(cx: &mut Cx, secs: u64, f: fn(&mut Cx) -> Result<(), Fail>) -> Result<(), Fail> {
    let mut c = cx.fork();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = match catch(|| f(&mut c)) {
            Ok(r) => r,
            Err((m, l)) => Err(Fail::new(format!("panic:{}", loc_file(&l)), format!("panic `{}` at {}", m, l))),
        };
        let _ = tx.send((r, c));
    });
    match rx.recv_timeout(std::time::Duration::from_secs(secs)) {
        Ok((r, c)) => {
            cx.join(c);
            r
        }
        Err(_) => Err(Fail::new("no-progress", format!("no end within {} s: the core is stuck", secs))),
    }
}

/// Numbers as they compare, whatever their form.
fn plain(v: &Value) -> Value {
    match v {
        Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), plain(v))).collect::<serde_json::Map<_, _>>().into(),
        Value::Array(a) => a.iter().map(plain).collect::<Vec<_>>().into(),
        Value::Number(n) => json!(n.as_f64()),
        v => v.clone(),
    }
}

/// What every plugin knows must be what is true.
pub fn check_replicas(cx: &mut Cx, s: &mut Sess, plugs: &[Plug]) -> Result<(), Fail> {
    let open: Vec<String> = s.views.iter().filter(|v| !v.1.closed).map(|v| v.0.clone()).collect();
    for v in &open {
        let t = s.contents(cx, v)?;
        let conf = s.get_config(cx, v)?;
        for p in plugs.iter().filter(|p| p.alive) {
            ensure!(p.initialized, "plugin-not-initialized", "{} never got initialize", p.tag());
            let rep = p.reps.get(v).ok_or_else(|| Fail::new("plugin-lacks-buffer", format!("{} was not told of {}", p.tag(), v)))?;
            ensure_eq!(short(&rep.text), short(&t), "replica-differs", "{}'s copy of {}, the text", p.tag(), v);
            ensure!(rep.text == t, "replica-differs", "{}'s copy of {}", p.tag(), v);
            // settings of the whole editor are not told with a buffer
            let mut mine = plain(&Value::from(rep.config.clone()));
            let mut conf = plain(&conf);
            mine.as_object_mut().unwrap().remove("plugin_search_path");
            conf.as_object_mut().unwrap().remove("plugin_search_path");
            ensure_eq!(mine, conf, "plugin-config", "settings of {} as {} knows them", v, p.tag());
            if let Some(l) = s.language.get(v) {
                ensure_eq!(&rep.lang, l, "plugin-language", "language of {} as {} knows it", v, p.tag());
            }
            cx.count("replicas_compared", 1);
        }
        cx.state(hash_str(&t));
    }
    for p in plugs.iter().filter(|p| p.alive) {
        for v in p.reps.keys() {
            ensure!(open.contains(v), "plugin-not-told-of-close", "{} still holds {}", p.tag(), v);
        }
    }
    Ok(())
}

pub fn kind_of(m: &str, p: &Value) -> Option<&'static str> {
    Some(match m {
        "insert" => match p["chars"].as_str() {
            Some("a") => "insert",
            _ => return None,
        },
        "insert_newline" => "newline",
        "delete_backward" | "delete_forward" | "delete_word_backward" | "delete_word_forward" => "delete",
        "undo" => "undo",
        "redo" => "redo",
        "transpose" => "transpose",
        _ => return None,
    })
}

/// Plugins that only watch, over all that a frontend can do.
fn replicas(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let dir = Scratch::new(cx);
    let mut s = Sess::start(cx)?;
    s.hide = dir.0.to_str().unwrap().to_string();
    let mut plugs: Vec<Plug> = Vec::new();
    let mut next = 1;
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    let mut files = 0;
    let n = 8 + r.below(if cx.thorough { 120 } else { 50 });
    let (mut kinds, mut saves, mut late) = (0u64, 0u64, 0u64);
    for step in 0..n {
        let open: Vec<String> = texts.keys().cloned().collect();
        match r.below(40) {
            0..=2 if plugs.len() < 3 => {
                if !open.is_empty() {
                    late += 1;
                }
                plugs.push(connect(cx, &mut s, next, &format!("p{}", next))?);
                next += 1;
            }
            3 | 4 if open.len() < 3 => {
                let v = if r.bool() {
                    let f = dir.path(&format!("f{}.txt", files));
                    files += 1;
                    let t = if r.chance(1, 30) { text::long(&mut r, 3000) } else { text::any(&mut r, 100) };
                    std::fs::write(&f, &t).unwrap();
                    s.new_view(cx, Some(&f))?
                } else {
                    // edits may come before the view is set up
                    let v = match s.req(cx, "new_view", json!({}))? {
                        Ok(v) => v.as_str().unwrap_or("").to_string(),
                        Err(e) => fail!("new-view-refused", "{:?}", e),
                    };
                    s.views.entry(v.clone()).or_insert_with(crate::mirror::Mirror::new);
                    if r.bool() {
                        s.said.clear();
                        s.settle(cx)?;
                        let names: Vec<Value> = plugs.iter().map(|p| json!({"name": p.name, "running": true})).collect();
                        let want = json!({"view_id": v, "plugins": names});
                        ensure!(s.said.iter().any(|x| x.0 == "available_plugins" && x.1 == want), "available_plugins", "available_plugins of {}: want {}", v, want);
                        for p in &plugs {
                            let want = json!({"view_id": v, "plugin": p.name});
                            ensure!(s.said.iter().any(|x| x.0 == "plugin_started" && x.1 == want), "plugin_started-not-sent", "the frontend was not told of {} for {}", p.name, v);
                        }
                    }
                    v
                };
                texts.insert(v, String::new());
            }
            5 if open.len() > 1 => {
                let v = r.pick(&open).clone();
                s.settle(cx)?;
                s.close(cx, &v)?;
                texts.remove(&v);
            }
            6 if !open.is_empty() => {
                let v = r.pick(&open).clone();
                let f = dir.path(&format!("s{}.txt", files));
                files += 1;
                s.settle(cx)?;
                s.notif(cx, "save", json!({"view_id": v, "file_path": f.to_str().unwrap()}))?;
                s.settle(cx)?;
                saves += 1;
                for p in plugs.iter_mut() {
                    p.catch_up(cx, &mut s, &mut r)?;
                    let rep = &p.reps[&v];
                    ensure_eq!(rep.saves.last().map(|x| x.as_str()), f.to_str(), "plugin-not-told-of-save", "last save of {} as {} knows it", v, p.tag());
                }
            }
            7 => {
                let k = r.below(3);
                let (d, c) = match k {
                    0 => (json!("general"), json!({"tab_size": 1 + r.below(8)})),
                    1 if !open.is_empty() => (json!({"user_override": r.pick(&open)}), json!({"translate_tabs_to_spaces": r.bool(), "font_size": 9 + r.below(6)})),
                    _ => (json!("general"), json!({"auto_indent": r.bool(), "surrounding_pairs": [["(", ")"]]})),
                };
                s.set_config(cx, d, c)?;
            }
            8 if !open.is_empty() => {
                let v = r.pick(&open).clone();
                s.notif(cx, "set_language", json!({"view_id": v, "language_id": "Plain Text"}))?;
            }
            9 if !open.is_empty() && r.chance(1, if cx.thorough { 8 } else { 20 }) => {
                // more than fits into a delta
                let v = r.pick(&open).clone();
                let t = format!("{}\n", "0123456789é".repeat(10)).repeat(9_300);
                s.edit(cx, &v, "paste", json!({ "chars": t }))?;
                for p in plugs.iter_mut() {
                    p.catch_up(cx, &mut s, &mut r)?;
                }
                s.edit(cx, &v, "undo", Value::Null)?;
            }
            10..=13 if !plugs.is_empty() => {
                let i = r.below(plugs.len());
                let k = 1 + r.below(3);
                plugs[i].pump(cx, &mut s, &mut r, k)?;
            }
            14 | 15 if !plugs.is_empty() => {
                let i = r.below(plugs.len());
                plugs[i].ack(cx, &mut s, 2)?;
            }
            16 | 17 if !plugs.is_empty() && !open.is_empty() => {
                let i = r.below(plugs.len());
                let v = r.pick(&open).clone();
                random_read(cx, &mut s, &mut r, &mut plugs[i], &v)?;
                let t = s.contents(cx, &v)?;
                let k = plugs[i].request(cx, &mut s, &v, "line_count", json!({}))?;
                ensure_eq!(k.ok(), Some(json!(t.matches('\n').count() + 1)), "line_count", "line_count of {}", v);
            }
            18 if plugs.len() > 1 => {
                let i = r.below(plugs.len());
                let mut p = plugs.remove(i);
                p.die(cx, &mut s, &mut r)?;
                if !open.is_empty() && r.bool() {
                    // the user goes on before the core notices
                    let v = r.pick(&open).clone();
                    s.edit(cx, &v, "insert", json!({"chars": "a"}))?;
                }
                s.said.clear();
                p.exit(cx, &mut s)?;
                for v in &open {
                    let want = json!({"view_id": v, "plugin": p.name, "code": 1});
                    ensure!(s.said.iter().any(|x| x.0 == "plugin_stopped" && x.1 == want), "plugin_stopped-not-sent", "the frontend was not told of the end of {} for {}", p.name, v);
                }
            }
            19 => {
                s.settle(cx)?;
            }
            _ if !open.is_empty() => {
                let v = r.pick(&open).clone();
                let t = texts[&v].clone();
                let (m, p) = ops::any(&mut r, &t, line_starts(&t).len());
                let before = s.contents(cx, &v)?;
                s.edit(cx, &v, &m, p.clone())?;
                let after = s.contents(cx, &v)?;
                if after.len() > 30_000 {
                    break;
                }
                if before != after {
                    if let Some(k) = kind_of(&m, &p) {
                        // only now the newest update is known to stem from this command
                        if let Some(p) = plugs.iter_mut().find(|p| p.reps.contains_key(&v)) {
                            p.pump(cx, &mut s, &mut r, 100_000)?;
                            let last = p.reps[&v].last.clone();
                            ensure_eq!((last.0.as_str(), last.1.as_str()), (k, "core"), "update-edit-type", "edit type and author told for {}", m);
                            kinds += 1;
                        }
                    }
                }
                texts.insert(v, after);
            }
            _ => {}
        }
        let _ = step;
        if r.chance(1, 6) {
            s.settle(cx)?;
            for p in plugs.iter_mut() {
                p.pump(cx, &mut s, &mut r, 100_000)?;
            }
            check_replicas(cx, &mut s, &plugs)?;
        }
    }
    s.settle(cx)?;
    for p in plugs.iter_mut() {
        p.catch_up(cx, &mut s, &mut r)?;
    }
    check_replicas(cx, &mut s, &plugs)?;
    for v in texts.keys() {
        let v = v.clone();
        s.edit(cx, &v, "scroll", json!([0, 100000]))?;
        s.settle(cx)?;
        check_any_view(cx, &mut s, &v)?;
    }
    let ups: u64 = plugs.iter().map(|p| p.updates).sum();
    cx.count("updates_applied", ups);
    cx.count("updates_without_delta", plugs.iter().map(|p| p.nodelta).sum());
    cx.count("requests", plugs.iter().map(|p| p.fetches).sum());
    cx.count("edit_types_compared", kinds);
    cx.count("saves", saves);
    cx.count("late_connections", late);
    cx.key(cx.trace_hash(), ups > 4);
    Ok(())
}

fn replicas_b(cx: &mut Cx) -> Result<(), Fail> {
    bounded(cx, 60, replicas)
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C27", "a session in which plugins applied more than four updates", vec![Suite { name: "replicas", f: replicas_b, quick: 4000, thorough: 80000 }])]
}
