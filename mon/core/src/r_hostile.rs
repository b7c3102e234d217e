//! No message stops the core, harms another view, or makes it lie afterwards.
use crate::drive::*;
use crate::mirror::*;
use crate::ops;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn big(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => json!(u64::MAX),
        1 => json!(i64::MAX),
        2 => json!(i64::MIN),
        3 => json!(-1),
        4 => json!(1u64 << 63),
        5 => json!((1u64 << 32) - 1),
        6 => json!(1u64 << 32),
        7 => json!(1e300),
        8 => json!(0.5),
        9 => json!("1"),
        10 => Value::Null,
        _ => json!(r.below(1000)),
    }
}

fn size(r: &mut Rng) -> Value {
    r.pick(&[json!(0), json!(-5.5), json!(1e308), json!(0.001), json!(80), json!(7)]).clone()
}

/// An edit whose parameters are extreme or malformed.
fn odd_edit(r: &mut Rng) -> (String, Value) {
    match r.below(16) {
        0 => ("scroll".into(), json!([big(r), big(r)])),
        1 => ("request_lines".into(), json!([big(r), big(r)])),
        2 => ("goto_line".into(), json!({"line": big(r)})),
        3 => ("gesture".into(), json!({"line": big(r), "col": big(r), "ty": r.pick(&[json!("drag"), json!("point_select"), json!({"select": {"granularity": "word", "multi": true}}), json!({"select_extend": {"granularity": "line"}}), json!("no_such"), json!({"select": {}})])})),
        4 => {
            let n = r.below(6);
            ("click".into(), Value::Array((0..n).map(|_| big(r)).collect()))
        }
        5 => {
            let n = r.below(5);
            ("drag".into(), Value::Array((0..n).map(|_| big(r)).collect()))
        }
        6 => ("resize".into(), json!({"width": size(r), "height": size(r)})),
        7 => {
            let n = r.below(12);
            let q: Vec<Value> = (0..n).map(|i| json!({"id": if r.bool() { Value::Null } else { json!(r.below(20)) }, "chars": r.pick(&["a", "", "(", "\\", "[z-a]", "a{1000}{1000}", "x*", "(?P<n>", "\u{0}"]), "case_sensitive": r.bool(), "regex": i % 2 == 0 || r.bool(), "whole_words": r.bool()})).collect();
            ("multi_find".into(), json!({ "queries": q }))
        }
        8 => ("find".into(), json!({"chars": r.pick(&["(", "[", "a**", "\\p{Foo}", "(?x", "a{99999}", "\n", "", "\\b", "$^", "(?s).*"]), "case_sensitive": r.bool(), "regex": r.chance(3, 4), "whole_words": r.bool()})),
        9 => ("request_hover".into(), json!({"request_id": r.below(9), "position": {"line": big(r), "column": big(r)}})),
        10 => (r.pick(&["toggle_recording", "play_recording", "clear_recording"]).to_string(), json!({"recording_name": r.pick(&["a", "", "none", "\n"])})),
        11 => ("toggle_recording".into(), json!({})),
        12 => (r.pick(&["no_such_method", "", "Insert", "insert"]).to_string(), r.pick(&[json!({}), json!([]), json!({"chars": 1}), json!({"text": "x"}), json!(["x"])]).clone()),
        13 => ("replace".into(), json!({"chars": r.pick(&["", "$1", "\\", "\n\n"]), "preserve_case": r.bool()})),
        14 => (r.pick(&["undo", "redo", "replace_all", "replace_next", "find_all", "find_next", "find_previous", "selection_for_replace", "selection_for_find", "yank", "debug_rewrap", "debug_wrap_width", "debug_print_spans"]).to_string(), r.pick(&[Value::Null, json!({}), json!([])]).clone()),
        _ => ("insert".into(), json!({"chars": r.pick(&["\u{0}", "\u{feff}", "\u{2028}", "\r", "\r\n", "\u{85}", "e\u{301}\u{301}", "👨‍👩‍👧‍👦", "\u{202e}", "\t\t\t", "🇫🇷🇩"])})),
    }
}

fn odd_config(r: &mut Rng) -> Value {
    let k = *r.pick(&["tab_size", "line_ending", "wrap_width", "word_wrap", "font_size", "surrounding_pairs", "auto_indent", "scroll_past_end", "no_such_key", "translate_tabs_to_spaces", "save_with_newline", "font_face", "use_tab_stops"]);
    let v = match r.below(14) {
        0 => Value::Null,
        1 => json!(0),
        2 => json!(-1),
        3 => json!(1),
        4 => json!("x"),
        5 => json!(true),
        6 => json!([]),
        7 => json!([["a"]]),
        8 => json!([["", ""]]),
        9 => json!([["(", ")"], ["a", "b"], ["é", "é"]]),
        10 => json!(""),
        11 => json!({}),
        12 => json!(3),
        _ => json!(64),
    };
    json!({ k: v })
}

fn some_view(r: &mut Rng, open: &[String], closed: &[String]) -> String {
    match r.below(6) {
        0 if !closed.is_empty() => r.pick(closed).clone(),
        1 => r.pick(&["view-id-0", "view-id-99", "view-id-", "", "7", "buffer-id-2", "view-id--1", "view-id-18446744073709551615"]).to_string(),
        _ if !open.is_empty() => r.pick(open).clone(),
        _ => "view-id-0".into(),
    }
}

struct St {
    open: Vec<String>,
    closed: Vec<String>,
    /// text last seen, for the views not touched since
    text: BTreeMap<String, String>,
    /// views of files: reloaded from disk when those change
    files: BTreeSet<String>,
}

impl St {
    fn idle_ran(&mut self) {
        for v in &self.files {
            self.text.remove(v);
        }
    }
}

/// The number alone names a view too.
fn full_id(v: &str) -> String {
    if !v.is_empty() && v.chars().all(|c| c.is_ascii_digit()) {
        format!("view-id-{}", v)
    } else {
        v.to_string()
    }
}

fn compare_others(cx: &mut Cx, s: &mut Sess, st: &mut St, touched: Option<&str>) -> Result<(), Fail> {
    for v in st.open.clone() {
        let t = s.contents(cx, &v)?;
        if Some(v.as_str()) != touched {
            if let Some(old) = st.text.get(&v) {
                ensure!(*old == t, "hostile-changed-other-view", "the text of {} went from {:?} to {:?} by a message to {:?}", v, short(old), short(&t), touched);
                cx.count("other_views_compared", 1);
            }
        }
        st.text.insert(v, t);
    }
    Ok(())
}

fn check_all(cx: &mut Cx, s: &mut Sess, st: &mut St) -> Result<(), Fail> {
    s.settle(cx)?;
    for v in st.open.clone() {
        let (t, _) = check_any_view(cx, s, &v)?;
        cx.state(hash_str(&t));
        cx.count("views_checked", 1);
    }
    for v in &st.closed {
        for (m, p) in &[("debug_get_contents", json!({ "view_id": v })), ("get_config", json!({ "view_id": v })), ("edit", json!({"view_id": v, "method": "copy", "params": {}}))] {
            if let Ok(x) = s.req(cx, m, p.clone())? {
                return Err(Fail::new("closed-view-answers", format!("{} for the closed {} answered {}", m, v, x)));
            }
            cx.count("closed_views_refused", 1);
        }
    }
    Ok(())
}

fn messages(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let dir = Scratch::new(cx);
    std::fs::write(dir.path("good.txt"), "one\ntwo\n\tthree\n").unwrap();
    std::fs::write(dir.path("crlf.rs"), "fn a() {\r\n  b();\r\n}\r\n").unwrap();
    std::fs::write(dir.path("bin"), [0xffu8, 0xfe, 0, 1, 0x80]).unwrap();
    std::fs::write(dir.path("bom.txt"), "\u{feff}bom\n").unwrap();
    std::fs::create_dir_all(dir.path("dir")).unwrap();
    let mut s = if r.chance(1, 8) {
        std::fs::create_dir_all(dir.path("conf")).unwrap();
        if r.bool() {
            std::fs::write(dir.path("conf/preferences.xiconfig"), r.pick(&["tab_size = 0\n", "tab_size = 7\n", "= broken", "font_size = \"x\"\n", "\u{0}"])).unwrap();
        }
        Sess::start_with(cx, Some(&dir.path("conf")))?
    } else {
        Sess::start(cx)?
    };
    s.hide = dir.0.to_str().unwrap().to_string();
    s.st.lock().unwrap().width_fail = if r.chance(1, 5) { 1 + r.below(4) as u8 } else { 0 };
    let mut st = St { open: vec![], closed: vec![], text: BTreeMap::new(), files: BTreeSet::new() };
    let n = 8 + r.below(if cx.thorough { 90 } else { 45 });
    let (mut odd, mut quiet) = (0u64, true);
    for _ in 0..n {
        let mut touched: Option<String> = None;
        match r.below(24) {
            0 | 1 if st.open.len() < 5 => {
                let name = *r.pick(&["", "", "good.txt", "crlf.rs", "bin", "bom.txt", "dir", "missing.txt", "no/such/dir/x"]);
                let p = if name.is_empty() { json!({}) } else { json!({"file_path": dir.path(name).to_str().unwrap()}) };
                match s.req(cx, "new_view", p)? {
                    Ok(v) => {
                        ensure!(name != "bin" && name != "dir", "opened-what-is-no-text", "new_view of {} was answered with {}", name, v);
                        let id = v.as_str().unwrap_or("").to_string();
                        ensure!(!s.views.contains_key(&id), "view-id-reused", "{} was given out before", id);
                        s.views.insert(id.clone(), Mirror::new());
                        st.open.push(id.clone());
                        if !name.is_empty() {
                            st.files.insert(id.clone());
                        }
                        touched = Some(id);
                    }
                    Err(e) => {
                        ensure!(name == "bin" || name == "dir", "new-view-refused", "new_view of {:?} was refused: {:?}", name, e);
                        odd += 1;
                    }
                }
                quiet = false;
            }
            2 => {
                let v = some_view(&mut r, &st.open, &st.closed);
                s.notif(cx, "close_view", json!({ "view_id": v }))?;
                let v = full_id(&v);
                if let Some(i) = st.open.iter().position(|o| *o == v) {
                    st.open.remove(i);
                    st.closed.push(v.clone());
                    st.text.remove(&v);
                    s.views.get_mut(&v).unwrap().closed = true;
                } else {
                    odd += 1;
                }
            }
            3 | 4 | 5 => {
                let v = some_view(&mut r, &st.open, &st.closed);
                let (m, p) = odd_edit(&mut r);
                odd += 1;
                if st.open.contains(&v) {
                    s.edit(cx, &v, &m, p)?;
                } else {
                    s.notif(cx, "edit", if p.is_null() { json!({"view_id": v, "method": m}) } else { json!({"view_id": v, "method": m, "params": p}) })?;
                }
                touched = Some(v);
            }
            6 => {
                odd += 1;
                let v = some_view(&mut r, &st.open, &st.closed);
                let dom = match r.below(5) {
                    0 => json!({ "user_override": v }),
                    1 => json!({ "syntax": r.pick(&["Rust", "none", ""]) }),
                    2 => json!({ "language": "Rust" }),
                    3 => r.pick(&[json!("nowhere"), json!(3), json!({"sys_override": 2})]).clone(),
                    _ => json!("general"),
                };
                s.notif(cx, "modify_user_config", json!({"domain": dom, "changes": if r.chance(1, 10) { json!([1]) } else { odd_config(&mut r) }}))?;
            }
            7 => {
                odd += 1;
                let v = some_view(&mut r, &st.open, &st.closed);
                match r.below(8) {
                    0 => s.notif(cx, "set_theme", json!({"theme_name": r.pick(&["InspiredGitHub", "none", "", "Solarized (dark)"])}))?,
                    1 => s.notif(cx, "set_language", json!({"view_id": v, "language_id": r.pick(&["Rust", "none", ""])}))?,
                    2 => s.notif(cx, "plugin", json!({"command": "start", "view_id": v, "plugin_name": "none"}))?,
                    3 => s.notif(cx, "plugin", json!({"command": "stop", "view_id": v, "plugin_name": "none"}))?,
                    4 => s.notif(cx, "plugin", json!({"command": "plugin_rpc", "view_id": v, "receiver": "none", "rpc": {"method": "x", "params": [1], "rpc_type": "notification"}}))?,
                    5 => s.notif(cx, "save_trace", json!({"destination": dir.path(r.pick(&["trace.json", "dir", "no/such"])).to_str().unwrap(), "frontend_samples": r.pick(&[json!([]), json!({}), json!(3), json!([{"name": "a"}])])}))?,
                    6 => s.notif(cx, "tracing_config", json!({ "enabled": false }))?,
                    _ => s.raw_notif(cx, r.pick(&[json!({"method": "no_such"}), json!({"method": "edit"}), json!({"method": "edit", "params": {}}), json!([]), json!({"method": "save", "params": {"view_id": 3}}), json!({"params": {}})]).clone())?,
                }
                if s.said.len() > 1000 {
                    s.said.clear();
                }
            }
            8 => {
                let v = some_view(&mut r, &st.open, &st.closed);
                let name = *r.pick(&["out.txt", "dir", "no/such/dir/f", "good.txt", "crlf.rs", "bom.txt", "noext", ".hidden"]);
                st.files.insert(full_id(&v));
                s.notif(cx, "save", json!({"view_id": v, "file_path": dir.path(name).to_str().unwrap()}))?;
                odd += 1;
            }
            9 => {
                // answers to requests: errors for views that are not there
                let v = some_view(&mut r, &st.open, &st.closed);
                let m = *r.pick(&["debug_get_contents", "get_config", "edit"]);
                let p = if m == "edit" { json!({"view_id": v, "method": r.pick(&["cut", "copy"]), "params": {}}) } else { json!({ "view_id": v }) };
                let a = s.req(cx, m, p)?;
                // the number alone is accepted as an id
                let id = full_id(&v);
                ensure_eq!(a.is_ok(), st.open.contains(&id), "request-answer-for-view", "whether {} for {:?} succeeded", m, v);
                touched = Some(id);
            }
            10 | 11 => {
                s.settle(cx)?;
                check_all(cx, &mut s, &mut st)?;
                st.idle_ran();
                quiet = true;
            }
            12 => {
                s.idle_once(cx)?;
                st.idle_ran();
            }
            _ if !st.open.is_empty() => {
                let v = r.pick(&st.open).clone();
                let doc = st.text.get(&v).cloned().unwrap_or_default();
                let lines = line_starts(&doc).len();
                let (m, p) = ops::any(&mut r, &doc, lines);
                s.edit(cx, &v, &m, p)?;
                touched = Some(v);
            }
            _ => continue,
        }
        // a view named by number only
        let touched = touched.map(|v| full_id(&v));
        compare_others(cx, &mut s, &mut st, touched.as_deref())?;
        if st.text.values().any(|t| t.len() > 20_000) {
            break;
        }
    }
    check_all(cx, &mut s, &mut st)?;
    // ordinary work goes on
    s.st.lock().unwrap().width_fail = 0;
    let v = s.new_view(cx, None)?;
    s.do_edit(cx, &v, "insert", json!({"chars": "still here"}))?;
    ensure_eq!(s.contents(cx, &v)?, "still here".to_string(), "core-wedged-after-hostile", "text of a view opened after the hostile messages");
    st.open.push(v);
    for v in st.open.clone() {
        let before = s.contents(cx, &v)?;
        s.do_edit(cx, &v, "move_to_beginning_of_document", Value::Null)?;
        s.do_edit(cx, &v, "insert", json!({"chars": "X"}))?;
        let after = s.contents(cx, &v)?;
        if st.files.contains(&v) {
            // it may just have been reloaded
            ensure!(after.starts_with('X'), "core-wedged-after-hostile", "text of {} after typing at its beginning: {:?}", v, short(&after));
        } else {
            ensure_eq!(after, format!("X{}", before), "core-wedged-after-hostile", "text of {} after typing at its beginning", v);
        }
    }
    check_all(cx, &mut s, &mut st)?;
    let _ = quiet;
    cx.count("messages", s.sent);
    cx.count("odd_messages", odd);
    cx.count("alerts", s.alerts.len() as u64);
    cx.key(cx.trace_hash(), odd > 2);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C23", "a session with more than two odd messages", vec![Suite { name: "messages", f: messages, quick: 8000, thorough: 200000 }])]
}
