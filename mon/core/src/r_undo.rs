//! Undo and redo walk the history; recordings play what was recorded.
use crate::drive::*;
use crate::mirror::line_starts;
use crate::ops;
use crate::r_model::*;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};

fn a_move(r: &mut Rng, lines: usize) -> (String, Value) {
    match r.below(4) {
        0 => ("gesture".into(), json!({"line": r.below(lines + 1), "col": r.below(9), "ty": {"select": {"granularity": ops::granularity(r), "multi": r.chance(1, 2)}}})),
        1 => ("gesture".into(), json!({"line": r.below(lines + 1), "col": r.below(9), "ty": "point_select"})),
        2 => ("gesture".into(), json!({"line": r.below(lines + 1), "col": r.below(9), "ty": {"select_extend": {"granularity": "point"}}})),
        _ => (r.pick(ops::MOVES).to_string(), Value::Null),
    }
}

/// Every edit is its own step (a movement comes before it) or a run of one kind;
/// undo and redo go exactly one step.
fn exact(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut s = Sess::start(cx)?;
    let conf = rand_config(&mut r);
    if conf.as_object().map_or(false, |o| !o.is_empty()) {
        s.set_config(cx, json!("general"), conf)?;
    }
    let doc = text::any(&mut r, 60);
    let (v, doc) = match s.open_file_of(cx, &mut r, &doc)? {
        Some(v) => (v, doc),
        None => (s.new_view(cx, None)?, String::new()),
    };
    s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
    // states of the text; `ghost[i]`: steps without effect that may lie after state i
    let mut st: Vec<String> = vec![doc];
    let mut ghost: Vec<usize> = vec![0];
    let mut cur = 0;
    let mut floor = 0; // steps below this may be forgotten
    let n = 6 + r.below(if cx.thorough { 120 } else { 60 });
    let (mut undos, mut redos, mut edits) = (0u64, 0u64, 0u64);
    for _ in 0..n {
        let lines = line_starts(&st[cur]).len();
        if r.chance(2, 5) && st.len() > 1 {
            let k = if r.chance(1, 6) { 1 + r.below(24) } else { 1 + r.below(3) };
            let redo = r.chance(2, 5);
            for _ in 0..k {
                s.do_edit(cx, &v, if redo { "redo" } else { "undo" }, Value::Null)?;
                let (t, _) = check_view(cx, &mut s, &v)?;
                let was = st[cur].clone();
                if redo {
                    if cur + 1 < st.len() && t == st[cur + 1] && (t != was || ghost[cur] == 0) {
                        cur += 1;
                        redos += 1;
                    } else {
                        ensure!(t == was, "redo-wrong-text", "redo of {:?} gave {:?}, history {:?} at {}", short(&was), short(&t), short(&st), cur);
                        ensure!(cur + 1 == st.len() || ghost[cur] > 0, "redo-does-nothing", "redo did nothing at {} of {}", cur, st.len());
                    }
                } else if cur > 0 && t == st[cur - 1] && t != was {
                    cur -= 1;
                    undos += 1;
                } else {
                    ensure!(t == was, "undo-wrong-text", "undo of {:?} gave {:?}, want {:?}; history {:?} at {}", short(&was), short(&t), cur.checked_sub(1).map(|c| short(&st[c])), short(&st), cur);
                    ensure!(cur <= floor || ghost[cur] > 0 || ghost[cur - 1] > 0, "undo-does-nothing", "undo did nothing at {} of {}", cur, st.len());
                }
                cx.state(mix(hash_str(&t), cur as u64));
            }
            continue;
        }
        // a step: movement, then a run of one kind
        let (m, p) = a_move(&mut r, lines);
        s.do_edit(cx, &v, &m, p)?;
        if s.contents(cx, &v)? != st[cur] {
            return Err(Fail::new("move-changed-text", format!("{} changed the text", m)));
        }
        let kind = r.below(5);
        let k = if kind < 2 { 1 + r.below(3) } else { 1 };
        let mut effective = true;
        for i in 0..k {
            let (m, p) = match kind {
                0 => ("insert".to_string(), json!({"chars": format!("{}{}", r.pick(&["a", "b ", "é", "日", "\n", "x\r\n"]), i)})),
                1 => (r.pick(&["delete_backward", "delete_forward", "delete_word_backward", "delete_word_forward"]).to_string(), Value::Null),
                2 => ("paste".to_string(), json!({"chars": ops::chars(&mut r)})),
                3 => ("insert".to_string(), json!({"chars": r.pick(&["(", "\"", "{"])})),
                _ => (r.pick(ops::EDITS).to_string(), Value::Null),
            };
            s.do_edit(cx, &v, &m, p)?;
            edits += 1;
            let (t, _) = check_view(cx, &mut s, &v)?;
            if i == 0 {
                effective = t != st[cur];
                if effective {
                    st.truncate(cur + 1);
                    ghost.truncate(cur + 1);
                    st.push(t);
                    ghost.push(0);
                    cur += 1;
                } else {
                    // it may have made a step without effect, and so ended the redos
                    ghost[cur] += 1;
                    if cur + 1 < st.len() {
                        st.truncate(cur + 1);
                        ghost.truncate(cur + 1);
                        // the redos may live on; do something definite
                        break;
                    }
                    break;
                }
            } else {
                // the run goes on in the same step
                st[cur] = t;
            }
        }
        if !effective {
            // make the history definite again
            let (m, p) = ("gesture".to_string(), json!({"line": 0, "col": 0, "ty": "point_select"}));
            s.do_edit(cx, &v, &m, p)?;
            s.do_edit(cx, &v, "insert", json!({"chars": "z"}))?;
            let (t, _) = check_view(cx, &mut s, &v)?;
            st.push(t);
            ghost.push(0);
            cur += 1;
        }
        // a run whose net effect is nothing
        if cur > 0 && st[cur] == st[cur - 1] {
            st.pop();
            ghost.pop();
            cur -= 1;
            ghost[cur] += 1;
        }
        let ghosts: usize = ghost.iter().sum();
        floor = floor.max((cur + ghosts).saturating_sub(19));
        if st[cur].len() > 20_000 {
            break;
        }
    }
    cx.count("edits", edits);
    cx.count("undo_steps", undos);
    cx.count("redo_steps", redos);
    cx.key(cx.trace_hash(), undos > 1 && edits > 2);
    Ok(())
}

/// Whatever the grouping: undoing goes back through texts the document had, redoing
/// as often returns exactly, and both stay put at the ends.
fn any(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut s = Sess::start(cx)?;
    let doc = text::any(&mut r, 60);
    let (v, doc) = match s.open_file_of(cx, &mut r, &doc)? {
        Some(v) => (v, doc),
        None => (s.new_view(cx, None)?, String::new()),
    };
    s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
    let mut seen: Vec<String> = vec![doc];
    let mut walks = 0u64;
    let mut moved = 0u64;
    let n = 2 + r.below(if cx.thorough { 12 } else { 6 });
    for _ in 0..n {
        for _ in 0..r.below(14) {
            let t = seen.last().unwrap().clone();
            let (m, p) = loop {
                let x = ops::any(&mut r, &t, line_starts(&t).len());
                if !x.0.contains("recording") {
                    break x;
                }
            };
            s.do_edit(cx, &v, &m, p)?;
            let (t, _) = check_view(cx, &mut s, &v)?;
            if *seen.last().unwrap() != t {
                seen.push(t);
            }
        }
        if seen.last().unwrap().len() > 20_000 {
            break;
        }
        // walk back and forth
        let mut path = vec![seen.last().unwrap().clone()];
        let k = 1 + r.below(26);
        for _ in 0..k {
            s.do_edit(cx, &v, "undo", Value::Null)?;
            let (t, _) = check_view(cx, &mut s, &v)?;
            ensure!(seen.contains(&t), "undo-unknown-text", "undo gave {:?}, which the document never was", short(&t));
            path.push(t);
        }
        moved += path.windows(2).filter(|w| w[0] != w[1]).count() as u64;
        // undos at the bottom of the history do nothing: find where they start being idle
        let mut back = Vec::new();
        for _ in 0..k + 22 {
            s.do_edit(cx, &v, "redo", Value::Null)?;
            let (t, _) = check_view(cx, &mut s, &v)?;
            back.push(t);
        }
        // the redos pass the same texts in reverse and then those of older undos
        let mut want: Vec<&String> = path.iter().rev().collect();
        want.dedup();
        let mut got: Vec<&String> = std::iter::once(path.last().unwrap()).chain(back.iter()).collect();
        got.dedup();
        ensure!(
            got.len() >= want.len() && got[..want.len()] == want[..],
            "redo-does-not-retrace",
            "undo passed {:?}, redo {:?}", short(&path), short(&got)
        );
        for t in &got {
            ensure!(seen.contains(*t), "redo-unknown-text", "redo gave {:?}, which the document never was", short(*t));
        }
        let t = back.last().unwrap().clone();
        if *seen.last().unwrap() != t {
            seen.push(t);
        }
        walks += 1;
    }
    cx.count("walks", walks);
    cx.count("walk_steps_with_effect", moved);
    cx.key(cx.trace_hash(), moved > 1);
    Ok(())
}

/// A recording does what its commands do one by one; one undo takes all of it back.
fn recording(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut cmds: Vec<(String, Value)> = Vec::new();
    let doc = text::any(&mut r, 60);
    for _ in 0..1 + r.below(10) {
        let c = match r.below(8) {
            0 | 1 => (r.pick(ops::MOVES).to_string(), Value::Null),
            2 => a_move(&mut r, 6),
            3 | 4 => ("insert".into(), json!({ "chars": ops::chars(&mut r) })),
            5 => ("paste".into(), json!({ "chars": ops::chars(&mut r) })),
            _ => (r.pick(ops::EDITS).to_string(), Value::Null),
        };
        if c.0.contains("yank") || c.0.contains("page") {
            continue;
        }
        // inserts in a row are recorded as one: not the same for surrounding pairs, nor
        // for adjacent regions, whose carets meet after the first of them
        let multi = cmds.iter().any(|c| c.1["ty"]["select"]["multi"] == true);
        if multi && c.0 == "insert" && cmds.last().map_or(false, |l| l.0 == "insert") {
            continue;
        }
        let sur = |c: &(String, Value)| c.0 == "insert" && ["\"", "'", "{", "["].contains(&c.1["chars"].as_str().unwrap());
        if cmds.last().map_or(false, |l| l.0 == "insert" && c.0 == "insert" && (sur(l) || sur(&c))) {
            continue;
        }
        cmds.push(c);
    }
    let mut s = Sess::start(cx)?;
    let a = s.new_view(cx, None)?;
    s.do_edit(cx, &a, "scroll", json!([0, 100000]))?;
    if !doc.is_empty() {
        s.do_edit(cx, &a, "insert", json!({ "chars": doc }))?;
    }
    s.do_edit(cx, &a, "toggle_recording", json!({"recording_name": "m"}))?;
    for (m, p) in &cmds {
        s.do_edit(cx, &a, m, p.clone())?;
    }
    let stop = if r.bool() { json!({"recording_name": "m"}) } else { json!({}) };
    s.do_edit(cx, &a, "toggle_recording", stop)?;
    // another document, twice: played, and command by command
    let doc2 = if r.bool() { doc.clone() } else { text::any(&mut r, 80) };
    let (l, c) = (r.below(5), r.below(6));
    let mut ids = Vec::new();
    for _ in 0..2 {
        let v = s.new_view(cx, None)?;
        s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
        if !doc2.is_empty() {
            s.do_edit(cx, &v, "insert", json!({ "chars": doc2 }))?;
        }
        s.do_edit(cx, &v, "gesture", json!({"line": l, "col": c, "ty": "point_select"}))?;
        ids.push(v);
    }
    // played again it begins with the regions it ended with: inserts that were recorded as one
    // would then meet several
    let several = cmds.iter().any(|c| c.1["ty"]["select"]["multi"] == true) && cmds.windows(2).any(|w| w[0].0 == "insert" && w[1].0 == "insert");
    let times = if several { 1 } else { 1 + r.below(3) };
    let mut texts = vec![doc2.clone()];
    for _ in 0..times {
        s.do_edit(cx, &ids[0], "play_recording", json!({"recording_name": "m"}))?;
        for (m, p) in &cmds {
            s.do_edit(cx, &ids[1], m, p.clone())?;
        }
        let x = check_view(cx, &mut s, &ids[0])?;
        let y = check_view(cx, &mut s, &ids[1])?;
        ensure!(x.0 == y.0, "recording-text", "played on {:?}: {:?}, command by command {:?}; recorded {:?}", short(&doc2), short(&x.0), short(&y.0), cmds);
        ensure!(x.1 == y.1, "recording-selection", "played on {:?}: {:?}, command by command {:?}; recorded {:?}", short(&doc2), x.1, y.1, cmds);
        texts.push(x.0);
        if texts.last().unwrap().len() > 10_000 {
            break;
        }
    }
    // each play is one step
    while texts.len() > 1 {
        texts.pop();
        s.do_edit(cx, &ids[0], "undo", Value::Null)?;
        let x = check_view(cx, &mut s, &ids[0])?;
        ensure!(x.0 == *texts.last().unwrap(), "recording-undo", "one undo after playing gave {:?}, before it was {:?}; recorded {:?}", short(&x.0), short(texts.last().unwrap()), cmds);
    }
    cx.count("commands_recorded", cmds.len() as u64);
    cx.key(cx.trace_hash(), cmds.len() > 1);
    Ok(())
}

/// What was undone while recording is not played, what was redone is.
fn recording_undo(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let doc = text::any(&mut r, 60);
    let mut s = Sess::start(cx)?;
    let a = s.new_view(cx, None)?;
    s.do_edit(cx, &a, "scroll", json!([0, 100000]))?;
    s.do_edit(cx, &a, "insert", json!({ "chars": format!("{}x", doc) }))?;
    s.do_edit(cx, &a, "toggle_recording", json!({"recording_name": "m"}))?;
    // commands in order, with the step they are (if they edit); steps in effect, and undone
    let mut cmds: Vec<(String, Value, Option<usize>)> = Vec::new();
    let (mut done, mut undone): (Vec<usize>, Vec<usize>) = (Vec::new(), Vec::new());
    let (mut steps, mut undos, mut redos, mut spare) = (0, 0u64, 0u64, 0u64);
    let mut log = String::new();
    for _ in 0..2 + r.below(14) {
        match r.below(5) {
            0 | 1 => {
                for _ in 0..1 + r.below(3) {
                    if let Some(x) = done.pop() {
                        s.do_edit(cx, &a, "undo", Value::Null)?;
                        undone.push(x);
                        undos += 1;
                        log.push('U');
                    }
                }
            }
            2 => {
                for _ in 0..1 + r.below(3) {
                    s.do_edit(cx, &a, "redo", Value::Null)?;
                    log.push('R');
                    match undone.pop() {
                        Some(x) => {
                            done.push(x);
                            redos += 1;
                        }
                        None => spare += 1,
                    }
                }
            }
            _ => {
                let (m, p) = loop {
                    let c = a_move(&mut r, 6);
                    if !c.0.contains("page") {
                        break c;
                    }
                };
                s.do_edit(cx, &a, &m, p.clone())?;
                cmds.push((m, p, None));
                let (m, p) = match r.below(4) {
                    0 => ("insert", json!({ "chars": format!("w{}\n", steps) })),
                    1 => ("paste", json!({ "chars": format!("p{} ", steps) })),
                    2 => ("insert_newline", Value::Null),
                    _ => ("insert", json!({ "chars": format!("i{}", steps) })),
                };
                s.do_edit(cx, &a, m, p.clone())?;
                cmds.push((m.into(), p, Some(steps)));
                log.push_str(&format!("e{}", steps));
                done.push(steps);
                undone.clear();
                steps += 1;
            }
        }
    }
    s.do_edit(cx, &a, "toggle_recording", json!({}))?;
    check_view(cx, &mut s, &a)?;
    let doc2 = text::any(&mut r, 80);
    let mut ids = Vec::new();
    for _ in 0..2 {
        let v = s.new_view(cx, None)?;
        s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
        s.do_edit(cx, &v, "insert", json!({ "chars": format!("{}y", doc2) }))?;
        ids.push(v);
    }
    s.do_edit(cx, &ids[0], "play_recording", json!({"recording_name": "m"}))?;
    for (m, p, step) in &cmds {
        if step.map_or(true, |x| done.contains(&x)) {
            s.do_edit(cx, &ids[1], m, p.clone())?;
        }
    }
    let x = check_view(cx, &mut s, &ids[0])?;
    let y = check_view(cx, &mut s, &ids[1])?;
    ensure!(x.0 == y.0, "recording-undone", "recorded {} {:?}: in effect were {:?}; played it gave {:?}, one by one {:?}", log, cmds, done, short(&x.0), short(&y.0));
    ensure!(x.1 == y.1, "recording-undone-selection", "recorded {} {:?}: in effect were {:?}; played {:?}, one by one {:?}", log, cmds, done, x.1, y.1);
    cx.count("undos_recorded", undos);
    cx.count("redos_recorded", redos);
    cx.count("redos_without_effect", spare);
    cx.key(hash_str(&log), undos > 0);
    Ok(())
}

/// Commands to one buffer never show in another.
fn isolation(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut s = Sess::start(cx)?;
    let mut ids: Vec<(String, String)> = Vec::new();
    let n = 6 + r.below(if cx.thorough { 80 } else { 40 });
    let mut switches = 0u64;
    let mut opened = 0u64;
    for _ in 0..n {
        if ids.len() < 2 || r.chance(1, 15) && ids.len() < 5 {
            let doc = text::any(&mut r, 60);
            let file = if r.chance(1, 2) { s.open_file_of(cx, &mut r, &doc)? } else { None };
            let doc = if file.is_some() { doc } else { String::new() };
            let v = if let Some(v) = file {
                v
            } else if r.chance(1, 2) {
                s.new_view(cx, None)?
            } else {
                // no idle work in between
                let x = s.req(cx, "new_view", json!({}))?;
                let v = x.map_err(|e| Fail::new("new-view-refused", format!("{:?}", e)))?.as_str().unwrap().to_string();
                s.views.entry(v.clone()).or_insert_with(crate::mirror::Mirror::new);
                v
            };
            ensure!(ids.iter().all(|i| i.0 != v), "view-id-reused", "view id {} is in use", v);
            if r.bool() {
                s.edit(cx, &v, "scroll", json!([0, 100000]))?;
            }
            opened += 1;
            ids.push((v, doc));
            continue;
        }
        let k = r.below(ids.len());
        if ids.len() > 2 && r.chance(1, 25) {
            let (v, _) = ids.remove(k);
            s.close(cx, &v)?;
            let e = s.req(cx, "debug_get_contents", json!({ "view_id": v }))?;
            ensure!(e.is_err(), "closed-view-answers", "{} answers after it was closed", v);
            continue;
        }
        let v = ids[k].0.clone();
        let t = ids[k].1.clone();
        let (m, p) = ops::any(&mut r, &t, line_starts(&t).len());
        let ups: Vec<u64> = ids.iter().map(|i| s.views[&i.0].updates).collect();
        s.edit(cx, &v, &m, p)?;
        for (i, w) in ids.iter().enumerate() {
            if i != k {
                ensure_eq!(s.views[&w.0].updates, ups[i], "update-for-other-view", "updates of {} after {} on {}", w.0, m, v);
            }
        }
        if r.chance(2, 3) {
            s.settle(cx)?;
        }
        for i in 0..ids.len() {
            let w = ids[i].0.clone();
            let c = s.contents(cx, &w)?;
            if i == k {
                ids[i].1 = c;
            } else {
                ensure!(c == ids[i].1, "other-buffer-changed", "{} on {} changed the text of {}: {:?}, was {:?}", m, v, w, short(&c), short(&ids[i].1));
            }
        }
        switches += 1;
        if ids.iter().any(|i| i.1.len() > 10_000) {
            break;
        }
    }
    s.settle(cx)?;
    for (v, t) in ids.clone() {
        let (c, _) = check_view(cx, &mut s, &v)?;
        ensure!(c == t, "other-buffer-changed", "text of {} is {:?}, was {:?}", v, short(&c), short(&t));
    }
    cx.count("commands", switches);
    cx.count("views_opened", opened);
    cx.key(cx.trace_hash(), switches > 5);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new("C20", "a history with several undone steps", vec![
            Suite { name: "exact", f: exact, quick: 6000, thorough: 150000 },
            Suite { name: "any", f: any, quick: 3000, thorough: 60000 },
            Suite { name: "recording", f: recording, quick: 6000, thorough: 150000 },
            Suite { name: "recording_undo", f: recording_undo, quick: 2500, thorough: 60000 },
        ]),
        Prop::new("C22", "a session with more than five commands spread over several buffers", vec![
            Suite { name: "isolation", f: isolation, quick: 6000, thorough: 150000 },
        ]),
    ]
}
