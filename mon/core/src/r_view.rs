//! Frontend view in step with the document; no command makes the core fail.
use crate::drive::*;
use crate::mirror::*;
use crate::ops;
use crate::sync::*;
use monlib::*;
use serde_json::json;

/// Any commands, in any order; after each the mirror equals the document.
fn any_commands(cx: &mut Cx) -> Result<(), Fail> {
    let mut s = Sess::start(cx)?;
    let max = if cx.rng.chance(1, 4) { 400 } else { 40 };
    let mut r = cx.rng.clone();
    let doc = text::any(&mut r, max);
    let (v, _) = s.open_text(cx, &mut r, &doc)?;
    if r.chance(2, 3) {
        s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
    }
    let n = 5 + r.below(if cx.thorough { 80 } else { 40 });
    let mut text = doc;
    for _ in 0..n {
        let (m, p) = ops::any(&mut r, &text, line_starts(&text).len());
        s.edit(cx, &v, &m, p)?;
        if r.chance(3, 4) {
            s.settle(cx)?;
            if r.chance(1, 2) {
                s.follow_scroll(cx, &v)?;
            }
            let (t, sel) = check_view(cx, &mut s, &v)?;
            text = t;
            cx.state(mix(hash_str(&text), hash_str(&format!("{:?}", sel))));
        }
        if text.len() > 20_000 {
            break;
        }
    }
    s.settle(cx)?;
    check_view(cx, &mut s, &v)?;
    cx.count("commands", s.sent);
    cx.count("updates", s.updates);
    cx.count("idle_runs", s.idle_runs);
    let m = &s.views[&v];
    for (i, k) in ["copy", "skip", "invalidate", "ins", "update"].iter().enumerate() {
        cx.count(&format!("ops.{}", k), m.ops[i]);
    }
    cx.key(cx.trace_hash(), s.sent > 8);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C17", "a session with more than eight commands", vec![Suite { name: "any", f: any_commands, quick: 30000, thorough: 400000 }])]
}
