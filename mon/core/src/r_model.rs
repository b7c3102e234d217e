//! The editor in lockstep with the independent model.
use crate::drive::*;
use crate::mirror::line_starts;
use crate::model::*;
use crate::ops;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};

pub struct Lock {
    pub s: Sess,
    pub v: String,
    pub d: Doc,
    pub c: Conf,
    pub exact: u64,
    pub open: u64,
    gesture: bool,
    /// the last command ended any drag
    ended: bool,
}

pub fn rand_config(r: &mut Rng) -> Value {
    let mut c = json!({});
    if r.chance(1, 2) {
        c["tab_size"] = json!(1 + r.below(8));
    }
    if r.chance(1, 2) {
        c["translate_tabs_to_spaces"] = json!(r.bool());
    }
    if r.chance(1, 3) {
        c["use_tab_stops"] = json!(r.bool());
    }
    if r.chance(1, 3) {
        c["line_ending"] = json!(r.pick(&["\n", "\r\n"]));
    }
    c
}

impl Lock {
    pub fn new(cx: &mut Cx, doc: &str, conf: Value) -> Result<Lock, Fail> {
        let mut s = Sess::start(cx)?;
        if conf.as_object().map_or(false, |o| !o.is_empty()) {
            s.set_config(cx, json!("general"), conf)?;
        }
        let mut d = Doc::new(100_000);
        let mut r = Rng::new(cx.seed ^ 0x5eed);
        // a file's own line ending and indentation show in its configuration
        let (v, file) = match s.open_file_of(cx, &mut r, doc)? {
            Some(v) => (v, true),
            None => (s.new_view(cx, None)?, false),
        };
        let c = Conf::of(&s.config[&v]);
        s.do_edit(cx, &v, "scroll", json!([0, 100_000]))?;
        if file {
            d.text = doc.to_string();
        } else if !doc.is_empty() {
            let p = json!({ "chars": doc });
            s.do_edit(cx, &v, "insert", p.clone())?;
            d.apply(&c, "insert", &p);
        }
        let mut l = Lock { s, v, d, c, exact: 0, open: 0, gesture: false, ended: false };
        l.compare(cx, "insert", &Doc::new(1))?;
        Ok(l)
    }

    /// The text and selection the frontend sees: (text, regions, cursors).
    pub fn seen(&mut self, cx: &mut Cx) -> Result<(String, Vec<(usize, usize)>, Vec<usize>), Fail> {
        let v = self.v.clone();
        let (text, sel) = check_view(cx, &mut self.s, &v)?;
        let st = line_starts(&text);
        let mut cur = Vec::new();
        for (i, l) in self.s.views[&v].lines.iter().enumerate() {
            if let Some(l) = l {
                cur.extend(l.cursor.iter().map(|c| st[i] + c));
            }
        }
        cur.sort();
        Ok((text, sel, cur))
    }

    fn compare(&mut self, cx: &mut Cx, cmd: &str, before: &Doc) -> Result<(), Fail> {
        let (text, sel, cur) = self.seen(cx)?;
        ensure!(
            text == self.d.text,
            format!("edit-text:{}", cmd),
            "{} on {:?} with {:?} gave {:?}, want {:?}",
            cmd, short(&before.text), regs(&before.regs), short(&text), short(&self.d.text)
        );
        let want: Vec<(usize, usize)> = self.d.regs.iter().map(|r| (r.min(), r.max())).collect();
        ensure!(
            sel == want,
            format!("edit-selection:{}", cmd),
            "{} on {:?} with {:?} selects {:?}, want {:?} (text now {:?})",
            cmd, short(&before.text), regs(&before.regs), sel, want, short(&text)
        );
        let mut ends: Vec<usize> = self.d.regs.iter().map(|r| r.e).collect();
        ends.sort();
        ensure!(
            cur == ends,
            format!("edit-cursor:{}", cmd),
            "{} on {:?} with {:?} shows cursors {:?}, want {:?} (selection {:?})",
            cmd, short(&before.text), regs(&before.regs), cur, ends, sel
        );
        Ok(())
    }

    pub fn step(&mut self, cx: &mut Cx, cmd: &str, p: &Value) -> Result<(), Fail> {
        let v = self.v.clone();
        let before = self.d.clone();
        if cmd == "cut" || cmd == "copy" {
            let want = self.d.copied().map_or(Value::Null, Value::from);
            let got = self.s.edit_req(cx, &v, cmd)?;
            self.s.settle(cx)?;
            ensure!(got == want, format!("clipboard:{}", cmd), "{} gave {}, the selection is {}", cmd, got, want);
            if cmd == "cut" {
                self.d.cut();
            }
            self.exact += 1;
            return self.compare(cx, cmd, &before);
        }
        let page = cmd.contains("page_");
        if page {
            // page moves go by the height of the window
            let h = 1 + cx.rng.below(8);
            let first = cx.rng.below(4);
            self.s.do_edit(cx, &v, "scroll", json!([first, first + h]))?;
            self.d.height = h;
        }
        self.s.do_edit(cx, &v, cmd, p.clone())?;
        let mut out = self.d.apply(&self.c, cmd, p);
        if p["ty"] == "drag" && !self.gesture && !self.ended {
            out = Outcome::Open; // a drag without the click that starts it
        }
        if !before.regs.iter().all(|r| r.h.is_none()) && self.d.text == before.text && !cmd.starts_with("move") && !cmd.contains("page") && !cmd.contains("selection") && cmd != "gesture" && out == Outcome::Exact {
            out = Outcome::Text; // whether an edit that changes nothing keeps the sticky column is left open
        }
        self.gesture = cmd == "gesture" && out == Outcome::Exact;
        self.ended = out == Outcome::Exact && (cmd.starts_with("move_") || self.d.text != before.text || (self.ended && p["ty"] == "drag"));
        if self.ended {
            self.d.drag = None;
        }
        if page {
            self.s.do_edit(cx, &v, "scroll", json!([0, 100_000]))?;
        }
        match out {
            Outcome::Exact => {
                self.exact += 1;
                self.compare(cx, cmd, &before)
            }
            o => {
                self.open += 1;
                let (text, _, _) = self.seen(cx)?;
                if o == Outcome::Text {
                    ensure!(text == self.d.text, format!("edit-text:{}", cmd), "{} on {:?} with {:?} gave {:?}, want {:?}", cmd, short(&before.text), regs(&before.regs), short(&text), short(&self.d.text));
                }
                self.d.text = text;
                let st = line_starts(&self.d.text);
                let (l, c) = (cx.rng.below(st.len()), cx.rng.below(6));
                let p = json!({"line": l, "col": c, "ty": "point_select"});
                self.s.do_edit(cx, &v, "gesture", p.clone())?;
                self.d.regs = vec![Reg::caret(0)];
                self.d.drag = None;
                self.d.apply(&self.c, "gesture", &p);
                self.compare(cx, "gesture", &before)
            }
        }
    }
}

pub fn regs(v: &[Reg]) -> String {
    v.iter().map(|r| format!("{}→{}", r.s, r.e)).collect::<Vec<_>>().join(" ")
}

const EDITS: &[&str] = &[
    "delete_forward", "delete_backward", "delete_backward", "delete_word_forward", "delete_word_backward", "delete_to_end_of_paragraph",
    "delete_to_beginning_of_line", "insert_newline", "insert_tab", "insert_tab", "yank", "transpose", "uppercase", "lowercase",
    "capitalize", "indent", "outdent", "duplicate_line", "increase_number", "decrease_number", "cut", "copy",
];

fn numbers(r: &mut Rng, n: usize) -> String {
    let a = &["1", "9", "99", "-1", "-", " ", "\n", "0", "10", "a", "9223372036854775807", "+", "é", "00", "\t"];
    text::gen(r, a, n)
}

fn doc_for(r: &mut Rng) -> String {
    match r.below(6) {
        0 => numbers(r, 12),
        1 => {
            let k = r.below(8);
            (0..k).map(|_| format!("{}{}\n", r.pick(&["", "    ", "  ", "\t", "  \t", "        "]), ops::word(r).replace('\n', ""))).collect()
        }
        2 => text::any(r, 150),
        3 if r.chance(1, 4) => {
            let n = 1500 + r.below(2500);
            text::long(r, n)
        }
        _ => text::any(r, 30),
    }
}

fn pos(r: &mut Rng, lines: usize, ty: Value) -> (String, Value) {
    ("gesture".into(), json!({"line": r.below(lines), "col": r.below(9), "ty": ty}))
}

fn select(r: &mut Rng, lines: usize) -> (String, Value) {
    match r.below(7) {
        0 => (r.pick(ops::SELS).to_string(), Value::Null),
        1..=2 => (r.pick(ops::MOVES).to_string(), Value::Null),
        3 => ops::gesture(r, lines),
        4 => {
            let g = ops::granularity(r);
            pos(r, lines, json!({"select_extend": {"granularity": g}}))
        }
        _ => {
            let g = ops::granularity(r);
            pos(r, lines, json!({"select": {"granularity": g, "multi": true}}))
        }
    }
}

fn edits(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let doc = doc_for(&mut r);
    let conf = rand_config(&mut r);
    let mut l = Lock::new(cx, &doc, conf)?;
    let n = 4 + r.below(if cx.thorough { 50 } else { 25 });
    for _ in 0..n {
        let lines = line_starts(&l.d.text).len();
        let (m, p) = match r.below(10) {
            0..=3 => select(&mut r, lines),
            4..=5 => ("insert".to_string(), json!({"chars": if r.chance(1, 4) { r.pick(&["\"", "(", "{", "[", "'", "<"]).to_string() } else { ops::chars(&mut r) }})),
            6 => {
                let k = l.d.regs.len().max(1);
                let s: Vec<String> = (0..k + r.below(2)).map(|_| ops::word(&mut r).replace(|c: char| c == '\n' || c == '\r', "")).collect();
                ("paste".to_string(), json!({"chars": s.join("\n") + if r.chance(1, 3) { "\n" } else { "" }}))
            }
            _ => (r.pick(EDITS).to_string(), Value::Null),
        };
        let p = if m == "cut" || m == "copy" { json!({}) } else { p };
        l.step(cx, &m, &p)?;
        cx.state(mix(hash_str(&l.d.text), hash_str(&regs(&l.d.regs))));
        if l.d.text.len() > 6000 || l.d.regs.len() > 60 {
            break;
        }
    }
    cx.count("commands_exact", l.exact);
    cx.count("commands_text_only_or_open", l.open);
    cx.key(cx.trace_hash(), l.exact > 3);
    Ok(())
}

fn moves(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let doc = match r.below(4) {
        0 => text::any(&mut r, 400),
        1 => {
            let k = r.below(14);
            (0..k).map(|_| {
                let n = r.below(12);
                text::gen(&mut r, &["a", "b", " ", "é", "🎉", "_", ".", "(", "e\u{301}", "\t"], n) + r.pick(&["\n", "\n", "\r\n"])
            }).collect()
        }
        2 if r.chance(1, 4) => {
            let n = 1500 + r.below(2500);
            text::long(&mut r, n)
        }
        _ => text::any(&mut r, 60),
    };
    let mut l = Lock::new(cx, &doc, json!({}))?;
    let n = 8 + r.below(if cx.thorough { 60 } else { 30 });
    for _ in 0..n {
        let lines = line_starts(&l.d.text).len();
        let (m, p) = match r.below(12) {
            0..=5 => (r.pick(ops::MOVES).to_string(), Value::Null),
            6 => ("goto_line".to_string(), json!({"line": r.below(lines + 1)})),
            7 => ops::gesture(&mut r, lines),
            8 => pos(&mut r, lines, json!("drag")),
            _ => select(&mut r, lines),
        };
        l.step(cx, &m, &p)?;
        ensure!(l.d.text == doc, "move-changed-text", "{} changed the text", m);
        cx.state(mix(hash_str(&l.d.text), hash_str(&regs(&l.d.regs))));
        if l.d.regs.len() > 60 {
            break;
        }
    }
    cx.count("commands_exact", l.exact);
    cx.count("commands_open", l.open);
    cx.key(cx.trace_hash(), l.exact > 5);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new("C18", "a session with more than three edits of determined outcome", vec![Suite { name: "edits", f: edits, quick: 30000, thorough: 400000 }]),
        Prop::new("C19", "a session with more than five movements of determined outcome", vec![Suite { name: "moves", f: moves, quick: 30000, thorough: 400000 }]),
    ]
}
