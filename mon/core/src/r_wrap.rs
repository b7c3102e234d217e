//! Soft wrapping: the visual lines are those a straightforward wrapping of the whole
//! text gives, whatever edits, resizes and settings led there.
use crate::drive::*;
use crate::mirror::*;
use crate::ops;
use crate::sync::*;
use crate::uax::uax14;
use monlib::*;
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    None,
    /// columns of one code point each
    Cols(usize),
    /// measured by the frontend
    Px(f64),
}

/// Words: ends of the pieces between break opportunities, and whether the break is mandatory.
fn words(t: &str) -> Vec<(usize, bool)> {
    let chars: Vec<(usize, char)> = t.char_indices().collect();
    let cls: Vec<u8> = chars.iter().map(|c| xi_unicode::linebreak_property(c.1)).collect();
    let mut v = Vec::new();
    for (i, b) in uax14(&cls).iter().enumerate() {
        if let Some(hard) = b {
            v.push((chars[i + 1].0, *hard));
        }
    }
    if !t.is_empty() {
        v.push((t.len(), t.ends_with('\n')));
    }
    v
}

/// Starts of the visual lines: each takes as many words as fit, at least one.
pub fn visual(t: &str, mode: Mode, width: fn(&str) -> f64) -> Vec<usize> {
    let max = match mode {
        Mode::None => return line_starts(t),
        Mode::Cols(n) => n as f64,
        Mode::Px(w) => w,
    };
    let measure = |s: &str| if let Mode::Cols(_) = mode { s.chars().count() as f64 } else { width(s) };
    let mut out = vec![0];
    let mut used = 0.0;
    let mut at = 0;
    let mut start = 0;
    for (end, hard) in words(t) {
        let w = measure(&t[at..end]);
        if at > start && used > 0.0 && used + w > max {
            out.push(at);
            start = at;
            used = 0.0;
        }
        used += w;
        at = end;
        // a word which alone fills the line ends it, unless it is the last
        let full = start_is_word(used, w) && w >= max && !hard && end < t.len();
        if hard || full {
            out.push(end);
            start = end;
            used = 0.0;
        }
    }
    out
}

/// Everything on the line is this word (what came before has no width).
fn start_is_word(used: f64, w: f64) -> bool {
    used - w == 0.0
}

fn prose(r: &mut Rng, n: usize) -> String {
    if r.chance(1, 5) {
        return text::any(r, n);
    }
    let mut t = String::new();
    let para = *r.pick(&[3usize, 20, 100]);
    while t.len() < n {
        match r.below(14) {
            0..=6 => {
                for _ in 0..1 + r.below(9) {
                    t.push((b'a' + r.below(26) as u8) as char);
                }
            }
            7 => t.push_str(&"x".repeat(r.below(60))),
            8 => t.push_str(r.pick(&["日本語", "é", "👨‍👩‍👧", "🇩🇪🇫🇷", "и", "\u{301}", "\u{200b}", "\u{a0}", "\u{ad}"])),
            9 => t.push_str(r.pick(&["-", "--", "/", "(", ")", ", ", ". ", "?!", "$1.50", "%", "“", "”", "...", "a-b"])),
            10 => t.push_str(r.pick(&["\t", "  ", "      ", "\r\n", "\u{2028}", "\r", "\u{85}", "\u{c}"])),
            _ => {}
        }
        if r.below(para) == 0 {
            t.push('\n');
        } else {
            t.push(' ');
        }
    }
    t
}

struct Wrap {
    cols: usize,
    word_wrap: bool,
    width: f64,
}

impl Wrap {
    fn mode(&self) -> Mode {
        if self.word_wrap {
            Mode::Px(self.width)
        } else if self.cols == 0 {
            Mode::None
        } else {
            Mode::Cols(self.cols)
        }
    }
}

fn check(cx: &mut Cx, s: &mut Sess, v: &str, w: &Wrap) -> Result<(String, Vec<usize>), Fail> {
    let text = s.contents(cx, v)?;
    let width = s.st.lock().unwrap().width;
    let starts = visual(&text, w.mode(), width);
    let m = &s.views[v];
    if m.lines.len() != starts.len() {
        // say where
        let (t, got) = check_any_view(cx, s, v)?;
        let i = (0..got.len()).find(|i| starts.get(*i) != Some(&got[*i])).unwrap_or(got.len());
        let from = if i > 0 { got[i - 1] } else { 0 };
        return Err(Fail::new(
            "wrap-line-count",
            format!("{:?}: {} visual lines, should be {}; after the line at {} ({:?}) the next begins at {:?}, should be {:?}", w.mode(), got.len(), starts.len(), from, short(&&t[from..]), got.get(i), starts.get(i)),
        ));
    }
    let logical = line_starts(&text);
    let ln: Vec<Option<usize>> = starts.iter().map(|o| logical.binary_search(o).ok().map(|k| k + 1)).collect();
    // a frontend asks for lines it must show and does not have
    let (w0, w1) = (m.window.0, m.window.1.min(m.lines.len()));
    if m.lag && w0 < w1 && m.lines[w0..w1].iter().any(|l| l.is_none()) {
        s.edit(cx, v, "request_lines", json!([w0, w1]))?;
    }
    check_lines(cx, s, v, &text, &starts, Some(&ln))?;
    cx.count("wraps_compared", 1);
    cx.count("soft_breaks_seen", (starts.len() - logical.len()) as u64);
    Ok((text, starts))
}

fn setting(cx: &mut Cx, s: &mut Sess, r: &mut Rng, v: &str, w: &mut Wrap) -> Result<(), Fail> {
    match r.below(6) {
        0 | 1 => {
            w.width = *r.pick(&[0, 1, 5, 10, 20, 33, 60, 100, 400]) as f64;
            s.edit(cx, v, "resize", json!({"width": w.width, "height": 100}))?;
        }
        2 | 3 => {
            w.cols = *r.pick(&[0, 1, 2, 8, 15, 20, 40, 80, 200]);
            s.notif(cx, "modify_user_config", json!({"domain": "general", "changes": {"wrap_width": w.cols}}))?;
        }
        4 => {
            w.word_wrap = !w.word_wrap;
            s.notif(cx, "modify_user_config", json!({"domain": {"user_override": v}, "changes": {"word_wrap": w.word_wrap}}))?;
        }
        _ => {
            w.word_wrap = r.bool();
            w.cols = *r.pick(&[0, 10, 30]);
            s.notif(cx, "modify_user_config", json!({"domain": {"user_override": v}, "changes": {"word_wrap": w.word_wrap}}))?;
            s.notif(cx, "modify_user_config", json!({"domain": "general", "changes": {"wrap_width": w.cols}}))?;
        }
    }
    Ok(())
}

fn session(cx: &mut Cx, doc: String, n: usize) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut s = Sess::start(cx)?;
    let mut w = Wrap { cols: 0, word_wrap: false, width: 0.0 };
    if r.chance(1, 3) {
        // the wrapping is on from the start
        w.word_wrap = r.bool();
        w.cols = *r.pick(&[0, 8, 30, 80]);
        s.notif(cx, "modify_user_config", json!({"domain": "general", "changes": {"word_wrap": w.word_wrap, "wrap_width": w.cols}}))?;
    }
    let file = s.open_file_of(cx, &mut r, &doc)?;
    let typed = file.is_none();
    let v = match file {
        Some(v) => v,
        None => s.new_view(cx, None)?,
    };
    let first = r.bool();
    if first {
        setting(cx, &mut s, &mut r, &v, &mut w)?;
    }
    if typed {
        s.do_edit(cx, &v, "insert", json!({ "chars": doc }))?;
    }
    if !first || r.bool() {
        setting(cx, &mut s, &mut r, &v, &mut w)?;
        s.settle(cx)?;
    }
    let mut text = doc;
    let mut starts = vec![0];
    if r.chance(1, 2) {
        s.do_edit(cx, &v, "scroll", json!([0, 100000]))?;
    }
    for _ in 0..n {
        match r.below(10) {
            0 => setting(cx, &mut s, &mut r, &v, &mut w)?,
            1 => {
                let p = prose(&mut r, 40);
                s.edit(cx, &v, "insert", json!({ "chars": p }))?;
            }
            2 => {
                let a = r.below(starts.len() + 3);
                let h = r.below(30);
                s.edit(cx, &v, "scroll", json!([a, a + h]))?;
            }
            _ => {
                let (m, p) = ops::any(&mut r, &text, starts.len());
                if m == "resize" {
                    w.width = p["width"].as_f64().unwrap();
                }
                s.edit(cx, &v, &m, p)?;
            }
        }
        if r.chance(3, 4) {
            s.settle(cx)?;
            if r.bool() {
                s.follow_scroll(cx, &v)?;
                s.settle(cx)?;
            }
            let (t, st) = if r.chance(1, 8) && s.views[&v].lines.len() < 800 {
                check(cx, &mut s, &v, &w)?;
                check_any_view(cx, &mut s, &v)?
            } else {
                check(cx, &mut s, &v, &w)?
            };
            text = t;
            starts = st;
            cx.state(mix(hash_str(&text), hash_str(&format!("{:?}", starts))));
        } else if r.bool() {
            // part of the way
            s.idle_once(cx)?;
            if s.views[&v].lines.len() > 800 {
                continue; // the core lets go of lines far from the window
            }
            check_any_view(cx, &mut s, &v)?;
            cx.count("unfinished_wraps_compared", 1);
        }
        if text.len() > 60_000 {
            break;
        }
    }
    s.settle(cx)?;
    check(cx, &mut s, &v, &w)?;
    cx.key(cx.trace_hash(), cx.counter("soft_breaks_seen") > 0);
    Ok(())
}

fn wrap(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let n = *r.pick(&[0, 30, 100, 300, 1000]);
    let doc = prose(&mut r, n);
    let n = 5 + r.below(if cx.thorough { 60 } else { 30 });
    cx.rng = r;
    session(cx, doc, n)
}

/// More lines than are wrapped in one go, more words than are measured in one go.
fn large(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let n = 4_000 + r.below(20_000);
    let doc = match r.below(5) {
        0 => "a b ".repeat(n / 4),
        1 => "word\n".repeat(n / 5),
        2 => "x".repeat(n),
        _ => prose(&mut r, n),
    };
    cx.rng = r;
    session(cx, doc, 4 + cx.rng.clone().below(6))
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C26", "a session in which soft line breaks were compared", vec![Suite { name: "wrap", f: wrap, quick: 24000, thorough: 150000 }, Suite { name: "large", f: large, quick: 600, thorough: 4000 }])]
}
