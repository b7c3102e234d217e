//! An independent model of the editor: a plain string, a list of directed
//! regions, and every edit command as a function on them.
use serde_json::Value;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Reg {
    pub s: usize,
    pub e: usize,
    pub h: Option<usize>,
}

impl Reg {
    pub fn new(s: usize, e: usize) -> Reg {
        Reg { s, e, h: None }
    }
    pub fn caret(o: usize) -> Reg {
        Reg::new(o, o)
    }
    pub fn min(self) -> usize {
        self.s.min(self.e)
    }
    pub fn max(self) -> usize {
        self.s.max(self.e)
    }
    pub fn is_caret(self) -> bool {
        self.s == self.e
    }
}

/// "Two non-caret regions merge if their interiors intersect; a caret merges with a
/// non-caret if it is in the interior or on either edge; two carets merge if equal."
fn merges(a: Reg, b: Reg) -> bool {
    if a.is_caret() || b.is_caret() {
        a.min() <= b.max() && b.min() <= a.max()
    } else {
        a.min() < b.max() && b.min() < a.max()
    }
}

pub fn add(v: &mut Vec<Reg>, r: Reg) {
    let mut r = r;
    while let Some(i) = v.iter().position(|q| merges(*q, r)) {
        let q = v.remove(i);
        let (a, b) = (r.min().min(q.min()), r.max().max(q.max()));
        r = if r.e >= r.s { Reg::new(a, b) } else { Reg::new(b, a) };
    }
    let i = v.iter().position(|q| q.min() >= r.max() && (q.min(), q.max()) > (r.min(), r.max())).unwrap_or(v.len());
    v.insert(i, r);
}

#[derive(Clone, Debug)]
pub struct Conf {
    pub tab: usize,
    pub spaces: bool,
    pub stops: bool,
    pub ending: String,
    pub pairs: Vec<(String, String)>,
}

impl Conf {
    pub fn of(v: &serde_json::Map<String, Value>) -> Conf {
        Conf {
            tab: v["tab_size"].as_u64().unwrap() as usize,
            spaces: v["translate_tabs_to_spaces"].as_bool().unwrap(),
            stops: v["use_tab_stops"].as_bool().unwrap(),
            ending: v["line_ending"].as_str().unwrap().into(),
            pairs: v["surrounding_pairs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string()))
                .collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub regs: Vec<Reg>,
    pub kill: String,
    pub height: usize,
    pub drag: Option<(Vec<Reg>, usize, usize, Gran)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gran {
    Point,
    Word,
    Line,
}

#[derive(Clone, Copy, PartialEq)]
enum Drift {
    Default,
    Inside,
    Outside,
}

#[derive(PartialEq, Debug)]
pub enum Outcome {
    /// the model state is what the editor must show
    Exact,
    /// the selection (or direction) is not determined by the model; the text is
    Text,
    /// not modelled
    Open,
}

// ---- text geometry

pub fn starts(t: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(t.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1));
    v
}

pub fn line_of(t: &str, o: usize) -> usize {
    t.as_bytes()[..o.min(t.len())].iter().filter(|b| **b == b'\n').count()
}

pub fn start_of(t: &str, l: usize) -> usize {
    starts(t).get(l).copied().unwrap_or(t.len())
}

pub fn prev_g(t: &str, o: usize) -> Option<usize> {
    t.grapheme_indices(true).map(|g| g.0).take_while(|i| *i < o).last()
}

pub fn next_g(t: &str, o: usize) -> Option<usize> {
    if o >= t.len() {
        return None;
    }
    Some(t.grapheme_indices(true).map(|g| g.0).find(|i| *i > o).unwrap_or(t.len()))
}

pub fn offset_of(t: &str, line: usize, col: usize) -> usize {
    let mut o = start_of(t, line).saturating_add(col);
    if o >= t.len() {
        o = t.len();
        if line_of(t, o) <= line {
            return o;
        }
    } else {
        o = prev_g(t, o + 1).unwrap_or(0);
    }
    let next = start_of(t, line + 1);
    if o >= next {
        o = prev_g(t, next).unwrap_or(o);
    }
    o
}

fn col_of(t: &str, o: usize) -> usize {
    o - start_of(t, line_of(t, o))
}

// ---- words

#[derive(Clone, Copy, PartialEq)]
enum P {
    Lf,
    Space,
    Punct,
    Other,
}

fn prop(c: char) -> P {
    match c {
        '\n' => P::Lf,
        c if c <= ' ' => P::Space,
        '!' | '"' | '#' | '$' | '%' | '&' | '\'' | '(' | ')' | '*' | '+' | ',' | '-' | '.' | '/' | ':' | ';' | '<' | '=' | '>' | '?' | '@' | '[' | '\\' | ']' | '^' | '`' | '{' | '|' | '}' | '~' => P::Punct,
        _ => P::Other,
    }
}

/// (a word starts here, a word ends here)
fn bound(a: P, b: P) -> (bool, bool) {
    use P::*;
    match (a, b) {
        (Lf, _) | (_, Lf) => (true, true),
        (Space, Other) | (Space, Punct) | (Punct, Other) => (true, false),
        (Other, Space) | (Punct, Space) | (Other, Punct) => (false, true),
        _ => (false, false),
    }
}

fn bound0(a: P, b: P) -> (bool, bool) {
    use P::*;
    match (a, b) {
        (Lf, Other) => (true, false),
        (Other, Lf) => (false, true),
        (Lf, Space) | (Lf, Punct) | (Space, Lf) | (Punct, Lf) | (Space, Punct) | (Punct, Space) => (false, false),
        _ => bound(a, b),
    }
}

pub fn prev_word(t: &str, o: usize) -> Option<usize> {
    let cs: Vec<(usize, P)> = t[..o].char_indices().map(|c| (c.0, prop(c.1))).collect();
    let mut i = cs.len().checked_sub(1)?;
    while i > 0 && !bound(cs[i - 1].1, cs[i].1).0 {
        i -= 1;
    }
    Some(cs[i].0)
}

pub fn next_word(t: &str, o: usize) -> Option<usize> {
    let cs: Vec<(usize, P)> = t[o..].char_indices().map(|c| (o + c.0, prop(c.1))).collect();
    if cs.is_empty() {
        return None;
    }
    let mut i = 1;
    while i < cs.len() && !bound(cs[i - 1].1, cs[i].1).1 {
        i += 1;
    }
    Some(cs.get(i).map_or(t.len(), |c| c.0))
}

pub fn select_word(t: &str, o: usize) -> (usize, usize) {
    // positions k = 0..=n between codepoints
    let cs: Vec<(usize, P)> = t.char_indices().map(|c| (c.0, prop(c.1))).collect();
    let n = cs.len();
    let k0 = t[..o].chars().count();
    let at = |k: usize| if k >= n { t.len() } else { cs[k].0 };
    let b0 = if k0 > 0 && k0 < n { bound0(cs[k0 - 1].1, cs[k0].1) } else { (true, true) };
    let is_b = b0.0 || b0.1;
    let mut s = k0;
    if k0 == n && n > 0 {
        s = k0 - 1;
    }
    while s > 0 {
        let b = bound(cs[s - 1].1, cs[s].1);
        let stop = if s == k0 {
            b0.0
        } else if !is_b {
            b.0 || b.1
        } else {
            b.0
        };
        if stop {
            break;
        }
        s -= 1;
    }
    let mut e = k0;
    if k0 == 0 && n > 0 {
        e = 1;
    }
    while e < n && e > 0 {
        let b = bound(cs[e - 1].1, cs[e].1);
        let stop = if e == k0 {
            b0.1
        } else if !is_b {
            b.0 || b.1
        } else {
            b.1
        };
        if stop {
            break;
        }
        e += 1;
    }
    (at(s), at(e))
}

// ---- edits

/// Where offset `x` is after `ed` (sorted, disjoint); `after` = behind text inserted at x.
fn moved(ed: &[(usize, usize, String)], len: usize, x: usize, after: bool) -> usize {
    if x == 0 && !after {
        return 0;
    }
    let mut els: Vec<Result<(usize, usize), usize>> = Vec::new();
    let mut at = 0;
    for (a, b, s) in ed {
        if *a > at {
            els.push(Ok((at, *a)));
        }
        if !s.is_empty() {
            els.push(Err(s.len()));
        }
        at = *b;
    }
    if at < len {
        els.push(Ok((at, len)));
    }
    let mut res = 0;
    for el in els {
        match el {
            Ok((b, e)) => {
                if x <= b {
                    return res;
                }
                if x < e || (x == e && !after) {
                    return res + x - b;
                }
                res += e - b;
            }
            Err(n) => res += n,
        }
    }
    res
}

impl Doc {
    pub fn new(height: usize) -> Doc {
        Doc { text: String::new(), regs: vec![Reg::caret(0)], kill: String::new(), height, drag: None }
    }

    fn edit(&mut self, ed: Vec<(usize, usize, String)>, drift: Drift) {
        let mut new = String::new();
        let mut at = 0;
        for (a, b, s) in &ed {
            new.push_str(&self.text[at..*a]);
            new.push_str(s);
            at = *b;
        }
        new.push_str(&self.text[at..]);
        if ed.iter().all(|(a, b, s)| a == b && s.is_empty()) {
            return; // nothing changes
        }
        let mut regs = Vec::new();
        for r in &self.regs {
            let fwd = r.s < r.e;
            let (sa, ea) = match (drift, r.is_caret()) {
                (Drift::Inside, false) => (!fwd, fwd),
                (Drift::Outside, false) => (fwd, !fwd),
                _ => (true, true),
            };
            let n = self.text.len();
            add(&mut regs, Reg::new(moved(&ed, n, r.s, sa), moved(&ed, n, r.e, ea)));
        }
        self.text = new;
        self.regs = regs;
        self.drag = None;
    }

    fn movement(&self, m: &str, r: Reg, modify: bool) -> (usize, Option<usize>) {
        let t = &self.text[..];
        let last = line_of(t, t.len());
        match m {
            "left" => {
                if r.is_caret() || modify {
                    prev_g(t, r.e).map_or((0, r.h), |o| (o, None))
                } else {
                    (r.min(), None)
                }
            }
            "right" => {
                if r.is_caret() || modify {
                    next_g(t, r.e).map_or((r.e, r.h), |o| (o, None))
                } else {
                    (r.max(), None)
                }
            }
            "word_left" => (prev_word(t, r.e).unwrap_or(0), None),
            "word_right" => (next_word(t, r.e).unwrap_or(t.len()), None),
            "line_start" => (start_of(t, line_of(t, r.e)), None),
            "line_end" => {
                let l = line_of(t, r.e);
                (if l < last { prev_g(t, start_of(t, l + 1)).unwrap_or(t.len()) } else { t.len() }, None)
            }
            "para_start" => (starts(t).into_iter().filter(|s| *s < r.e).last().unwrap_or(0), None),
            "para_end" => {
                let nl = starts(t).into_iter().find(|s| *s > r.e);
                (nl.map_or(t.len(), |n| prev_g(t, n).unwrap_or(r.e)), None)
            }
            "para_kill" => {
                let nl = starts(t).into_iter().find(|s| *s > r.e);
                match nl {
                    Some(n) => {
                        let eol = prev_g(t, n).unwrap_or(n);
                        (if eol != r.e { eol } else { n }, None)
                    }
                    None => (t.len(), None),
                }
            }
            "doc_start" => (0, None),
            "doc_end" => (t.len(), None),
            "up" => self.vertical(r, -1, modify),
            "down" => self.vertical(r, 1, modify),
            "page_up" => self.vertical(r, -(self.height as i64 - 2).max(1), modify),
            "page_down" => self.vertical(r, (self.height as i64 - 2).max(1), modify),
            _ => unreachable!("{}", m),
        }
    }

    fn active(&self, r: Reg, up: bool, modify: bool) -> (usize, usize) {
        let o = if modify {
            r.e
        } else if up {
            r.min()
        } else {
            r.max()
        };
        (r.h.unwrap_or_else(|| col_of(&self.text, o)), line_of(&self.text, o))
    }

    fn vertical(&self, r: Reg, d: i64, modify: bool) -> (usize, Option<usize>) {
        let t = &self.text[..];
        let (col, line) = self.active(r, d < 0, modify);
        let l = line as i64 + d;
        if l < 0 {
            return (0, Some(col));
        }
        if l as usize > line_of(t, t.len()) {
            return (t.len(), Some(col));
        }
        (offset_of(t, l as usize, col), Some(col))
    }

    /// Next line in that direction long enough for the column.
    fn exact(&self, r: Reg, up: bool) -> (usize, Option<usize>) {
        let t = &self.text[..];
        let (col, first) = self.active(r, up, false);
        let st = starts(t);
        let last = st.len() - 1;
        let len = |l: usize| st.get(l + 1).copied().unwrap_or(t.len()) - st.get(l).copied().unwrap_or(t.len());
        let h = if up && first == 0 { col } else if len(first) < col { len(first).saturating_sub(1) } else { col };
        if up && first == 0 {
            return (offset_of(t, 0, col), Some(col));
        }
        let mut l = first as i64;
        let target = loop {
            l += if up { -1 } else { 1 };
            if l < 0 || l as usize > last {
                break first;
            }
            if len(l as usize) > h {
                break l as usize;
            }
            if (up && l == 0) || (!up && l as usize == last) || l as usize >= last {
                break first;
            }
        };
        (offset_of(t, target, h), Some(h))
    }

    fn do_move(&mut self, m: &str, modify: bool) {
        self.drag = None;
        let mut v = Vec::new();
        for r in self.regs.clone() {
            let (o, h) = self.movement(m, r, modify);
            add(&mut v, Reg { s: if modify { r.s } else { o }, e: o, h });
        }
        self.regs = v;
    }

    fn del_move(&mut self, m: &str, kill: bool) {
        let mut d: Vec<Reg> = Vec::new();
        for r in self.regs.clone() {
            if r.is_caret() {
                let (o, _) = self.movement(m, r, true);
                add(&mut d, Reg::new(r.s, o));
            } else {
                add(&mut d, r);
            }
        }
        if kill {
            self.kill = self.joined(&d).unwrap_or_default();
        }
        let ed = d.iter().filter(|r| !r.is_caret()).map(|r| (r.min(), r.max(), String::new())).collect();
        self.edit(ed, Drift::Default);
    }

    fn joined(&self, d: &[Reg]) -> Option<String> {
        let v: Vec<&str> = d.iter().filter(|r| !r.is_caret()).map(|r| &self.text[r.min()..r.max()]).collect();
        if v.is_empty() {
            None
        } else {
            Some(v.join("\n"))
        }
    }

    pub fn copied(&self) -> Option<String> {
        self.joined(&self.regs)
    }

    pub fn cut(&mut self) {
        let ed = self.regs.iter().filter(|r| !r.is_caret()).map(|r| (r.min(), r.max(), String::new())).collect();
        self.edit(ed, Drift::Default);
    }

    fn replace_all_regs(&mut self, f: impl Fn(&str, Reg) -> String, drift: Drift) {
        let ed = self.regs.iter().map(|r| (r.min(), r.max(), f(&self.text[r.min()..r.max()], *r))).collect();
        self.edit(ed, drift);
    }

    fn lines_of(&self, r: Reg) -> std::ops::Range<usize> {
        let t = &self.text[..];
        let a = line_of(t, r.min());
        let mut b = line_of(t, r.max());
        if b > a && col_of(t, r.max()) == 0 {
            b -= 1;
        }
        a..b + 1
    }

    fn tab_text(&self, c: &Conf, n: usize) -> String {
        if c.spaces {
            " ".repeat(n)
        } else {
            "\t".into()
        }
    }

    fn unit(&self, o: usize, g: Gran) -> (usize, usize) {
        match g {
            Gran::Point => (o, o),
            Gran::Word => select_word(&self.text, o),
            Gran::Line => {
                let l = line_of(&self.text, o);
                (start_of(&self.text, l), start_of(&self.text, l + 1))
            }
        }
    }

    fn range(&self, st: (usize, usize), o: usize, g: Gran) -> Reg {
        let (a, b) = self.unit(o, g);
        if o >= st.0 {
            Reg::new(st.0, b)
        } else {
            Reg::new(st.1, a)
        }
    }

    fn gesture(&mut self, p: &Value) -> Outcome {
        let o = offset_of(&self.text, p["line"].as_u64().unwrap() as usize, p["col"].as_u64().unwrap() as usize);
        let ty = &p["ty"];
        let gran = |v: &Value| match v["granularity"].as_str() {
            Some("word") => Gran::Word,
            Some("line") => Gran::Line,
            _ => Gran::Point,
        };
        let (sel, ext) = match ty.as_str() {
            Some("point_select") => (Some((Gran::Point, false)), None),
            Some("toggle_sel") => (Some((Gran::Point, true)), None),
            Some("word_select") => (Some((Gran::Word, false)), None),
            Some("multi_word_select") => (Some((Gran::Word, true)), None),
            Some("line_select") => (Some((Gran::Line, false)), None),
            Some("multi_line_select") => (Some((Gran::Line, true)), None),
            Some("range_select") => (None, Some(Gran::Point)),
            Some("drag") => (None, None),
            _ if ty.get("select").is_some() => (Some((gran(&ty["select"]), ty["select"]["multi"].as_bool().unwrap())), None),
            _ => (None, Some(gran(&ty["select_extend"]))),
        };
        if let Some((g, multi)) = sel {
            if multi && g == Gran::Point {
                let hit: Vec<usize> = (0..self.regs.len()).filter(|i| self.regs[*i].min() <= o && o <= self.regs[*i].max()).collect();
                if !hit.is_empty() {
                    if hit.len() > 1 {
                        return Outcome::Open; // the edge of two regions
                    }
                    if self.regs.len() > 1 {
                        self.regs.remove(hit[0]);
                        self.drag = None;
                        return Outcome::Exact;
                    }
                }
            }
            let (a, b) = self.unit(o, g);
            let base = if multi { self.regs.clone() } else { vec![] };
            let mut v = base.clone();
            add(&mut v, Reg::new(a, b));
            self.regs = v;
            self.drag = Some((base, a, b, g));
        } else if let Some(g) = ext {
            let last = *self.regs.last().unwrap();
            let base: Vec<Reg> = self.regs[..self.regs.len() - 1].to_vec();
            let r = self.range((last.s, last.s), o, g);
            let mut v = base.clone();
            add(&mut v, r);
            self.regs = v;
            self.drag = Some((base, last.s, last.s, g));
        } else if let Some((base, a, b, g)) = self.drag.clone() {
            let r = self.range((a, b), o, g);
            let mut v = base;
            add(&mut v, r);
            self.regs = v;
        }
        Outcome::Exact
    }

    /// What backspace removes before a caret: None if the model leaves it open.
    fn backspace(&self, c: &Conf, o: usize) -> Option<usize> {
        let t = &self.text[..];
        if o == 0 {
            return Some(0);
        }
        if c.spaces && c.stops {
            let off = col_of(t, o) % c.tab;
            let n = if off == 0 { c.tab } else { off };
            let a = o.saturating_sub(n);
            if t.as_bytes()[a..o].iter().all(|b| *b == b' ') {
                return Some(a);
            }
        }
        let before = &t[..o];
        let g = before.graphemes(true).last().unwrap();
        let n = g.chars().count();
        let ri = |c: char| ('\u{1F1E6}'..='\u{1F1FF}').contains(&c);
        let c0 = before.chars().last().unwrap();
        if g == "\r\n" || g == "\n" {
            return Some(o - g.len());
        }
        if ri(c0) {
            // a flag is a pair, counted from the caret in a run of indicators
            let run = before.chars().rev().take_while(|c| ri(*c)).count();
            return Some(o - if run % 2 == 0 { 8 } else { 4 });
        }
        if n == 1 && (c0 as u32) < 0x300 {
            return Some(o - c0.len_utf8());
        }
        if g == "👨‍👩‍👧" || g == "👍🏽" || g == "❤️" || g == "1⃣" {
            return Some(o - g.len());
        }
        if n == 1 && ('\u{3040}'..='\u{9FFF}').contains(&c0) {
            return Some(o - c0.len_utf8());
        }
        if n == 2 && c0 == '\u{301}' {
            return Some(o - 2); // the accent goes first
        }
        None
    }

    /// Applies one command.
    pub fn apply(&mut self, c: &Conf, cmd: &str, p: &Value) -> Outcome {
        let (base, modify) = match cmd.strip_suffix("_and_modify_selection") {
            Some(b) => (b, true),
            None => (cmd, false),
        };
        let mv = match base {
            "move_left" | "move_backward" => "left",
            "move_right" | "move_forward" => "right",
            "move_up" => "up",
            "move_down" => "down",
            "move_word_left" => "word_left",
            "move_word_right" => "word_right",
            "move_to_beginning_of_paragraph" => "para_start",
            "move_to_end_of_paragraph" => "para_end",
            "move_to_left_end_of_line" => "line_start",
            "move_to_right_end_of_line" => "line_end",
            "move_to_beginning_of_document" => "doc_start",
            "move_to_end_of_document" => "doc_end",
            "scroll_page_up" | "page_up" => "page_up",
            "scroll_page_down" | "page_down" => "page_down",
            _ => "",
        };
        if !mv.is_empty() {
            self.do_move(mv, modify);
            return Outcome::Exact;
        }
        match cmd {
            "select_all" => self.regs = vec![Reg::new(0, self.text.len())],
            "collapse_selections" => self.regs = vec![Reg { s: self.regs[0].e, ..self.regs[0] }],
            "add_selection_above" | "add_selection_below" => {
                let up = cmd == "add_selection_above";
                let mut v = Vec::new();
                for r in self.regs.clone() {
                    add(&mut v, r);
                    let (o, h) = self.exact(r, up);
                    add(&mut v, Reg { s: o, e: o, h });
                }
                self.regs = v;
            }
            "selection_into_lines" => {
                let mut v = Vec::new();
                for r in &self.regs {
                    if r.is_caret() {
                        add(&mut v, Reg::caret(r.e));
                        continue;
                    }
                    let mut at = r.min();
                    while at < r.max() {
                        let next = self.text[at..].find('\n').map_or(self.text.len(), |i| at + i + 1);
                        let mut e = next.min(r.max());
                        if self.text[at..e].ends_with('\n') {
                            e -= 1;
                            if self.text[at..e].ends_with('\r') {
                                e -= 1;
                            }
                        }
                        add(&mut v, Reg::new(at, e));
                        at = next;
                    }
                }
                self.regs = v;
            }
            "goto_line" => self.regs = vec![Reg::caret(offset_of(&self.text, p["line"].as_u64().unwrap() as usize, 0))],
            "gesture" => return self.gesture(p),
            "insert" => {
                let s = p["chars"].as_str().unwrap();
                if let (Some(pair), false) = (c.pairs.iter().find(|q| q.0 == s), self.regs.iter().any(|r| r.is_caret())) {
                    let pair = pair.clone();
                    let mut ed = Vec::new();
                    for r in &self.regs {
                        ed.push((r.min(), r.min(), pair.0.clone()));
                        ed.push((r.max(), r.max(), pair.1.clone()));
                    }
                    self.edit(ed, Drift::Outside);
                } else {
                    self.replace_all_regs(|_, _| s.to_string(), Drift::Default);
                }
            }
            "paste" => {
                let s = p["chars"].as_str().unwrap();
                let lines = 1 + s.bytes().filter(|b| *b == b'\n').count() - s.ends_with('\n') as usize;
                if self.regs.len() > 1 && self.regs.len() == lines {
                    let ls: Vec<&str> = s.lines().collect();
                    let ed = self.regs.iter().zip(ls).map(|(r, l)| (r.min(), r.max(), l.to_string())).collect();
                    self.edit(ed, Drift::Default);
                } else {
                    self.replace_all_regs(|_, _| s.to_string(), Drift::Default);
                }
            }
            "yank" => {
                let k = self.kill.clone();
                self.replace_all_regs(|_, _| k.clone(), Drift::Default);
            }
            "insert_newline" => {
                let e = c.ending.clone();
                self.replace_all_regs(|_, _| e.clone(), Drift::Default);
            }
            "uppercase" => self.replace_all_regs(|s, _| s.to_uppercase(), Drift::Default),
            "lowercase" => self.replace_all_regs(|s, _| s.to_lowercase(), Drift::Default),
            "insert_tab" => {
                let mut ed = std::collections::BTreeSet::new();
                for r in &self.regs {
                    let ls = self.lines_of(*r);
                    if ls.len() > 1 {
                        for l in ls {
                            let o = start_of(&self.text, l);
                            ed.insert((o, o, self.tab_text(c, c.tab)));
                        }
                    } else {
                        let n = c.tab - col_of(&self.text, r.min()) % c.tab;
                        ed.insert((r.min(), r.max(), self.tab_text(c, n)));
                    }
                }
                let ed: Vec<_> = ed.into_iter().collect();
                if ed.windows(2).any(|w| w[0].1 > w[1].0) {
                    return Outcome::Open;
                }
                self.edit(ed, Drift::Default);
            }
            "indent" | "outdent" => {
                let ls: std::collections::BTreeSet<usize> = self.regs.iter().flat_map(|r| self.lines_of(*r)).collect();
                let tt = self.tab_text(c, c.tab);
                let mut ed = Vec::new();
                for l in ls {
                    let o = start_of(&self.text, l);
                    let line = &self.text[o..start_of(&self.text, l + 1)];
                    let line = line.trim_end_matches('\n').trim_end_matches('\r');
                    if cmd == "outdent" && !line.is_ascii() {
                        return Outcome::Open;
                    }
                    if cmd == "indent" {
                        ed.push((o, o, tt.clone()));
                    } else if line.starts_with(&tt) {
                        ed.push((o, o + tt.len(), String::new()));
                    } else {
                        // white space within the first tab-text's width, if text follows in it
                        let mut w = tt.len().min(line.len());
                        while !line.is_char_boundary(w) {
                            w -= 1;
                        }
                        if let Some(n) = line[..w].find(|c: char| !c.is_whitespace()) {
                            ed.push((o, o + n, String::new()));
                        }
                    }
                }
                self.edit(ed, Drift::Default);
            }
            "duplicate_line" => {
                let mut set = std::collections::BTreeSet::new();
                for r in &self.regs {
                    let a = start_of(&self.text, line_of(&self.text, r.min()));
                    let b = start_of(&self.text, line_of(&self.text, r.max()) + 1);
                    if b > a {
                        set.insert((a, b));
                    }
                }
                let mut ed: Vec<(usize, usize, String)> = Vec::new();
                for (a, b) in set {
                    let mut s = self.text[a..b].to_string();
                    if !s.ends_with('\n') {
                        s.push_str(&c.ending);
                    }
                    ed.push((a, a, s));
                }
                self.edit(ed, Drift::Default);
            }
            "delete_forward" => self.del_move("right", false),
            "delete_word_forward" => self.del_move("word_right", false),
            "delete_word_backward" => self.del_move("word_left", false),
            "delete_to_end_of_paragraph" => self.del_move("para_kill", true),
            "delete_to_beginning_of_line" => self.del_move("line_start", false),
            "delete_backward" => {
                let mut ed = Vec::new();
                let mut last = 0;
                for r in &self.regs {
                    let a = if r.is_caret() {
                        match self.backspace(c, r.e) {
                            Some(a) => a,
                            None => return Outcome::Open,
                        }
                    } else {
                        r.min()
                    };
                    let a = a.max(last);
                    if a < r.max() {
                        ed.push((a, r.max(), String::new()));
                        last = r.max();
                    }
                }
                self.edit(ed, Drift::Default);
            }
            "increase_number" | "decrease_number" => {
                let mut ed: Vec<(usize, usize, String)> = Vec::new();
                for r in &self.regs {
                    let (mut a, b) = select_word(&self.text, r.e);
                    if a > 0 && self.text.as_bytes()[a - 1] == b'-' {
                        a -= 1;
                    }
                    if ed.last().map_or(false, |e| a < e.1) {
                        continue;
                    }
                    let n = self.text[a..b].parse::<i128>().ok();
                    let n = n.and_then(|n| if cmd == "increase_number" { n.checked_add(1) } else { n.checked_sub(1) });
                    if let Some(n) = n {
                        ed.push((a, b, n.to_string()));
                    }
                }
                self.edit(ed, Drift::Default);
            }
            "capitalize" => {
                let mut ed: Vec<(usize, usize, String)> = Vec::new();
                let mut fin = Vec::new();
                for r in self.regs.clone() {
                    add(&mut fin, Reg::caret(r.max()));
                    // every word the region reaches into
                    let mut at = r.min();
                    loop {
                        let (a, b) = select_word(&self.text, at);
                        if a < b && ed.last().map_or(true, |e| a >= e.1) {
                            let w = &self.text[a..b];
                            let n = w.chars().next().unwrap().len_utf8();
                            ed.push((a, b, w[..n].to_uppercase() + &w[n..].to_lowercase()));
                        }
                        // on to the end of the next word
                        match next_word(&self.text, b) {
                            Some(n) if b <= r.max() => at = n,
                            _ => break,
                        }
                    }
                }
                self.regs = fin;
                self.edit(ed, Drift::Default);
            }
            "transpose" => {
                if self.regs.len() == 1 && self.regs[0].is_caret() {
                    let t = &self.text[..];
                    let m = self.regs[0].e;
                    let a = prev_g(t, m).unwrap_or(0);
                    let b = next_g(t, m).unwrap_or(m);
                    let at_eol = b != t.len() && (b == m || b == start_of(t, line_of(t, b)));
                    let (a, m, b) = if at_eol { (prev_g(t, a).unwrap_or(0), a, m) } else { (a, m, b) };
                    let s = format!("{}{}", &t[m..b], &t[a..m]);
                    self.edit(vec![(a, b, s)], Drift::Inside);
                    return Outcome::Text;
                }
                if self.regs.iter().any(|r| r.is_caret()) {
                    return Outcome::Open;
                }
                let n = self.regs.len();
                let olds: Vec<String> = self.regs.iter().map(|r| self.text[r.min()..r.max()].to_string()).collect();
                let ed = (0..n).map(|i| (self.regs[i].min(), self.regs[i].max(), olds[(i + n - 1) % n].clone())).collect();
                self.edit(ed, Drift::Inside);
                return Outcome::Text;
            }
            _ => return Outcome::Open,
        }
        Outcome::Exact
    }
}
