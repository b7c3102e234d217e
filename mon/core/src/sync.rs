//! The state the frontend shows must be the state of the document.
use crate::drive::*;
use crate::mirror::*;
use monlib::*;

/// Compares the mirror of `view` with the buffer; word wrap must be off (then the
/// visual lines are the logical ones). Returns (contents, selection regions known).
pub fn check_view(cx: &mut Cx, s: &mut Sess, view: &str) -> Result<(String, Vec<(usize, usize)>), Fail> {
    let text = s.contents(cx, view)?;
    let starts = line_starts(&text);
    // a frontend asks for lines it must show and does not have
    let m = &s.views[view];
    let (w0, w1) = (m.window.0, m.window.1.min(m.lines.len()));
    if m.lag && w0 < w1 && m.lines[w0..w1].iter().any(|l| l.is_none()) {
        s.edit(cx, view, "request_lines", serde_json::json!([w0, w1]))?;
        let m = &s.views[view];
        ensure!(m.lines.len() < w1 || m.lines[w0..w1].iter().all(|l| l.is_some()), "requested-line-missing", "lines {}..{} were requested but are missing", w0, w1);
        cx.count("lines_requested", 1);
    }
    let sel = check_lines(cx, s, view, &text, &starts, None)?;
    Ok((text, sel))
}

/// `starts`: offsets of the visual lines; `ln`: per visual line, whether it begins a logical line.
pub fn check_lines(cx: &mut Cx, s: &Sess, view: &str, text: &str, starts: &[usize], wrapped: Option<&[Option<usize>]>) -> Result<Vec<(usize, usize)>, Fail> {
    let m = &s.views[view];
    ensure_eq!(m.lines.len(), starts.len(), "view-line-count", "lines in the frontend's cache (after {} updates)", m.updates);
    let sel = m.selection(starts)?;
    // what the annotations tell is restricted to the window the core knows
    let mut prev_end = 0;
    let mut prev: Option<(usize, usize)> = None;
    for &(a, b) in &sel {
        ensure!(a <= b && b <= text.len(), "selection-out-of-text", "region {}..{} in a text of {} bytes", a, b, text.len());
        ensure!(text.is_char_boundary(a) && text.is_char_boundary(b), "selection-splits-char", "region {}..{} splits a character of {:?}", a, b, short(&text));
        if let Some(p) = prev {
            ensure!(a >= prev_end, "selection-overlap", "regions {:?} and {:?} overlap or are unordered", p, (a, b));
            ensure!((a, b) != p, "selection-duplicate", "region {:?} twice", p);
        }
        prev_end = b;
        prev = Some((a, b));
    }
    let mut cur_abs: Vec<usize> = Vec::new();
    let mut all_valid = true;
    let mut sel_i = 0;
    let ann_span = match (sel.first(), sel.last()) {
        (Some(f), Some(l)) => (f.0, l.1),
        _ => (0, 0),
    };
    let _ = ann_span;
    let mut valid = 0u64;
    for (i, l) in m.lines.iter().enumerate() {
        let a = starts[i];
        let b = starts.get(i + 1).copied().unwrap_or(text.len());
        let l = match l {
            Some(l) => l,
            None => {
                all_valid = false;
                continue;
            }
        };
        valid += 1;
        ensure!(l.text == text[a..b], "view-line-text", "line {} shows {:?}, the document has {:?}", i, short(&l.text), short(&&text[a..b]));
        let want_ln = match wrapped {
            None => Some(i + 1),
            Some(w) => w[i],
        };
        ensure!(l.ln == want_ln, "view-line-number", "line {} is numbered {:?}, want {:?}", i, l.ln, want_ln);
        for c in &l.cursor {
            cur_abs.push(a + c);
        }
        // selection style spans of this line
        while sel_i < sel.len() && sel[sel_i].1 <= a {
            sel_i += 1;
        }
        let (h0, h1) = shown(m, starts, text);
        if a >= h0 && b <= h1 && !m.lag {
            let mut want = Vec::new();
            for r in sel.iter().filter(|r| r.1 > a && r.0 < b) {
                let (x, y) = (r.0.max(a) - a, r.1.min(b) - a);
                if y > x {
                    want.push((x, y));
                }
            }
            let mut got: Vec<(usize, usize)> = l.styles.iter().filter(|t| t.2 == 0).map(|t| (t.0, t.1)).collect();
            got.sort();
            ensure!(got == want, "view-selection-spans", "line {} highlights {:?}, the selection covers {:?} (selection {:?})", i, got, want, short(&sel));
            for c in &l.cursor {
                let c = a + c;
                ensure!(sel.iter().any(|r| r.0 == c || r.1 == c), "view-stray-cursor", "line {} shows a cursor at offset {} but the selection is {:?}", i, c, short(&sel));
            }
        }
    }
    cx.count("lines_compared", valid);
    // every line of the window must be there
    let (w0, w1) = m.window;
    if w1 > w0 && !m.lag {
        for i in w0..w1.min(m.lines.len()) {
            ensure!(m.lines[i].is_some(), "view-visible-line-missing", "line {} is in the window {}..{} but missing in the cache", i, w0, w1);
        }
    }
    if all_valid && !m.lag && covers(m, starts.len()) {
        // each region shows exactly one cursor, at one of its ends
        let mut avail: std::collections::BTreeMap<usize, usize> = Default::default();
        for c in &cur_abs {
            *avail.entry(*c).or_insert(0) += 1;
        }
        for r in &sel {
            let mut ok = false;
            for c in &[r.0, r.1] {
                if let Some(n) = avail.get_mut(c) {
                    if *n > 0 {
                        *n -= 1;
                        ok = true;
                        break;
                    }
                }
            }
            ensure!(ok, "view-cursor-missing", "region {:?} shows no cursor; cursors {:?}", r, short(&cur_abs));
        }
        ensure_eq!(cur_abs.len(), sel.len(), "view-cursor-count", "cursors shown (selection {:?})", short(&sel));
        ensure!(!sel.is_empty(), "selection-empty", "no selection region at all");
        cx.count("full_views_compared", 1);
    }
    Ok(sel)
}

/// The part of the text annotations are sent for.
fn shown(m: &Mirror, starts: &[usize], text: &str) -> (usize, usize) {
    let a = starts.get(m.window.0).copied().unwrap_or(text.len());
    let b = starts.get(m.window.1).copied().unwrap_or(text.len());
    (a, b)
}

fn covers(m: &Mirror, n: usize) -> bool {
    m.window.0 == 0 && m.window.1 >= n
}

/// As `check_view`, for a view whose lines may be wrapped: asks for every line, then
/// the lines put together are the document, numbered where a logical line begins.
/// Returns the text and the starts of the visual lines.
pub fn check_any_view(cx: &mut Cx, s: &mut Sess, view: &str) -> Result<(String, Vec<usize>), Fail> {
    let text = s.contents(cx, view)?;
    let n = s.views[view].lines.len();
    if s.views[view].lines.iter().any(|l| l.is_none()) {
        s.edit(cx, view, "request_lines", serde_json::json!([0, n]))?;
    }
    let m = &s.views[view];
    ensure_eq!(m.lines.len(), n, "requested-lines-changed-count", "lines after a request of all lines");
    let logical = line_starts(&text);
    let mut starts = Vec::with_capacity(n);
    let mut at = 0;
    let mut k = 0;
    let mut ln = Vec::with_capacity(n);
    for (i, l) in m.lines.iter().enumerate() {
        let l = match l {
            Some(l) => l,
            None => return Err(Fail::new("requested-line-missing", format!("line {} of {} missing after it was requested", i, n))),
        };
        starts.push(at);
        if k < logical.len() && logical[k] == at {
            ln.push(Some(k + 1));
            k += 1;
        } else {
            ensure!(i > 0 && (k >= logical.len() || logical[k] > at), "wrap-crosses-line", "visual line {} begins at {} past the logical line that begins at {:?}", i, at, logical.get(k));
            ln.push(None);
        }
        at += l.text.len();
        ensure!(at <= text.len(), "view-longer-than-text", "lines shown have {} bytes and more, the document {}", at, text.len());
    }
    ensure_eq!(at, text.len(), "view-shorter-than-text", "bytes shown");
    ensure_eq!(k, logical.len(), "view-logical-lines", "logical lines shown");
    check_lines(cx, s, view, &text, &starts, Some(&ln))?;
    Ok((text, starts))
}
