//! C01: a rope is always exactly the string it represents.
use monlib::*;
use serde_json::json;
use unicode_segmentation::GraphemeCursor;
use xi_rope::rope::{BaseMetric, Utf16CodeUnitsMetric};
use xi_rope::tree::TreeBuilder;
use xi_rope::{Cursor, Interval, LinesMetric, Rope, RopeInfo};

#[derive(Clone)]
struct M {
    r: Rope,
    s: String,
}

fn utf16(s: &str) -> usize {
    s.chars().map(|c| c.len_utf16()).sum()
}

fn nl(s: &str) -> usize {
    s.bytes().filter(|b| *b == b'\n').count()
}

/// Line start offsets of `s` (first line starts at 0).
fn line_starts(s: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(s.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    v
}

fn text_of(r: &Rope) -> String {
    let mut out = String::new();
    let mut c = Cursor::new(r, 0);
    while let Some((l, o)) = c.get_leaf() {
        out.push_str(&l[o..]);
        if c.next_leaf().is_none() {
            break;
        }
    }
    out
}

fn content(m: &M, what: &str) -> Result<(), Fail> {
    ensure_eq!(m.r.len(), m.s.len(), "rope:len", "{} length", what);
    let t = String::from(&m.r);
    ensure!(t == m.s, "rope:content", "{}: content differs: got {} want {}", what, short(&t), short(&m.s));
    Ok(())
}

fn queries(cx: &mut Cx, m: &M) -> Result<(), Fail> {
    let (r, s) = (&m.r, &m.s);
    content(m, "query")?;
    ensure!(text_of(r) == *s, "rope:leaves", "leaf walk differs");
    ensure_eq!(r.measure::<LinesMetric>(), nl(s), "rope:measure", "line measure");
    ensure_eq!(r.measure::<Utf16CodeUnitsMetric>(), utf16(s), "rope:measure", "utf16 measure");
    ensure_eq!(r.is_empty(), s.is_empty(), "rope:empty", "is_empty");
    let starts = line_starts(s);
    let b = s.as_bytes();
    let rng_n = if cx.thorough { 24 } else { 12 };
    for _ in 0..rng_n {
        let p = text::pos(&mut cx.rng, s);
        cx.count("queries", 12);
        // conversions
        let line = nl(&s[..p]);
        ensure_eq!(r.line_of_offset(p), line, "rope:line_of_offset", "line_of_offset({}) in {} bytes", p, s.len());
        let l = cx.rng.below(starts.len() + 1);
        let want = if l < starts.len() { starts[l] } else { s.len() };
        ensure_eq!(r.offset_of_line(l), want, "rope:offset_of_line", "offset_of_line({})", l);
        let u = utf16(&s[..p]);
        ensure_eq!(r.count::<Utf16CodeUnitsMetric>(p), u, "rope:utf16_of_offset", "count utf16 at {}", p);
        ensure_eq!(r.count_base_units::<Utf16CodeUnitsMetric>(u), p, "rope:offset_of_utf16", "offset of utf16 {}", u);
        ensure_eq!(r.count::<LinesMetric>(p), line, "rope:count", "count lines at {}", p);
        ensure_eq!(
            r.convert_metrics::<Utf16CodeUnitsMetric, LinesMetric>(u),
            line,
            "rope:convert",
            "utf16 {} to lines",
            u
        );
        ensure_eq!(r.convert_metrics::<LinesMetric, Utf16CodeUnitsMetric>(line), utf16(&s[..starts[line]]), "rope:convert", "line {} to utf16", line);
        if p < s.len() {
            let q = cx.rng.below(s.len());
            ensure_eq!(r.byte_at(q), b[q], "rope:byte_at", "byte_at({})", q);
        }
        // codepoint neighbours, from any byte offset
        let q = cx.rng.below(s.len() + 1);
        let bd = s.is_char_boundary(q);
        ensure_eq!(r.is_codepoint_boundary(q), bd, "rope:boundary", "is_codepoint_boundary({})", q);
        let nextb = (q + 1..=s.len()).find(|i| s.is_char_boundary(*i));
        let prevb = (0..q).rev().find(|i| s.is_char_boundary(*i));
        ensure_eq!(r.next_codepoint_offset(p), (p + 1..=s.len()).find(|i| s.is_char_boundary(*i)), "rope:next_cp", "next codepoint of {}", p);
        ensure_eq!(r.prev_codepoint_offset(p), (0..p).rev().find(|i| s.is_char_boundary(*i)), "rope:prev_cp", "prev codepoint of {}", p);
        ensure_eq!(r.at_or_next_codepoint_boundary(q), if bd { Some(q) } else { nextb }, "rope:at_or_next", "at_or_next_codepoint({})", q);
        ensure_eq!(r.at_or_prev_codepoint_boundary(q), if bd { Some(q) } else { prevb }, "rope:at_or_prev", "at_or_prev_codepoint({})", q);
        // graphemes
        let wantn = GraphemeCursor::new(p, s.len(), true).next_boundary(s, 0).unwrap();
        ensure_eq!(r.next_grapheme_offset(p), wantn, "rope:next_grapheme", "next grapheme of {} near {:?}", p, around(s, p));
        let wantp = GraphemeCursor::new(p, s.len(), true).prev_boundary(s, 0).unwrap();
        ensure_eq!(r.prev_grapheme_offset(p), wantp, "rope:prev_grapheme", "prev grapheme of {} near {:?}", p, around(s, p));
        // slices
        let (a, e) = text::span(&mut cx.rng, s);
        ensure_eq!(r.slice_to_cow(a..e).into_owned(), s[a..e].to_string(), "rope:slice_to_cow", "slice_to_cow {}..{}", a, e);
        let sub = r.slice(Interval::new(a, e));
        ensure!(String::from(&sub) == s[a..e], "rope:slice", "slice {}..{}", a, e);
        ensure_eq!(sub.measure::<LinesMetric>(), nl(&s[a..e]), "rope:slice_measure", "lines of slice {}..{}", a, e);
        let got: Vec<&str> = r.iter_chunks(a..e).collect();
        ensure!(got.concat() == s[a..e], "rope:chunks", "chunks of {}..{} concat differ", a, e);
        ensure!(a == e || got.iter().all(|c| !c.is_empty()), "rope:chunks", "empty chunk in {}..{}", a, e);
        let lr: Vec<String> = r.lines_raw(a..e).map(|c| c.into_owned()).collect();
        let wr: Vec<&str> = s[a..e].split_inclusive('\n').collect();
        ensure!(lr == wr, "rope:lines_raw", "lines_raw {}..{}", a, e);
        let ll: Vec<String> = r.lines(a..e).map(|c| c.into_owned()).collect();
        let wl: Vec<&str> = s[a..e].lines().collect();
        ensure!(ll == wl, "rope:lines", "lines {}..{}: {} vs {}", a, e, short(&ll), short(&wl));
        cx.count("lines_iterated", wl.len() as u64);
    }
    walk(cx, m, &starts)?;
    Ok(())
}

fn around(s: &str, p: usize) -> String {
    let a = text::floor_boundary(s, p.saturating_sub(12));
    let b = text::floor_boundary(s, (p + 12).min(s.len()));
    s[a..b].to_string()
}

/// A random walk of one cursor, compared with positions computed on the string.
fn walk(cx: &mut Cx, m: &M, starts: &[usize]) -> Result<(), Fail> {
    let (r, s) = (&m.r, &m.s);
    let mut pos = text::pos(&mut cx.rng, s);
    let mut c = Cursor::new(r, pos);
    let nextcp = |p: usize| (p + 1..=s.len()).find(|i| s.is_char_boundary(*i));
    let prevcp = |p: usize| (0..p).rev().find(|i| s.is_char_boundary(*i));
    let nextln = |p: usize| starts[1..].iter().cloned().find(|x| *x > p);
    let prevln = |p: usize| starts[1..].iter().rev().cloned().find(|x| *x < p);
    let isln = |p: usize| p > 0 && s.as_bytes()[p - 1] == b'\n';
    for _ in 0..30 {
        cx.count("cursor_steps", 1);
        let k = cx.rng.below(12);
        let (got, want, what) = match k {
            0 => (c.next::<BaseMetric>(), nextcp(pos), "next<Base>"),
            1 => (c.prev::<BaseMetric>(), prevcp(pos), "prev<Base>"),
            2 | 3 => (c.next::<LinesMetric>(), nextln(pos), "next<Lines>"),
            4 | 5 => (c.prev::<LinesMetric>(), prevln(pos), "prev<Lines>"),
            6 => (c.at_or_next::<LinesMetric>(), if isln(pos) { Some(pos) } else { nextln(pos) }, "at_or_next<Lines>"),
            7 => (c.at_or_prev::<LinesMetric>(), if isln(pos) { Some(pos) } else { prevln(pos) }, "at_or_prev<Lines>"),
            8 => {
                ensure_eq!(c.is_boundary::<LinesMetric>(), isln(pos), "cursor:is_boundary", "is_boundary<Lines>({})", pos);
                ensure_eq!(c.pos(), pos, "cursor:pos", "is_boundary moved the cursor");
                ensure_eq!(c.peek_next_codepoint(), s[pos..].chars().next(), "cursor:peek", "peek at {}", pos);
                continue;
            }
            9 => {
                // next_codepoint yields the character and advances
                let want = s[pos..].chars().next();
                let got = c.next_codepoint();
                ensure_eq!(got, want, "cursor:next_codepoint", "next_codepoint at {}", pos);
                if let Some(ch) = want {
                    pos += ch.len_utf8();
                    ensure_eq!(c.pos(), pos, "cursor:next_codepoint", "pos after next_codepoint");
                } else {
                    pos = text::pos(&mut cx.rng, s);
                    c.set(pos);
                }
                continue;
            }
            10 => {
                if pos == 0 {
                    continue;
                }
                let want = s[..pos].chars().next_back();
                let got = c.prev_codepoint();
                ensure_eq!(got, want, "cursor:prev_codepoint", "prev_codepoint at {}", pos);
                pos -= want.unwrap().len_utf8();
                ensure_eq!(c.pos(), pos, "cursor:prev_codepoint", "pos after prev_codepoint");
                continue;
            }
            _ => {
                pos = text::pos(&mut cx.rng, s);
                c.set(pos);
                ensure_eq!(c.pos(), pos, "cursor:set", "set");
                continue;
            }
        };
        ensure_eq!(got, want, "cursor:step", "{} from {} (len {})", what, pos, s.len());
        match want {
            Some(p) => {
                pos = p;
                ensure_eq!(c.pos(), pos, "cursor:pos", "pos after {}", what);
            }
            None => {
                pos = text::pos(&mut cx.rng, s);
                c.set(pos);
            }
        }
    }
    // full iterations
    let mut c = Cursor::new(r, 0);
    let it: Vec<usize> = c.iter::<LinesMetric>().collect();
    ensure!(it == starts[1..].to_vec(), "cursor:iter", "line boundary iteration differs");
    Ok(())
}

fn small_leaves(rng: &mut Rng, s: &str) -> Rope {
    // build through the tree builder from irregular leaves
    let mut b: TreeBuilder<RopeInfo> = TreeBuilder::new();
    let mut p = 0;
    while p < s.len() {
        let n = rng.range(1, 900);
        let mut e = text::floor_boundary(s, (p + n).min(s.len()));
        if e <= p {
            e = (p + 1..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap();
        }
        match rng.below(3) {
            0 => b.push_leaf(s[p..e].to_string()),
            1 => b.push(Rope::from(&s[p..e])),
            _ => b.push_leaf_slice(&s.to_string()[..e].to_string(), Interval::new(p, e)),
        }
        p = e;
    }
    b.build()
}

pub fn case(cx: &mut Cx) -> Result<(), Fail> {
    let max = if cx.rng.chance(1, 4) { 20000 } else { 3000 };
    let mut pool: Vec<M> = Vec::new();
    let mut hist: Vec<String> = Vec::new();
    let nops = cx.rng.range(4, if cx.thorough { 60 } else { 25 });
    let r = run(cx, &mut pool, &mut hist, nops, max);
    cx.key(hash_str(&hist.join(";")), pool.iter().any(|m| m.s.len() > 1024));
    if cx.want_sample() {
        let h: Vec<&String> = hist.iter().take(12).collect();
        cx.sample(json!({ "ops": h, "final_lens": pool.iter().map(|m| m.s.len()).collect::<Vec<_>>() }));
    }
    r.map_err(|f| {
        let d = hist.join("\n");
        f.detail(d)
    })
}

fn run(cx: &mut Cx, pool: &mut Vec<M>, hist: &mut Vec<String>, nops: usize, max: usize) -> Result<(), Fail> {
    for step in 0..nops {
        let k = if pool.is_empty() { 0 } else { cx.rng.weighted(&[1, 10, 2, 2, 1, 1, 1]) };
        cx.count("ops", 1);
        let i = if pool.is_empty() { 0 } else { cx.rng.below(pool.len()) };
        match k {
            0 => {
                let s = if cx.rng.bool() { let n = cx.rng.below(max); text::long(&mut cx.rng, n) } else { text::any(&mut cx.rng, 300) };
                hist.push(format!("{}: new {}", step, short(&s)));
                let r = match cx.rng.below(3) {
                    0 => s.parse::<Rope>().unwrap(),
                    1 => small_leaves(&mut cx.rng, &s),
                    _ => Rope::from(&s),
                };
                pool.push(M { r, s });
            }
            1 => {
                // edit in place, sometimes with a live copy
                let keep = cx.rng.chance(1, 3);
                let before = pool[i].clone();
                let (a, e) = text::span(&mut cx.rng, &before.s);
                let ins = match cx.rng.below(6) {
                    0 => String::new(),
                    1 => { let n = cx.rng.below(max / 2); text::long(&mut cx.rng, n) }
                    _ => text::any(&mut cx.rng, 40),
                };
                hist.push(format!("{}: edit #{} {}..{} ins {} keep={}", step, i, a, e, short(&ins), keep));
                let m = &mut pool[i];
                if keep {
                    m.r.edit(a..e, Rope::from(&ins));
                } else {
                    // drop the other reference first: in-place path
                    let mut own = M { r: Rope::from(""), s: String::new() };
                    std::mem::swap(m, &mut own);
                    let M { r, s } = before.clone();
                    drop(r);
                    own.r.edit(a..e, ins.as_str());
                    own.s = s;
                    *m = own;
                }
                m.s.replace_range(a..e, &ins);
                if keep {
                    content(&before, "older copy after edit")?;
                    cx.count("persistence_checks", 1);
                    if pool.len() < 8 {
                        pool.push(before);
                    }
                }
            }
            2 => {
                let (a, e) = text::span(&mut cx.rng, &pool[i].s);
                hist.push(format!("{}: slice #{} {}..{}", step, i, a, e));
                let m = M { r: pool[i].r.slice(a..e), s: pool[i].s[a..e].to_string() };
                pool.push(m);
            }
            3 => {
                let j = cx.rng.below(pool.len());
                hist.push(format!("{}: concat #{} #{}", step, i, j));
                let m = M { r: pool[i].r.clone() + pool[j].r.clone(), s: format!("{}{}", pool[i].s, pool[j].s) };
                if m.s.len() < 80_000 {
                    pool.push(m);
                }
            }
            4 => {
                // builder over a mixture
                let mut b: TreeBuilder<RopeInfo> = TreeBuilder::new();
                let mut s = String::new();
                hist.push(format!("{}: build", step));
                for _ in 0..cx.rng.below(6) {
                    let j = cx.rng.below(pool.len());
                    match cx.rng.below(3) {
                        0 => {
                            b.push(pool[j].r.clone());
                            s.push_str(&pool[j].s);
                        }
                        1 => {
                            let t = text::any(&mut cx.rng, 2000);
                            b.push_str(&t);
                            s.push_str(&t);
                        }
                        _ => {
                            let (a, e) = text::span(&mut cx.rng, &pool[j].s);
                            b.push(pool[j].r.slice(a..e));
                            s.push_str(&pool[j].s[a..e]);
                        }
                    }
                }
                if s.len() < 80_000 {
                    pool.push(M { r: b.build(), s });
                }
            }
            5 => {
                // serialisation round trip, copies and equality
                hist.push(format!("{}: serde #{}", step, i));
                let m = &pool[i];
                let v = serde_json::to_string(&m.r).unwrap();
                ensure_eq!(v, serde_json::to_string(&m.s).unwrap(), "rope:serde", "serialised form");
                let back: Rope = serde_json::from_str(&v).unwrap();
                let nm = M { r: back, s: m.s.clone() };
                content(&nm, "deserialised")?;
                ensure!(format!("{}", m.r) == m.s, "rope:display", "Display differs");
            }
            _ => {
                hist.push(format!("{}: drop #{}", step, i));
                if pool.len() > 1 {
                    pool.remove(i);
                }
            }
        }
        if let Some(m) = pool.last() {
            content(m, "after op")?;
        }
        if i < pool.len() {
            let m = pool[i].clone();
            content(&m, "after op")?;
            cx.state(hash_str(&m.s));
            if cx.rng.chance(1, 3) {
                queries(cx, &m)?;
            }
        }
        if pool.len() > 10 {
            pool.remove(0);
        }
    }
    for m in pool.clone().iter() {
        queries(cx, m)?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    let mut p = Prop::new(
        "C01",
        "Histories of 4-60 construct/edit/slice/concat/build/copy operations over texts of 0-80 kB (ASCII, CRLF, combining, emoji, surrogate-pair and control characters; edits share and unshare structure); after each operation the rope is compared with the plain string, with a battery of index conversions, iterators and cursor walks. Non-trivial: some rope of the history spans more than one leaf (>1 kB).",
        vec![Suite { name: "ops", f: case, quick: 20_000, thorough: 120_000 }],
    );
    p.must_observe = &["queries", "cursor_steps", "persistence_checks"];
    p
}
