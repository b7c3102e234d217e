//! C07 diff, C08 byte comparison, C09 text search, C11 line breaking and emoji classes.
use monlib::*;
use regex::Regex;
use serde_json::json;
use xi_rope::compare::{ne_idx, ne_idx_rev, RopeScanner};
use xi_rope::delta::DeltaElement;
use xi_rope::diff::{Diff, LineHashDiff};
use xi_rope::engine::Engine;
use xi_rope::find::{find, find_progress, is_multiline_regex, CaseMatching, FindResult};
use xi_rope::tree::TreeBuilder;
use xi_rope::{Cursor, Rope, RopeInfo};
use xi_unicode::{EmojiExt, LineBreakIterator, LineBreakLeafIter};

fn st(r: &Rope) -> String {
    String::from(r)
}

/// A rope with irregular leaf boundaries.
pub fn ragged(rng: &mut Rng, s: &str) -> Rope {
    if rng.bool() {
        return Rope::from(s);
    }
    let mut b: TreeBuilder<RopeInfo> = TreeBuilder::new();
    let mut p = 0;
    let max = *rng.pick(&[3usize, 40, 600, 1000]);
    while p < s.len() {
        let mut e = text::floor_boundary(s, (p + rng.range(1, max)).min(s.len()));
        if e <= p {
            e = (p + 1..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap();
        }
        b.push_leaf(s[p..e].to_string());
        p = e;
    }
    b.build()
}

// ----------------------------------------------------------------------- diff

fn line(rng: &mut Rng, pool: &mut Vec<String>) -> String {
    if !pool.is_empty() && rng.chance(1, 3) {
        return rng.pick(pool).clone();
    }
    let ws = if rng.chance(1, 3) { " ".repeat(rng.below(9)) } else { String::new() };
    let n = *rng.pick(&[0usize, 3, 20, 31, 32, 33, 40, 90]);
    let alpha: &[&str] = match rng.below(3) {
        0 => &["a", "b"],
        1 => &["é", "ũ", "日", "€", "x", "🎉", "🙈", "🙉"],
        _ => &["a", "b", "c", "d", "e", "f", " ", "(", ")", ";", "\t"],
    };
    let mut l = ws;
    l.push_str(&text::gen(rng, alpha, n));
    pool.push(l.clone());
    l
}

fn doc(rng: &mut Rng, pool: &mut Vec<String>) -> String {
    let n = match rng.below(5) {
        0 => rng.below(3),
        1 => rng.below(80),
        _ => rng.below(14),
    };
    let nl = *rng.pick(&["\n", "\n", "\r\n"]);
    let mut s: String = (0..n).map(|_| line(rng, pool) + nl).collect();
    if rng.bool() {
        s.push_str(&line(rng, pool));
    }
    s
}

fn mutate(rng: &mut Rng, s: &str, pool: &mut Vec<String>) -> String {
    let mut t = s.to_string();
    for _ in 0..rng.below(5) {
        let (a, e) = text::span(rng, &t);
        match rng.below(6) {
            0 => t.replace_range(a..e, ""),
            1 => t.insert_str(a, &line(rng, pool)),
            2 => {
                let c = t[a..e].to_string();
                let p = text::pos(rng, &t);
                t.insert_str(p, &c);
            }
            3 => {
                // move whole lines
                let mut ls: Vec<String> = t.split_inclusive('\n').map(|x| x.to_string()).collect();
                if ls.len() > 1 {
                    let i = rng.below(ls.len());
                    let l = ls.remove(i);
                    let j = rng.below(ls.len() + 1);
                    ls.insert(j, l);
                }
                t = ls.concat();
            }
            4 => {
                // replace one character by another sharing bytes with it
                if let Some(c) = t[a..].chars().next() {
                    let d = match c {
                        'é' => 'ũ',
                        'ũ' => 'é',
                        '🙈' => '🙉',
                        '🙉' => '🎉',
                        '日' => '旦',
                        '€' => '日',
                        _ => 'Q',
                    };
                    t.replace_range(a..a + c.len_utf8(), &d.to_string());
                }
            }
            _ => {
                let n = rng.below(4);
                let x = text::gen(rng, text::NASTY, n);
                t.replace_range(a..e, &x);
            }
        }
    }
    t
}

fn diff_case(cx: &mut Cx) -> Result<(), Fail> {
    let mut pool = Vec::new();
    let a = doc(&mut cx.rng, &mut pool);
    let b = match cx.rng.below(8) {
        0 => doc(&mut cx.rng, &mut pool),
        1 => {
            // shuffle the lines
            let mut ls: Vec<&str> = a.split_inclusive('\n').collect();
            cx.rng.shuffle(&mut ls);
            ls.concat()
        }
        _ => mutate(&mut cx.rng, &a, &mut pool),
    };
    cx.note(format!("base {:?}\ntarget {:?}", a, b));
    cx.key(mix(hash_str(&a), hash_str(&b)), a != b && !a.is_empty() && !b.is_empty());
    let (ra, rb) = (ragged(&mut cx.rng, &a), ragged(&mut cx.rng, &b));
    let d = LineHashDiff::compute_delta(&ra, &rb);
    cx.count("diffs", 1);
    ensure_eq!(st(&d.apply(&ra)), b, "diff:apply", "applying the diff");
    ensure_eq!(d.base_len, a.len(), "diff:base_len", "base_len");
    let mut last = 0;
    let mut copied = 0;
    for e in &d.els {
        match e {
            DeltaElement::Copy(s, e) => {
                ensure!(*s >= last && s <= e && *e <= a.len(), "diff:well_formed", "copy {}..{} after {}: not an edit of the base", s, e, last);
                ensure!(a.is_char_boundary(*s) && a.is_char_boundary(*e), "diff:char_boundary", "copy {}..{} splits a character", s, e);
                last = *e;
                copied += e - s;
            }
            DeltaElement::Insert(n) => {
                ensure!(!n.is_empty(), "diff:well_formed", "empty insert");
            }
        }
    }
    if copied > 0 {
        cx.count("diffs_with_copies", 1);
    }
    if a == b {
        ensure!(d.is_identity() || a.is_empty(), "diff:identity", "diff of equal texts changes something");
    }
    // used as an edit of a document with history: the document becomes the target
    let mut e = Engine::new(ra.clone());
    let base = e.get_head_rev_id().token();
    e.edit_rev(1, 1, base, d);
    ensure_eq!(st(e.get_head()), b, "diff:edit", "editing the base with the diff");
    e.undo(std::iter::once(1).collect());
    ensure_eq!(st(e.get_head()), a, "diff:edit", "undoing the diff");
    cx.state(copied as u64);
    if cx.want_sample() {
        cx.sample(json!({"base": short(&a), "target": short(&b), "bytes_copied": copied}));
    }
    Ok(())
}

// -------------------------------------------------------------------- compare

fn cmp_case(cx: &mut Cx) -> Result<(), Fail> {
    // exact-size heap blocks, so that a sanitizer sees any access outside them
    let mk = |rng: &mut Rng, n: usize| -> Vec<u8> {
        let f = rng.below(256) as u8;
        (0..n).map(|_| if rng.chance(1, 9) { rng.below(256) as u8 } else { f }).collect()
    };
    for _ in 0..24 {
        let n = cx.rng.below(*cx.rng.clone().pick(&[4usize, 20, 40, 70, 200, 1100]));
        let m = if cx.rng.bool() { n } else { cx.rng.below(100) };
        let mut one = mk(&mut cx.rng, n.max(m));
        let mut two = one.clone();
        one.truncate(n);
        if cx.rng.bool() {
            two.truncate(m);
        } else {
            two = two[n.max(m) - m..].to_vec();
        }
        for _ in 0..cx.rng.below(3) {
            if !two.is_empty() {
                let i = cx.rng.below(two.len());
                two[i] = two[i].wrapping_add(1 + cx.rng.below(255) as u8);
            }
        }
        let one: Box<[u8]> = one.into_boxed_slice();
        let two: Box<[u8]> = two.into_boxed_slice();
        // also unaligned sub-slices
        let (oa, ta) = (cx.rng.below(one.len() + 1), cx.rng.below(two.len() + 1));
        for (x, y) in [(&one[..], &two[..]), (&one[oa..], &two[ta.min(two.len())..]), (&one[..oa], &two[..ta])].iter() {
            cx.count("comparisons", 2);
            let want = x.iter().zip(y.iter()).position(|(a, b)| a != b);
            ensure_eq!(ne_idx(x, y), want, "compare:ne_idx", "first difference of {:?} and {:?}", x, y);
            let wantr = x.iter().rev().zip(y.iter().rev()).position(|(a, b)| a != b);
            ensure_eq!(ne_idx_rev(x, y), wantr, "compare:ne_idx_rev", "last difference of {:?} and {:?}", x, y);
            #[cfg(target_arch = "x86_64")]
            unsafe {
                use xi_rope::compare::{ne_idx_avx, ne_idx_rev_sse, ne_idx_sse};
                if is_x86_feature_detected!("avx2") {
                    ensure_eq!(ne_idx_avx(x, y), want, "compare:avx", "avx of {:?} and {:?}", x, y);
                }
                if is_x86_feature_detected!("sse4.2") {
                    ensure_eq!(ne_idx_sse(x, y), want, "compare:sse", "sse of {:?} and {:?}", x, y);
                    ensure_eq!(ne_idx_rev_sse(x, y), wantr, "compare:sse_rev", "reverse sse of {:?} and {:?}", x, y);
                }
            }
            cx.state(mix(x.len() as u64 * 4096 + y.len() as u64, want.map_or(u64::max_value(), |v| v as u64)));
        }
        cx.key(mix(hash_bytes(&one), hash_bytes(&two)), one.len() > 16 && two.len() > 16);
        if cx.want_sample() {
            cx.sample(json!({"len_one": one.len(), "len_two": two.len()}));
        }
    }
    Ok(())
}

fn floor_eq(a: &str, mut n: usize) -> usize {
    while !a.is_char_boundary(n) {
        n -= 1;
    }
    n
}

fn scan_case(cx: &mut Cx) -> Result<(), Fail> {
    let a = if cx.rng.bool() { text::any(&mut cx.rng, 4000) } else { text::gen(&mut cx.rng, &["é", "ũ", "é", "🙈", "🙉", "a", "日", "旦"], 30) };
    let mut pool = vec![text::any(&mut cx.rng, 60)];
    let b = mutate(&mut cx.rng, &a, &mut pool);
    cx.note(format!("one {:?}\ntwo {:?}", a, b));
    cx.key(mix(hash_str(&a), hash_str(&b)), a.len() > 16 && b.len() > 16);
    let (ra, rb) = (ragged(&mut cx.rng, &a), ragged(&mut cx.rng, &b));
    let mut sc = RopeScanner::new(&ra, &rb);
    let fwd = |x: &str, y: &str| {
        let n = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
        if n == x.len().min(y.len()) && x.is_char_boundary(n) && y.is_char_boundary(n) {
            n
        } else {
            floor_eq(x, n).min(floor_eq(y, n))
        }
    };
    let back = |x: &str, y: &str| {
        let mut n = x.bytes().rev().zip(y.bytes().rev()).take_while(|(p, q)| p == q).count();
        while !(x.is_char_boundary(x.len() - n) && y.is_char_boundary(y.len() - n)) {
            n -= 1;
        }
        n
    };
    for _ in 0..8 {
        cx.count("scans", 2);
        let pa = text::pos(&mut cx.rng, &a);
        let pb = if cx.rng.bool() && b.is_char_boundary(pa.min(b.len())) { pa.min(b.len()) } else { text::pos(&mut cx.rng, &b) };
        let w = fwd(&a[pa..], &b[pb..]);
        ensure_eq!(sc.find_ne_char(pa, pb, None), w, "scan:forward", "common prefix of texts at {} and {}", pa, pb);
        if w > 0 {
            let stop = text::pos(&mut cx.rng, &a[pa..pa + w]);
            ensure_eq!(sc.find_ne_char(pa, pb, stop), stop.min(w), "scan:stop", "bounded forward scan");
        }
        let w = back(&a[..pa], &b[..pb]);
        ensure_eq!(sc.find_ne_char_back(pa, pb, None), w, "scan:backward", "common suffix of texts before {} and {}", pa, pb);
        if w > 0 {
            let stop = w - text::pos(&mut cx.rng, &a[pa - w..pa]);
            ensure_eq!(sc.find_ne_char_back(pa, pb, stop), stop.min(w), "scan:stop", "bounded backward scan");
        }
    }
    let (s, e) = sc.find_min_diff_range();
    let ws = fwd(&a, &b);
    ensure_eq!(s, ws, "scan:min_diff", "start of the differing range");
    let we = back(&a[ws..], &b[ws..]);
    ensure_eq!(e, we, "scan:min_diff", "end of the differing range");
    if cx.want_sample() {
        cx.sample(json!({"one": short(&a), "two": short(&b), "prefix": s, "suffix": e}));
    }
    Ok(())
}

// --------------------------------------------------------------------- search

fn lower(s: &str) -> String {
    s.chars().flat_map(|c| c.to_lowercase()).collect()
}

/// First match at or after `from`: (start, end).
fn naive_casei(s: &str, from: usize, pat: &str) -> Option<(usize, usize)> {
    let p: Vec<char> = lower(pat).chars().collect();
    for (i, _) in s[from..].char_indices() {
        let i = from + i;
        let mut k = 0;
        let mut end = i;
        'm: for c in s[i..].chars() {
            end += c.len_utf8();
            for l in c.to_lowercase() {
                if l != p[k] {
                    break 'm;
                }
                k += 1;
                if k == p.len() {
                    return Some((i, end));
                }
            }
        }
    }
    None
}

fn find_case(cx: &mut Cx) -> Result<(), Fail> {
    let alpha: &[&str] = match cx.rng.below(6) {
        0 => &["a", "b", "\n"],
        1 => &["é", "É", "e", "E", "\u{301}", "ß", "ẞ", "s", "S"],
        2 => &["i", "I", "İ", "ı", "\u{307}", "k", "K", "\u{212a}", "Ā", "℃"],
        3 => &["σ", "Σ", "ς", "α", "Α", "ο", " "],
        4 => &["ab", "ba", "aab", "\r\n", "x", "é", "🎉"],
        _ => text::NASTY,
    };
    let n = match cx.rng.below(4) {
        0 => cx.rng.below(3000),
        1 => cx.rng.below(300),
        _ => cx.rng.below(40),
    };
    let mut s = text::gen(&mut cx.rng, alpha, n);
    let pat = match cx.rng.below(3) {
        0 => {
            let k = 1 + cx.rng.below(4);
            text::gen(&mut cx.rng, alpha, k)
        }
        _ => {
            let (a, e) = text::span(&mut cx.rng, &s);
            let mut p = s[a..e].to_string();
            if cx.rng.bool() {
                p = if cx.rng.bool() { p.to_uppercase() } else { p.to_lowercase() };
            }
            // and put it across a likely leaf boundary
            if cx.rng.chance(1, 3) {
                let at = text::pos(&mut cx.rng, &s);
                s.insert_str(at, &p);
            }
            p
        }
    };
    let exact = cx.rng.bool();
    cx.note(format!("text {:?}\npattern {:?} exact {}", s, pat, exact));
    cx.key(mix(hash_str(&s), hash_str(&pat)), !pat.is_empty() && s.len() > pat.len());
    let r = ragged(&mut cx.rng, &s);
    let cm = if exact { CaseMatching::Exact } else { CaseMatching::CaseInsensitive };
    let from = text::pos(&mut cx.rng, &s);
    let mut c = Cursor::new(&r, from);
    let mut lines = r.lines_raw(from..);
    let mut pos = from;
    let mut hits = 0;
    loop {
        let want = if pat.is_empty() {
            None
        } else if exact {
            s[pos..].find(pat.as_str()).map(|o| (pos + o, pos + o + pat.len()))
        } else {
            naive_casei(&s, pos, &pat)
        };
        let got = if cx.rng.bool() {
            find(&mut c, &mut lines, cm, &pat, None)
        } else {
            let steps = 1 + cx.rng.below(3);
            let mut tries = 0;
            loop {
                match find_progress(&mut c, &mut lines, cm, &pat, steps, None) {
                    FindResult::Found(x) => break Some(x),
                    FindResult::NotFound => break None,
                    FindResult::TryAgain => {
                        tries += 1;
                        ensure!(tries <= 4 * (s.len() + 4), "find:stuck", "bounded search makes no progress");
                    }
                }
            }
        };
        cx.count("searches", 1);
        ensure_eq!(got, want.map(|w| w.0), "find:position", "search from {}", pos);
        match want {
            Some((_, e)) => {
                hits += 1;
                ensure_eq!(c.pos(), e, "find:end", "cursor after the match");
                pos = e;
            }
            None => break,
        }
        if hits > 200 {
            break;
        }
    }
    cx.count("matches", hits);
    cx.state(mix(hits, pat.len() as u64));
    if cx.want_sample() {
        cx.sample(json!({"text": short(&s), "pattern": pat, "exact": exact, "matches": hits}));
    }
    Ok(())
}

fn regex_case(cx: &mut Cx) -> Result<(), Fail> {
    let alpha: &[&str] = match cx.rng.below(3) {
        0 => &["a", "b", "1", " ", "\n"],
        1 => &["foo", "bar", "é", "🎉", "\r\n", "\n", "12"],
        _ => text::NASTY,
    };
    let n = if cx.rng.chance(1, 5) { cx.rng.below(2000) } else { cx.rng.below(60) };
    let s = text::gen(&mut cx.rng, alpha, n);
    let pat = *cx.rng.pick(&[
        "a+", "b", "[0-9]+", "a.b", "(?i)FOO", "é.", "o{2}", "\\w+", "[^a]b", "a|b1", "🎉+", "a\\nb", "\\n", "o\\r\\n", "1[[:space:]]2", ".+", "bar$", "^foo", "x",
        "a*", "(?m)a$", "(?m)^b", "\\bb", "b\\b", "\\B1", "^", "$", "(?m)^", "(?m)$", "(?m)^\\n", "\\Ba", "a\\s*", "[^\\n]+$",
    ]);
    let re = Regex::new(pat).unwrap();
    cx.note(format!("text {:?}\nregex {:?}", s, pat));
    cx.key(mix(hash_str(&s), hash_str(pat)), s.len() > 4);
    let r = ragged(&mut cx.rng, &s);
    let multi = is_multiline_regex(pat);
    let mut pos = 0;
    let mut hits = 0;
    loop {
        // the search goes on at `pos`, knowing what precedes on that line
        let bol = s[..pos].rfind('\n').map_or(0, |i| i + 1);
        let ok = |m: &regex::Match, h: &str| m.start() < h.len() || !h.ends_with('\n');
        let want = if multi {
            if pos == s.len() { None } else { re.find_at(&s[bol..], pos - bol).filter(|m| ok(m, &s[bol..])).map(|m| (bol + m.start(), bol + m.end())) }
        } else {
            let mut p = bol;
            let mut w = None;
            for l in s[bol..].split_inclusive('\n') {
                if pos < s.len() {
                    if let Some(m) = re.find_at(l, pos.max(p) - p).filter(|m| ok(m, l)) {
                        w = Some((p + m.start(), p + m.end()));
                        break;
                    }
                }
                p += l.len();
            }
            w
        };
        let mut c = Cursor::new(&r, pos);
        let mut lines = r.lines_raw(pos..);
        let got = find(&mut c, &mut lines, CaseMatching::Exact, pat, Some(&re));
        cx.count("regex_searches", 1);
        ensure_eq!(got, want.map(|w| w.0), "find:regex", "regex search from {}", pos);
        match want {
            Some((b, e)) if e > b => {
                hits += 1;
                ensure_eq!(c.pos(), e, "find:regex_end", "cursor after the match");
                pos = e;
            }
            Some((_, e)) => {
                hits += 1;
                match s[e..].chars().next() {
                    Some(ch) => pos = e + ch.len_utf8(),
                    None => break,
                }
            }
            _ => break,
        }
    }
    cx.count("regex_matches", hits);
    if cx.want_sample() {
        cx.sample(json!({"text": short(&s), "regex": pat, "matches": hits}));
    }
    Ok(())
}

// ---------------------------------------------------------------- line breaks

// ICU line break class numbers
const BK: u8 = 6;
const CR: u8 = 10;
const LF: u8 = 17;
const NL: u8 = 29;

fn lb(c: char) -> u8 {
    xi_unicode::linebreak_property(c)
}

fn any_char(rng: &mut Rng) -> char {
    loop {
        let n = match rng.below(6) {
            0 => rng.below(0x80),
            1 => rng.below(0x800),
            2 => rng.below(0x3100),
            3 => 0x2000 + rng.below(0x100),
            4 => 0x1f000 + rng.below(0x1000),
            _ => rng.below(0x11_0000),
        };
        if let Some(c) = std::char::from_u32(n as u32) {
            return c;
        }
    }
}

/// All sequences of up to three line break classes, and random ones of four to six.
fn seq_case(cx: &mut Cx) -> Result<(), Fail> {
    let mut rep: Vec<char> = Vec::new();
    let mut seen = [false; 64];
    for cp in 0..0x11_0000u32 {
        if let Some(c) = std::char::from_u32(cp) {
            if !seen[lb(c) as usize] {
                seen[lb(c) as usize] = true;
                rep.push(c);
            }
        }
    }
    let n = rep.len();
    let mut test = |cx: &mut Cx, v: &[usize]| -> Result<(), Fail> {
        let s: String = v.iter().map(|i| rep[*i]).collect();
        let cls: Vec<u8> = v.iter().map(|i| lb(rep[*i])).collect();
        let mut got = vec![None; v.len() - 1];
        let mut it = LineBreakIterator::new(&s).peekable();
        let mut p = 0;
        for i in 0..v.len() - 1 {
            p += rep[v[i]].len_utf8();
            if it.peek().map_or(false, |x| x.0 == p) {
                got[i] = it.next().map(|x| x.1);
            }
        }
        cx.count("class_sequences", 1);
        ensure_eq!(got, crate::uax::uax14(&cls), "linebreak:rules", "breaks between the characters of {:?} (classes {:?})", s, cls);
        Ok(())
    };
    for a in 0..n {
        for b in 0..n {
            test(cx, &[a, b])?;
            cx.key((a * 64 + b) as u64, true);
            for c in 0..n {
                test(cx, &[a, b, c])?;
            }
        }
    }
    for _ in 0..400_000 {
        let k = cx.rng.range(4, 6);
        let v: Vec<usize> = (0..k).map(|_| cx.rng.below(n)).collect();
        test(cx, &v)?;
    }
    Ok(())
}

fn lb_case(cx: &mut Cx) -> Result<(), Fail> {
    let n = *cx.rng.pick(&[1usize, 2, 3, 5, 10, 40, 200]);
    let mut s = String::new();
    for _ in 0..n {
        if cx.rng.chance(1, 3) {
            s.push_str(*cx.rng.clone().pick(&[" ", "\n", "\r", "\r\n", "\u{200b}", "\u{301}", "\u{200d}", "\u{2060}", "\u{a0}", "a", "-", "(", ")", "\"", "1", ",", "日", "🎉", "🏽", "🇺🇸", "\u{85}", "\u{2028}", "가", "ᄀ", "ᅡ"]));
            cx.rng.next();
        } else {
            s.push(any_char(&mut cx.rng));
        }
    }
    cx.note(format!("text {:?}", s));
    cx.key(hash_str(&s), s.chars().count() > 2);
    let it: Vec<(usize, bool)> = LineBreakIterator::new(&s).collect();
    cx.count("texts", 1);
    cx.count("breaks", it.len() as u64);
    // shape
    let mut last = 0;
    for (i, (p, _)) in it.iter().enumerate() {
        ensure!(*p > last || (i == 0 && *p > 0), "linebreak:order", "break offsets {:?}", it);
        ensure!(*p <= s.len() && s.is_char_boundary(*p), "linebreak:boundary", "break at {} splits a character", p);
        last = *p;
    }
    ensure_eq!(it.last().map(|x| x.0), Some(s.len()), "linebreak:eot", "break at end of text");
    // exactly the breaks of the line breaking algorithm
    let chars: Vec<(usize, char)> = s.char_indices().collect();
    let brk: std::collections::HashMap<usize, bool> = it.iter().cloned().collect();
    let classes: Vec<u8> = chars.iter().map(|c| lb(c.1)).collect();
    for (i, want) in crate::uax::uax14(&classes).iter().enumerate() {
        cx.count("pairs", 1);
        ensure_eq!(
            brk.get(&chars[i + 1].0).cloned(),
            *want,
            "linebreak:rules",
            "break between {:?} and {:?} (at {})",
            chars[i].1,
            chars[i + 1].1,
            chars[i + 1].0
        );
    }
    let last_cls = *classes.last().unwrap();
    ensure_eq!(it.last().unwrap().1, [BK, CR, LF, NL].contains(&last_cls), "linebreak:eot_hard", "kind of the break at the end of the text");
    // class lookups agree
    for (i, c) in &chars {
        ensure_eq!(xi_unicode::linebreak_property_str(&s, *i), (lb(*c), c.len_utf8()), "linebreak:class", "class of {:?}", c);
    }
    // the same breaks whatever the chunks
    let mut cuts: Vec<usize> = (0..cx.rng.below(6)).map(|_| chars[cx.rng.below(chars.len())].0).filter(|p| *p > 0).collect();
    cuts.sort();
    cuts.dedup();
    cuts.push(s.len());
    let mut got = Vec::new();
    let mut li = LineBreakLeafIter::default();
    let mut start = 0;
    for (k, e) in cuts.iter().enumerate() {
        let leaf = &s[start..*e];
        if k == 0 {
            li = LineBreakLeafIter::new(leaf, 0);
        }
        loop {
            let (p, hard) = li.next(leaf);
            if p == leaf.len() {
                break;
            }
            got.push((start + p, hard));
        }
        start = *e;
    }
    ensure_eq!(got, it[..it.len() - 1].to_vec(), "linebreak:chunks", "breaks over chunks ending at {:?}", cuts);
    // starting anywhere in a chunk behaves as starting a text there
    let k = cx.rng.below(chars.len());
    let from = chars[k].0;
    let mut li = LineBreakLeafIter::new(&s, from);
    let mut got = Vec::new();
    loop {
        let (p, h) = li.next(&s);
        if p == s.len() {
            break;
        }
        got.push((p, h));
    }
    let want: Vec<(usize, bool)> = LineBreakIterator::new(&s[from..]).map(|(p, h)| (p + from, h)).filter(|(p, _)| *p != s.len()).collect();
    ensure_eq!(got, want, "linebreak:from", "breaks from {}", from);
    cx.state(hash_str(&format!("{:?}", it)));
    if cx.want_sample() {
        cx.sample(json!({"text": s, "breaks": short(&it)}));
    }
    Ok(())
}

/// Every code point once: class lookups and emoji classes.
fn classes_case(cx: &mut Cx) -> Result<(), Fail> {
    let emoji = Regex::new(r"^\p{Emoji}$").unwrap();
    let base = Regex::new(r"^\p{Emoji_Modifier_Base}$").unwrap();
    let modi = Regex::new(r"^\p{Emoji_Modifier}$").unwrap();
    let ri = Regex::new(r"^\p{Regional_Indicator}$").unwrap();
    let vs = Regex::new(r"^\p{Variation_Selector}$").unwrap();
    // the repository's tables are those of Emoji 11; code points which became emoji or
    // modifier bases later (in the regex crate's newer tables) are expected not to be.
    let old = Regex::new(r"^\p{Age:11.0}$").unwrap();
    const LATER_BASE: &[u32] = &[
        0x1F46A, 0x1F46B, 0x1F46C, 0x1F46D, 0x1F46F, 0x1F48F, 0x1F491, 0x1F91D, 0x1F93C,
    ];
    // line break class of every code point in the Unicode data the project ships (10.0)
    let mut golden = include_str!("lbclass.txt").lines().map(|l| {
        let mut f = l.split(' ');
        (usize::from_str_radix(f.next().unwrap(), 16).unwrap(), f.next().unwrap().parse::<u8>().unwrap())
    }).peekable();
    let mut cls = 0;
    for cp in 0..0x11_0000usize {
        while golden.peek().map_or(false, |g| g.0 <= cp) {
            cls = golden.next().unwrap().1;
        }
        if cp % 0x1000 == 0 {
            cx.key(cp as u64, true);
        }
        let c = match std::char::from_u32(cp as u32) {
            Some(c) => c,
            None => continue,
        };
        let mut b = [0u8; 4];
        let t: &str = c.encode_utf8(&mut b);
        cx.count("codepoints", 1);
        ensure_eq!(lb(c), cls, "class:table", "line break class of U+{:04X}", cp);
        ensure_eq!(xi_unicode::linebreak_property_str(t, 0), (lb(c), t.len()), "class:linebreak", "U+{:04X}", cp);
        ensure_eq!(c.is_regional_indicator_symbol(), ri.is_match(t), "class:regional", "U+{:04X}", cp);
        ensure_eq!(c.is_emoji_modifier(), modi.is_match(t), "class:modifier", "U+{:04X}", cp);
        if cp > 0x3000 {
            ensure_eq!(xi_unicode::is_variation_selector(c), vs.is_match(t), "class:variation", "U+{:04X}", cp);
        }
        let was = old.is_match(t);
        ensure_eq!(c.is_emoji(), was && cp != 0x26A7 && emoji.is_match(t), "class:emoji", "U+{:04X}", cp);
        ensure_eq!(
            c.is_emoji_modifier_base(),
            was && !LATER_BASE.contains(&(cp as u32)) && base.is_match(t),
            "class:modifier_base",
            "U+{:04X}",
            cp
        );
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let mut d = Prop::new(
        "C07",
        "Pairs of line-structured documents (short/long/duplicated/indented lines, multi-byte characters sharing bytes, moved/copied/shuffled lines, in-line edits, 0-80 lines, irregular leaves): the diff must apply to give the target, be an ordered edit on character boundaries, and work as an undoable edit of a document. Non-trivial: texts differ and neither is empty.",
        vec![Suite { name: "diff", f: diff_case, quick: 150_000, thorough: 1_500_000 }],
    );
    d.must_observe = &["diffs", "diffs_with_copies"];
    let mut c = Prop::new(
        "C08",
        "Comparison of exact-size heap blocks (0-1100 bytes, equal runs and a few differences, aligned and not, different lengths) and of ropes with irregular leaves, under AddressSanitizer and debug assertions, against byte-by-byte comparison. Non-trivial: both inputs longer than one vector.",
        vec![
            Suite { name: "bytes", f: cmp_case, quick: 40_000, thorough: 400_000 },
            Suite { name: "scan", f: scan_case, quick: 40_000, thorough: 400_000 },
        ],
    );
    c.must_observe = &["comparisons", "scans"];
    let mut f = Prop::new(
        "C09",
        "Literal search (case sensitive and not; ASCII, accents, sigma, dotted I, Kelvin sign, emoji) and regular-expression search over texts with irregular leaves, in one go or with 1-3 steps at a time, from random offsets, continued to the last match: start and end of every match against a character-by-character search / the regex crate on the contiguous text. Non-trivial: non-empty pattern shorter than the text.",
        vec![
            Suite { name: "literal", f: find_case, quick: 150_000, thorough: 1_500_000 },
            Suite { name: "regex", f: regex_case, quick: 70_000, thorough: 500_000 },
        ],
    );
    f.must_observe = &["searches", "matches", "regex_matches"];
    let mut u = Prop::new(
        "C11",
        "Random texts over all of Unicode (weighted to spaces, CR/LF, zero-width, joiner, combining, quotes, CJK, emoji): break offsets are ordered, on characters, end at the end, are exactly those of the rules of UAX 14 (written out independently, over line break classes; all class pairs and triples, millions of random longer sequences), and are the same for every way of cutting the text into chunks; every code point's class lookups and emoji classes are compared across APIs and with the regex crate's tables. Non-trivial: more than two characters.",
        vec![
            Suite { name: "breaks", f: lb_case, quick: 250_000, thorough: 2_000_000 },
            Suite { name: "sequences", f: seq_case, quick: 8, thorough: 64 },
            Suite { name: "classes", f: classes_case, quick: 1, thorough: 1 },
        ],
    );
    u.must_observe = &["pairs", "codepoints", "class_sequences"];
    vec![d, c, f, u]
}
