//! C10: spans and breaks attached to a text.
use crate::r_delta::{gen_script, Script};
use monlib::*;
use serde_json::json;
use xi_rope::breaks::{BreakBuilder, Breaks, BreaksInfo, BreaksMetric};
use xi_rope::delta::Transformer;
use xi_rope::interval::Interval;
use xi_rope::spans::{Spans, SpansBuilder};
use xi_rope::tree::{Cursor, TreeBuilder};

type Col = Vec<Option<u32>>;

fn color(s: &Spans<u32>) -> Result<Col, Fail> {
    let mut v: Col = vec![None; s.len()];
    let mut last = 0;
    for (iv, d) in s.iter() {
        ensure!(iv.start() >= last && iv.start() < iv.end() && iv.end() <= s.len(), "spans:order", "span {} after {} in {} units", iv, last, s.len());
        last = iv.end();
        for x in &mut v[iv.start()..iv.end()] {
            *x = Some(*d);
        }
    }
    Ok(v)
}

fn gen_spans(rng: &mut Rng, len: usize) -> (Spans<u32>, Vec<(usize, usize, u32)>) {
    let mut list = Vec::new();
    let mut p = 0;
    let gap = *rng.pick(&[1usize, 3, 30, 400]);
    let size = *rng.pick(&[1usize, 3, 12, 100]);
    let mut id = rng.below(1000) as u32;
    loop {
        if rng.bool() {
            p += rng.below(gap + 1);
        }
        let n = 1 + rng.below(size);
        if p + n > len {
            break;
        }
        id += 1;
        list.push((p, p + n, id));
        p += n;
        if rng.chance(1, 200) {
            break;
        }
    }
    let mut b = SpansBuilder::new(len);
    for (s, e, d) in &list {
        b.add_span(*s..*e, *d);
    }
    (b.build(), list)
}

fn paint(len: usize, l: &[(usize, usize, u32)]) -> Col {
    let mut v = vec![None; len];
    for (s, e, d) in l {
        for x in &mut v[*s..*e] {
            *x = Some(*d);
        }
    }
    v
}

fn xs(n: usize) -> String {
    "x".repeat(n)
}

fn spans_case(cx: &mut Cx) -> Result<(), Fail> {
    let len = match cx.rng.below(5) {
        0 => cx.rng.below(10),
        1 | 2 => cx.rng.below(300),
        _ => cx.rng.below(6000),
    };
    let (mut sp, list) = gen_spans(&mut cx.rng, len);
    let mut m = paint(len, &list);
    cx.note(format!("spans over {}: {:?}", len, list));
    let nspans = list.len();
    ensure!(color(&sp)? == m, "spans:build", "built spans differ");
    let exact: Vec<(usize, usize, u32)> = sp.iter().map(|(iv, d)| (iv.start(), iv.end(), *d)).collect();
    ensure_eq!(exact, list, "spans:build", "span list");
    let n = 1 + cx.rng.below(8);
    for _ in 0..n {
        cx.count("span_ops", 1);
        match cx.rng.below(7) {
            0 | 1 => {
                let sc: Script = gen_script(&mut cx.rng, &xs(m.len()), 4);
                let sc = Script { edits: sc.edits.into_iter().map(|(a, b, t)| (a, b, xs(t.len()))).collect() };
                cx.note(format!("apply_shape {:?}", sc.edits.iter().map(|(a, b, t)| (*a, *b, t.len())).collect::<Vec<_>>()));
                sp.apply_shape(&sc.build(m.len()));
                let mut out = Vec::new();
                let mut last = 0;
                for (a, b, t) in &sc.edits {
                    out.extend_from_slice(&m[last..*a]);
                    out.extend(std::iter::repeat(None).take(t.len()));
                    last = *b;
                }
                out.extend_from_slice(&m[last..]);
                m = out;
                cx.count("shape_changes", 1);
            }
            2 => {
                // replace a range by other spans
                let a = cx.rng.below(m.len() + 1);
                let b = a + cx.rng.below(m.len() - a + 1).min(cx.rng.below(200) + 1);
                let b = b.min(m.len());
                let l = cx.rng.below(80);
                let (o, ol) = gen_spans(&mut cx.rng, l);
                cx.note(format!("edit {}..{} with {} units {:?}", a, b, l, ol));
                sp.edit(a..b, o);
                m.splice(a..b, paint(l, &ol));
            }
            3 => {
                let a = cx.rng.below(m.len() + 1);
                let b = a + cx.rng.below(m.len() - a + 1);
                cx.note(format!("subseq {}..{}", a, b));
                ensure!(color(&sp.subseq(a..b))? == m[a..b].to_vec(), "spans:subseq", "subseq {}..{}", a, b);
            }
            4 => {
                let (o, ol) = gen_spans(&mut cx.rng, m.len());
                cx.note(format!("merge {:?}", ol));
                let om = paint(m.len(), &ol);
                let r = sp.merge(&o, |a, b| match b {
                    Some(b) => (a + 7).wrapping_mul(31).wrapping_add(*b) | 1 << 30,
                    None => *a,
                });
                let got = color(&r)?;
                for i in 0..m.len() {
                    let w = match (m[i], om[i]) {
                        (Some(a), Some(b)) => Some((a + 7).wrapping_mul(31).wrapping_add(b) | 1 << 30),
                        (a, b) => a.or(b),
                    };
                    ensure_eq!(got[i], w, "spans:merge", "merged value at {}", i);
                }
                cx.count("merges", 1);
            }
            5 => {
                // the spans that intersect the interval go, and all that come after it
                if m.is_empty() {
                    continue;
                }
                let a = cx.rng.below(m.len());
                let b = a + 1 + cx.rng.below(m.len() - a).min(20);
                let b = b.min(m.len());
                cx.note(format!("delete_after {}..{}", a, b));
                let list: Vec<(usize, usize, u32)> = sp.iter().map(|(iv, d)| (iv.start(), iv.end(), *d)).collect();
                sp.delete_after(Interval::new(a, b));
                let cut = list.iter().position(|(_, e, _)| *e > a).unwrap_or_else(|| list.len());
                m = paint(m.len(), &list[..cut]);
            }
            _ => {
                // carry spans of a part of the text through an edit
                let a = cx.rng.below(m.len() + 1);
                let b = a + cx.rng.below(m.len() - a + 1);
                let sc: Script = gen_script(&mut cx.rng, &xs(m.len()), 3);
                let sc = Script { edits: sc.edits.into_iter().map(|(a, b, t)| (a, b, xs(t.len()))).collect() };
                cx.note(format!("transform {}..{} by {:?}", a, b, sc.edits.iter().map(|(a, b, t)| (*a, *b, t.len())).collect::<Vec<_>>()));
                let d = sc.build(m.len());
                let part = sp.subseq(a..b);
                let ns = Transformer::new(&d).transform(a, false);
                let ne = Transformer::new(&d).transform(b, true);
                let got = part.transform(a, b, &mut Transformer::new(&d));
                ensure_eq!(got.len(), ne - ns, "spans:transform", "length of the transformed spans");
                // every surviving unit keeps its span; inserted units only inherit a span around them
                let gc = color(&got)?;
                let mut last = 0;
                let mut out = 0;
                let mut newpos = vec![None; m.len()];
                for (x, y, t) in &sc.edits {
                    for i in last..*x {
                        newpos[i] = Some(out);
                        out += 1;
                    }
                    out += t.len();
                    last = *y;
                }
                for i in last..m.len() {
                    newpos[i] = Some(out);
                    out += 1;
                }
                let vals: std::collections::HashSet<u32> = m[a..b].iter().flatten().cloned().collect();
                ensure!(gc.iter().flatten().all(|v| vals.contains(v)), "spans:transform", "transform invents a span");
                for i in a..b {
                    if let Some(p) = newpos[i] {
                        ensure_eq!(gc[p - ns], m[i], "spans:transform", "unit {} moved to {}", i, p);
                    }
                }
                cx.count("transforms", 1);
            }
        }
        let got = color(&sp)?;
        ensure!(got == m, "spans:content", "spans differ at unit {:?} of {}", got.iter().zip(&m).position(|(a, b)| a != b), m.len());
        cx.state(hash_str(&format!("{:?}", m.iter().take(3000).collect::<Vec<_>>())));
    }
    let h = cx.trace_hash();
    cx.key(h, nspans > 1);
    if cx.want_sample() {
        cx.sample(json!({"spans": nspans, "len": len}));
    }
    Ok(())
}

fn breaks_of(b: &Breaks) -> Vec<usize> {
    let mut v = Vec::new();
    let mut c = Cursor::new(b, 0);
    while let Some(p) = c.next::<BreaksMetric>() {
        v.push(p);
    }
    v
}

fn gen_breaks(rng: &mut Rng) -> (Breaks, Vec<usize>, usize) {
    let n = match rng.below(4) {
        0 => 0,
        1 => rng.below(5),
        2 => rng.below(70),
        _ => rng.below(500),
    };
    let size = *rng.pick(&[1usize, 4, 50]);
    let mut b = BreakBuilder::new();
    let mut v = Vec::new();
    let mut p = 0;
    for _ in 0..n {
        let l = 1 + rng.below(size);
        if rng.chance(1, 10) {
            b.add_no_break(l);
            p += l;
        }
        b.add_break(l);
        p += l;
        v.push(p);
    }
    if rng.bool() {
        let l = rng.below(9);
        b.add_no_break(l);
        p += l;
    }
    (b.build(), v, p)
}

fn breaks_case(cx: &mut Cx) -> Result<(), Fail> {
    let (mut b, mut v, mut len) = gen_breaks(&mut cx.rng);
    cx.note(format!("breaks {:?} len {}", v, len));
    let ops = 1 + cx.rng.below(8);
    for _ in 0..ops {
        cx.count("break_ops", 1);
        match cx.rng.below(4) {
            0 | 1 => {
                let a = cx.rng.below(len + 1);
                let e = a + cx.rng.below(len - a + 1).min(1 + cx.rng.below(100));
                let e = e.min(len);
                let (o, ov, ol) = if cx.rng.chance(1, 4) {
                    let n = cx.rng.below(20);
                    (Breaks::new_no_break(n), vec![], n)
                } else {
                    gen_breaks(&mut cx.rng)
                };
                cx.note(format!("edit {}..{} with {:?} len {}", a, e, ov, ol));
                b.edit(a..e, o);
                let mut nv: Vec<usize> = v.iter().cloned().filter(|x| *x <= a).collect();
                nv.extend(ov.iter().map(|x| x + a));
                nv.extend(v.iter().filter(|x| **x > e).map(|x| x - e + a + ol));
                v = nv;
                len = len - (e - a) + ol;
            }
            2 => {
                let a = cx.rng.below(len + 1);
                let e = a + cx.rng.below(len - a + 1);
                let s = b.subseq(a..e);
                let w: Vec<usize> = v.iter().filter(|x| **x > a && **x <= e).map(|x| x - a).collect();
                ensure_eq!(breaks_of(&s), w, "breaks:subseq", "subseq {}..{}", a, e);
                ensure_eq!(s.len(), e - a, "breaks:subseq", "length");
            }
            _ => {
                let (o, ov, ol) = gen_breaks(&mut cx.rng);
                cx.note(format!("append {:?} len {}", ov, ol));
                let mut tb: TreeBuilder<BreaksInfo> = TreeBuilder::new();
                tb.push(b.clone());
                tb.push(o);
                b = tb.build();
                v.extend(ov.iter().map(|x| x + len));
                len += ol;
            }
        }
        ensure_eq!(b.len(), len, "breaks:len", "length");
        ensure_eq!(breaks_of(&b), v, "breaks:content", "break positions");
        ensure_eq!(b.measure::<BreaksMetric>(), v.len(), "breaks:measure", "number of breaks");
        cx.state(hash_str(&format!("{:?}", v)));
        for _ in 0..10 {
            cx.count("break_queries", 5);
            let p = if !v.is_empty() && cx.rng.bool() { (v[cx.rng.below(v.len())] + cx.rng.below(3)).saturating_sub(1).min(len) } else { cx.rng.below(len + 1) };
            ensure_eq!(b.count::<BreaksMetric>(p), v.iter().filter(|x| **x <= p).count(), "breaks:count", "breaks up to {}", p);
            let k = cx.rng.below(v.len() + 1);
            if k > 0 {
                ensure_eq!(b.count_base_units::<BreaksMetric>(k), v[k - 1], "breaks:offset", "offset of break {}", k);
            }
            let mut c = Cursor::new(&b, p);
            ensure_eq!(c.is_boundary::<BreaksMetric>(), v.contains(&p), "breaks:is_boundary", "is_boundary({})", p);
            ensure_eq!(c.pos(), p, "breaks:is_boundary", "is_boundary moved the cursor");
            let w = v.iter().cloned().find(|x| *x > p);
            ensure_eq!(c.next::<BreaksMetric>(), w, "breaks:next", "next after {}", p);
            let mut c = Cursor::new(&b, p);
            let w = v.iter().rev().cloned().find(|x| *x < p);
            ensure_eq!(c.prev::<BreaksMetric>(), w, "breaks:prev", "prev before {}", p);
            if let Some(x) = w {
                ensure_eq!(c.pos(), x, "breaks:prev", "position after prev");
                let w = v.iter().cloned().find(|y| *y > x);
                ensure_eq!(c.next::<BreaksMetric>(), w, "breaks:next", "next after prev from {}", p);
            }
        }
    }
    let h = cx.trace_hash();
    cx.key(h, v.len() > 1);
    if cx.want_sample() {
        cx.sample(json!({"breaks": v.len(), "len": len}));
    }
    Ok(())
}

pub fn prop() -> Prop {
    let mut p = Prop::new(
        "C10",
        "Random span sets (0-6000 units, up to ~3000 spans over many leaves) and break sets (0-500 breaks) put through edits, shape changes by deltas, slices, merges, deletion, concatenation and coordinate transforms, compared with a per-unit colouring / a sorted list of positions, including cursor moves and metric conversions. Non-trivial: more than one span or break.",
        vec![
            Suite { name: "spans", f: spans_case, quick: 50_000, thorough: 200_000 },
            Suite { name: "breaks", f: breaks_case, quick: 70_000, thorough: 300_000 },
        ],
    );
    p.must_observe = &["shape_changes", "merges", "transforms", "break_queries"];
    p
}
