//! C02: deltas; C03: subsets.
use monlib::*;
use serde_json::{json, Value};
use xi_rope::delta::{Builder, Delta, DeltaElement, InsertDelta, Transformer};
use xi_rope::multiset::{CountMatcher, Subset, SubsetBuilder};
use xi_rope::{Interval, Rope, RopeDelta, RopeInfo};

/// A base text and an edit script, with the delta built from it.
#[derive(Clone, Debug)]
pub struct Script {
    pub edits: Vec<(usize, usize, String)>,
}

pub fn gen_script(rng: &mut Rng, s: &str, max_edits: usize) -> Script {
    let n = match rng.below(5) {
        0 => 1,
        1 => 0,
        _ => rng.below(max_edits + 1),
    };
    let mut cuts: Vec<usize> = (0..2 * n).map(|_| text::pos(rng, s)).collect();
    cuts.sort();
    let mut edits = Vec::new();
    for c in cuts.chunks(2) {
        let (a, mut b) = (c[0], c[1]);
        if rng.chance(2, 5) {
            b = a; // pure insert
        }
        let ins = match rng.below(5) {
            0 | 1 => String::new(),
            2 => text::any(rng, 1500),
            _ => {
                let n = rng.below(6);
                text::gen(rng, text::NASTY, n)
            }
        };
        edits.push((a, b, ins));
    }
    Script { edits }
}

impl Script {
    pub fn build(&self, base_len: usize) -> RopeDelta {
        let mut b = Builder::new(base_len);
        for (s, e, t) in &self.edits {
            if t.is_empty() {
                b.delete(*s..*e);
            } else {
                b.replace(*s..*e, Rope::from(t));
            }
        }
        b.build()
    }
    pub fn apply(&self, s: &str) -> String {
        let mut out = String::new();
        let mut last = 0;
        for (a, b, t) in &self.edits {
            out.push_str(&s[last..*a]);
            out.push_str(t);
            last = *b;
        }
        out.push_str(&s[last..]);
        out
    }
}

fn st(r: &Rope) -> String {
    String::from(r)
}

/// The count of every element, read off the serialised form.
fn counts(s: &Subset) -> Vec<usize> {
    let mut v = Vec::new();
    let j = serde_json::to_value(s).unwrap();
    for seg in j["segments"].as_array().unwrap() {
        v.extend(std::iter::repeat(seg["count"].as_u64().unwrap() as usize).take(seg["len"].as_u64().unwrap() as usize));
    }
    v
}

fn subset_of(c: &[usize]) -> Subset {
    let mut sb = SubsetBuilder::new();
    let mut i = 0;
    while i < c.len() {
        let mut j = i;
        while j < c.len() && c[j] == c[i] {
            j += 1;
        }
        sb.push_segment(j - i, c[i]);
        i = j;
    }
    sb.build()
}

/// For each base byte, whether the delta keeps it, computed from the script.
fn kept(sc: &Script, len: usize) -> Vec<bool> {
    let mut k = vec![true; len];
    for (a, b, _) in &sc.edits {
        for x in &mut k[*a..*b] {
            *x = false;
        }
    }
    k
}

/// gap -> inserted text of an insert-only delta, read off its elements.
fn inserts_of(d: &InsertDelta<RopeInfo>, base_len: usize) -> Result<Vec<(usize, String)>, Fail> {
    let mut v: Vec<(usize, String)> = Vec::new();
    let mut pos = 0;
    ensure_eq!(d.base_len, base_len, "delta:base_len", "base_len of insert delta");
    for e in &d.els {
        match e {
            DeltaElement::Copy(b, e) => {
                ensure!(*b == pos && e >= b, "delta:insert_only", "insert delta does not copy everything: {:?}", d.els.len());
                pos = *e;
            }
            DeltaElement::Insert(n) => {
                let t = st(n);
                match v.last_mut() {
                    Some((p, s)) if *p == pos => s.push_str(&t),
                    _ => v.push((pos, t)),
                }
            }
        }
    }
    ensure_eq!(pos, base_len, "delta:insert_only", "insert delta does not copy to the end");
    v.retain(|(_, t)| !t.is_empty());
    Ok(v)
}

fn delta_case(cx: &mut Cx) -> Result<(), Fail> {
    let n = if cx.rng.chance(1, 6) { 6000 } else { 120 };
    let base_s = text::any(&mut cx.rng, n);
    let me = if cx.rng.chance(1, 5) { 20 } else { 5 };
    let sc = gen_script(&mut cx.rng, &base_s, me);
    cx.key(mix(hash_str(&base_s), hash_str(&format!("{:?}", sc))), !sc.edits.is_empty() && !base_s.is_empty());
    if cx.want_sample() {
        cx.sample(json!({"base": short(&base_s), "edits": short(&sc.edits)}));
    }
    let r = delta_run(cx, &base_s, &sc);
    r.map_err(|f| f.detail(format!("base {:?}\nedits {:?}", base_s, sc.edits)))
}

fn delta_run(cx: &mut Cx, base_s: &str, sc: &Script) -> Result<(), Fail> {
    let base = Rope::from(base_s);
    let want = sc.apply(base_s);
    let d = sc.build(base_s.len());
    cx.count("deltas", 1);
    // application and measures
    let got = d.apply(&base);
    ensure!(st(&got) == want, "delta:apply", "apply: got {} want {}", short(&st(&got)), short(&want));
    ensure!(st(&base) == base_s, "delta:base_changed", "apply changed its base");
    ensure_eq!(d.new_document_len(), want.len(), "delta:new_document_len", "new_document_len");
    ensure_eq!(d.inserts_len(), sc.edits.iter().map(|e| e.2.len()).sum::<usize>(), "delta:inserts_len", "inserts_len");
    if d.is_identity() {
        ensure!(want == base_s, "delta:is_identity", "is_identity on a changing delta");
    }
    if sc.edits.is_empty() {
        ensure!(d.is_identity(), "delta:is_identity", "empty script not identity");
    }
    let keep = kept(sc, base_s.len());
    let ndel = keep.iter().filter(|k| !**k).count();
    let groups = keep.iter().enumerate().filter(|(i, k)| !**k && (*i == 0 || keep[i - 1])).count();
    let any_ins = sc.edits.iter().any(|e| !e.2.is_empty());
    if let Some(n) = d.as_simple_insert() {
        let ins: Vec<_> = sc.edits.iter().filter(|e| !e.2.is_empty()).collect();
        ensure!(ndel == 0 && ins.len() == 1 && st(n) == ins[0].2, "delta:simple_insert", "as_simple_insert on {:?}", short(&sc.edits));
    } else if sc.edits.len() == 1 && ndel == 0 && any_ins {
        fail!("delta:simple_insert", "single insertion not recognised");
    }
    if d.is_simple_delete() {
        ensure!(!any_ins && groups == 1, "delta:simple_delete", "is_simple_delete on {}", short(&sc.edits));
    } else if sc.edits.len() == 1 && ndel > 0 && !any_ins {
        fail!("delta:simple_delete", "single deletion not recognised");
    }
    // summary
    let (iv, nl) = d.summary();
    ensure!(iv.start() <= iv.end() && iv.end() <= base_s.len(), "delta:summary", "summary interval out of range");
    let re = RopeDelta::simple_edit(iv, got.subseq(Interval::new(iv.start(), iv.start() + nl)), base_s.len());
    ensure!(st(&re.apply(&base)) == want, "delta:summary", "summary {} {} does not reproduce the edit", iv, nl);
    // factor
    let (ins, del) = d.clone().factor();
    let insd = inserts_of(&ins, base_s.len())?;
    ensure_eq!(del.len(), base_s.len(), "delta:factor", "deletion subset length");
    ensure!(counts(&del).iter().map(|c| *c == 0).eq(keep.iter().cloned()), "delta:factor", "factored deletions differ");
    let is = ins.inserted_subset();
    let union = ins.apply(&base);
    ensure!(st(&is.delete_from(&union)) == base_s, "delta:inserted_subset", "deleting the inserted subset does not give the base back");
    let del2 = del.transform_expand(&is);
    ensure!(st(&del2.delete_from(&union)) == want, "delta:factor", "insert then delete differs from the delta");
    // synthesize is the inverse of factor
    let tomb = is.complement().delete_from(&union);
    let d2 = Delta::synthesize(&tomb, &is, &del2);
    ensure_eq!(d2.base_len, base_s.len(), "delta:synthesize", "base_len");
    ensure!(st(&d2.apply(&base)) == want, "delta:synthesize", "synthesized delta differs");
    // and the inverse of the delta
    let tomb2 = del2.complement().delete_from(&union);
    let inv = Delta::synthesize(&tomb2, &del2, &is);
    ensure!(st(&inv.apply(&got)) == base_s, "delta:inverse", "inverse does not restore the base");
    // regions
    let mut cover = vec![true; base_s.len()];
    for r in d.iter_deletions() {
        cx.count("regions", 1);
        ensure!(r.len > 0 && r.old_offset + r.len <= base_s.len(), "delta:iter_deletions", "deletion {:?} out of range", r);
        for x in &mut cover[r.old_offset..r.old_offset + r.len] {
            ensure!(*x, "delta:iter_deletions", "overlapping deletions");
            *x = false;
        }
        let before = Transformer::new(&d).transform(r.old_offset, false);
        ensure!(r.new_offset >= before && r.new_offset <= want.len(), "delta:iter_deletions", "new offset of {:?}", r);
    }
    ensure!(cover == keep, "delta:iter_deletions", "deleted regions differ: {:?}", d.iter_deletions().collect::<Vec<_>>());
    let mut rebuilt = String::new();
    let mut last = 0;
    let mut news = 0;
    for r in d.iter_inserts() {
        cx.count("regions", 1);
        ensure!(r.old_offset <= base_s.len() && r.new_offset + r.len <= want.len() && r.old_offset >= last, "delta:iter_inserts", "insert {:?} out of range", r);
        rebuilt.push_str(&want[r.new_offset..r.new_offset + r.len]);
        last = r.old_offset;
        news += r.len;
        // the inserted text starts where an edit of the script starts
        ensure!(
            sc.edits.iter().any(|e| !e.2.is_empty() && keep[e.0.min(r.old_offset)..e.0.max(r.old_offset)].iter().all(|k| !*k)),
            "delta:iter_inserts", "insert {:?} at an offset that is not an edit", r
        );
    }
    ensure_eq!(news, d.inserts_len(), "delta:iter_inserts", "total of the inserts");
    ensure!(rebuilt == sc.edits.iter().map(|e| e.2.as_str()).collect::<String>(), "delta:iter_inserts", "inserted text differs");
    // coordinate transform
    coords(cx, &d, sc, base_s.len(), want.len())?;
    // expanding and shrinking insert deltas through other texts
    xform(cx, &ins, &insd, base_s)?;
    // serialised form
    let js = serde_json::to_value(&d).unwrap();
    ensure_eq!(js["base_len"], json!(base_s.len()), "delta:serde", "base_len");
    for (a, b) in js["els"].as_array().unwrap().iter().zip(&d.els) {
        let w: Value = match b {
            DeltaElement::Copy(b, e) => json!({ "copy": [b, e] }),
            DeltaElement::Insert(n) => json!({ "insert": st(n) }),
        };
        ensure_eq!(*a, w, "delta:serde", "element");
    }
    let back: RopeDelta = serde_json::from_str(&js.to_string()).unwrap();
    ensure!(st(&back.apply(&base)) == want, "delta:serde", "deserialised delta differs");
    Ok(())
}

fn coords(cx: &mut Cx, d: &RopeDelta, sc: &Script, old: usize, new: usize) -> Result<(), Fail> {
    let keep = kept(sc, old);
    // position of every surviving byte
    let mut newpos = vec![None; old];
    {
        let mut out = 0;
        let mut last = 0;
        for (a, b, t) in &sc.edits {
            for i in last..*a {
                newpos[i] = Some(out);
                out += 1;
            }
            out += t.len();
            last = *b;
        }
        for i in last..old {
            newpos[i] = Some(out);
            out += 1;
        }
    }
    let mut tr = Transformer::new(d);
    let mut ixs: Vec<usize> = if old <= 64 { (0..=old).collect() } else { (0..60).map(|_| cx.rng.below(old + 1)).chain(sc.edits.iter().flat_map(|e| vec![e.0, e.1])).chain(vec![0, old]).collect() };
    ixs.sort();
    let (mut lb, mut la) = (0, 0);
    for ix in ixs {
        cx.count("coords", 1);
        let b = tr.transform(ix, false);
        let a = tr.transform(ix, true);
        ensure!(b <= a && a <= new, "delta:transform", "transform({}): before {} after {} new len {}", ix, b, a, new);
        ensure!(b >= lb && a >= la, "delta:transform", "transform not monotone at {}", ix);
        lb = b;
        la = a;
        if ix < old {
            if let Some(p) = newpos[ix] {
                ensure_eq!(a, p, "delta:transform", "gap before surviving byte {} (after inserts)", ix);
            }
        } else {
            ensure_eq!(a, new, "delta:transform", "end of text (after inserts)");
        }
        if ix > 0 {
            if let Some(p) = newpos[ix - 1] {
                ensure_eq!(b, p + 1, "delta:transform", "gap after surviving byte {} (before inserts)", ix - 1);
            }
        } else {
            ensure_eq!(b, 0, "delta:transform", "start of text (before inserts)");
        }
    }
    // an interval reported as untouched has no edit inside
    for _ in 0..8 {
        let x = cx.rng.below(old + 1);
        let y = x + cx.rng.below((old - x).min(8) + 1);
        if tr.interval_untouched(x..y) {
            cx.count("untouched", 1);
            ensure!(keep[x..y].iter().all(|k| *k), "delta:untouched", "interval {}..{} with a deletion reported untouched", x, y);
            ensure!(!sc.edits.iter().any(|e| !e.2.is_empty() && e.0 > x && e.0 < y), "delta:untouched", "interval {}..{} with an insertion reported untouched", x, y);
        }
    }
    Ok(())
}

fn rand_counts(rng: &mut Rng, len: usize, maxc: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(len);
    while v.len() < len {
        let n = 1 + rng.below(*rng.clone().pick(&[1usize, 3, 10, 60]));
        let c = if rng.bool() { 0 } else { rng.below(maxc + 1) };
        for _ in 0..n.min(len - v.len()) {
            v.push(c);
        }
        rng.next();
    }
    v
}

/// Interleave `zeros` elements with runs of others: counts with exactly `zeros` zeros.
fn rand_superset(rng: &mut Rng, zeros: usize, maxc: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = zeros;
    loop {
        if rng.bool() {
            let n = rng.below(4);
            let c = 1 + rng.below(maxc);
            v.extend(std::iter::repeat(c).take(n));
        }
        if left == 0 {
            break;
        }
        let n = 1 + rng.below(left.min(12));
        v.extend(std::iter::repeat(0).take(n));
        left -= n;
    }
    v
}

fn xform(cx: &mut Cx, ins: &InsertDelta<RopeInfo>, insd: &[(usize, String)], base: &str) -> Result<(), Fail> {
    // expand: base is what is left of a larger union
    let xc = rand_superset(&mut cx.rng, base.len(), 3);
    let x = subset_of(&xc);
    for &after in &[false, true] {
        cx.count("expands", 1);
        let e = ins.transform_expand(&x, after);
        let got = inserts_of(&e, xc.len())?;
        // gap g of the base is the range of union gaps [lo, hi]
        let mut want: Vec<(usize, String)> = Vec::new();
        for (g, t) in insd {
            let mut seen = 0;
            let mut lo = xc.len();
            for (i, c) in xc.iter().enumerate() {
                if seen == *g {
                    lo = i;
                    break;
                }
                if *c == 0 {
                    seen += 1;
                }
            }
            let mut hi = lo;
            while hi < xc.len() && xc[hi] != 0 {
                hi += 1;
            }
            let u = if after { hi } else { lo };
            match want.last_mut() {
                Some((p, s)) if *p == u => s.push_str(t),
                _ => want.push((u, t.clone())),
            }
        }
        ensure_eq!(got, want, "delta:transform_expand", "transform_expand(after={})", after);
        // shrinking through the same transform gives the insertions back
        let back = e.transform_shrink(&x);
        let b = inserts_of(&back, base.len())?;
        ensure_eq!(b, insd.to_vec(), "delta:transform_shrink", "shrink after expand");
    }
    // shrink by an arbitrary subset of the base
    let kc = rand_counts(&mut cx.rng, base.len(), 2);
    let k = subset_of(&kc);
    let sh = ins.transform_shrink(&k);
    let got = inserts_of(&sh, kc.iter().filter(|c| **c == 0).count())?;
    let mut want: Vec<(usize, String)> = Vec::new();
    for (g, t) in insd {
        let u = kc[..*g].iter().filter(|c| **c == 0).count();
        match want.last_mut() {
            Some((p, s)) if *p == u => s.push_str(t),
            _ => want.push((u, t.clone())),
        }
    }
    ensure_eq!(got, want, "delta:transform_shrink", "transform_shrink");
    Ok(())
}

fn subset_case(cx: &mut Cx) -> Result<(), Fail> {
    let len = match cx.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => cx.rng.below(2000),
        _ => cx.rng.below(60),
    };
    let ac = rand_counts(&mut cx.rng, len, 3);
    let bc = rand_counts(&mut cx.rng, len, 3);
    cx.key(hash_str(&format!("{:?}{:?}", ac, bc)), ac.iter().any(|c| *c > 0) && bc.iter().any(|c| *c > 0));
    if cx.want_sample() {
        cx.sample(json!({"a": short(&ac), "b": short(&bc)}));
    }
    subset_run(cx, &ac, &bc).map_err(|f| f.detail(format!("a {:?}\nb {:?}", ac, bc)))
}

fn subset_run(cx: &mut Cx, ac: &[usize], bc: &[usize]) -> Result<(), Fail> {
    let len = ac.len();
    let a = subset_of(ac);
    let b = subset_of(bc);
    let text: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let node = Rope::from(&text);
    cx.count("subset_ops", 20);
    // construction by ranges agrees with construction by segments
    {
        let mut sb = SubsetBuilder::new();
        let mut i = 0;
        while i < len {
            let mut j = i;
            while j < len && ac[j] == ac[i] {
                j += 1;
            }
            if ac[i] > 0 {
                sb.add_range(i, j, ac[i]);
            }
            i = j;
        }
        sb.pad_to_len(len);
        let r = sb.build();
        ensure_eq!(counts(&r), ac.to_vec(), "subset:builder", "built from ranges");
        ensure!(r == a, "subset:eq", "same sets compare unequal");
    }
    ensure_eq!(counts(&a), ac.to_vec(), "subset:builder", "counts");
    ensure_eq!(a == b, ac == bc, "subset:eq", "equality");
    ensure_eq!(a.len(), len, "subset:len", "len");
    ensure_eq!(a.is_empty(), ac.iter().all(|c| *c == 0), "subset:is_empty", "is_empty");
    let zeros = ac.iter().filter(|c| **c == 0).count();
    ensure_eq!(a.len_after_delete(), zeros, "subset:count", "len_after_delete");
    ensure_eq!(a.count(CountMatcher::NonZero), len - zeros, "subset:count", "count nonzero");
    ensure_eq!(a.count(CountMatcher::All), len, "subset:count", "count all");
    let del: String = text.chars().zip(ac).filter(|(_, c)| **c == 0).map(|(c, _)| c).collect();
    ensure_eq!(a.delete_from_string(&text), del, "subset:delete", "delete_from_string");
    ensure_eq!(String::from(a.delete_from(&node)), del, "subset:delete", "delete_from");
    let z = |f: &dyn Fn(usize, usize) -> usize| -> Vec<usize> { ac.iter().zip(bc).map(|(x, y)| f(*x, *y)).collect() };
    ensure_eq!(counts(&a.union(&b)), z(&|x, y| x + y), "subset:union", "union");
    ensure_eq!(counts(&a.bitxor(&b)), z(&|x, y| x ^ y), "subset:bitxor", "bitxor");
    ensure_eq!(counts(&a.union(&b).subtract(&b)), ac.to_vec(), "subset:subtract", "subtract");
    ensure_eq!(counts(&a.bitxor(&b).bitxor(&b)), ac.to_vec(), "subset:bitxor", "bitxor twice");
    ensure_eq!(counts(&a.complement()), ac.iter().map(|c| (*c == 0) as usize).collect::<Vec<_>>(), "subset:complement", "complement");
    let want: Vec<usize> = ac.iter().zip(bc).filter(|(_, y)| **y == 0).map(|(x, _)| *x).collect();
    ensure_eq!(counts(&a.transform_shrink(&b)), want, "subset:shrink", "transform_shrink");
    // expand: a into the zero regions of a larger set
    let oc = rand_superset(&mut cx.rng, len, 3);
    let o = subset_of(&oc);
    let mut it = ac.iter();
    let we: Vec<usize> = oc.iter().map(|c| if *c == 0 { *it.next().unwrap() } else { 0 }).collect();
    let e = a.transform_expand(&o);
    ensure_eq!(counts(&e), we, "subset:expand", "transform_expand");
    let wu: Vec<usize> = we.iter().zip(&oc).map(|(x, y)| x + y).collect();
    ensure_eq!(counts(&a.transform_union(&o)), wu, "subset:transform_union", "transform_union");
    ensure_eq!(counts(&e.transform_shrink(&o)), ac.to_vec(), "subset:shrink", "shrink after expand");
    // iteration
    for m in &[CountMatcher::Zero, CountMatcher::NonZero, CountMatcher::All] {
        let mut mark = vec![false; len];
        let mut last = 0;
        for (x, y) in a.range_iter(*m) {
            ensure!(x < y && y <= len && x >= last, "subset:range_iter", "range {}..{}", x, y);
            last = y;
            for k in &mut mark[x..y] {
                *k = true;
            }
        }
        let want: Vec<bool> = ac.iter().map(|c| match m { CountMatcher::Zero => *c == 0, CountMatcher::NonZero => *c != 0, CountMatcher::All => true }).collect();
        ensure_eq!(mark, want, "subset:range_iter", "range_iter {:?}", m);
        // coordinate mapping
        let mut mp = a.mapper(*m);
        let mut ixs: Vec<usize> = (0..30).map(|_| cx.rng.below(len + 2)).collect();
        ixs.sort();
        for i in ixs {
            let w = want[..i.min(len)].iter().filter(|x| **x).count();
            ensure_eq!(mp.doc_index_to_subset(i), w, "subset:mapper", "mapper({:?}) of {}", m, i);
        }
    }
    Ok(())
}

pub fn prop_delta() -> Prop {
    let mut p = Prop::new(
        "C02",
        "Random base texts (0-6 kB, all character classes) with sorted edit scripts of 0-20 replacements; the delta built from the script is applied, measured, summarised, factored, synthesized back, inverted, expanded and shrunk through random coordinate transforms, walked region by region, serialised, and used to map coordinates, against direct string/byte-index computations. Non-trivial: non-empty base and at least one edit.",
        vec![Suite { name: "delta", f: delta_case, quick: 250_000, thorough: 2_000_000 }],
    );
    p.must_observe = &["coords", "expands", "regions", "untouched"];
    p
}

pub fn prop_subset() -> Prop {
    let mut p = Prop::new(
        "C03",
        "Random pairs of counted subsets of texts of 0-2000 elements (run lengths 1-60, counts 0-3): every algebra operation, transform, range iteration and coordinate mapping is compared with the same operation on a plain vector of counts. Non-trivial: both sets are non-empty.",
        vec![Suite { name: "subset", f: subset_case, quick: 300_000, thorough: 3_000_000 }],
    );
    p.must_observe = &["subset_ops"];
    p
}
