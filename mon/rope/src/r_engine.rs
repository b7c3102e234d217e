//! C04: rebasing edits made against old revisions. C05: undo, redo and garbage
//! collection. C06: convergence of merged replicas.
//!
//! Every character of a history is unique, so the text itself identifies the
//! surviving insertions and their order.
use monlib::*;
use serde_json::json;
use std::collections::{BTreeSet, HashMap};
use xi_rope::delta::Builder;
use xi_rope::engine::Engine;
use xi_rope::{Rope, RopeDelta};

fn st(r: &Rope) -> String {
    String::from(r)
}

/// Allocates characters never used before in this history, of 1 to 4 bytes.
struct Ids(u32, u32, u32, u32);
impl Ids {
    fn new() -> Ids {
        Ids(0x21, 0xa1, 0x800, 0x1_0000)
    }
    fn ch(&mut self, r: &mut Rng) -> char {
        let c = match r.below(4) {
            0 if self.0 < 0x7f => &mut self.0,
            0 | 1 if self.1 < 0x7ff => &mut self.1,
            2 if self.2 < 0xd7ff => &mut self.2,
            _ => &mut self.3,
        };
        let x = *c;
        *c += 1;
        char::from_u32(x).unwrap()
    }
    fn string(&mut self, r: &mut Rng, n: usize) -> Vec<char> {
        (0..n).map(|_| self.ch(r)).collect()
    }
}

#[derive(Clone, Debug)]
struct Edit {
    /// in characters of the base revision
    parts: Vec<(usize, usize, Vec<char>)>,
}

fn gen_edit(r: &mut Rng, ids: &mut Ids, len: usize, hot: usize) -> Edit {
    let n = *r.pick(&[1usize, 1, 1, 2, 3]);
    let mut cuts: Vec<usize> = (0..2 * n)
        .map(|_| if r.chance(1, 3) { hot.min(len) } else { r.below(len + 1) })
        .collect();
    cuts.sort();
    let mut parts = Vec::new();
    for c in cuts.chunks(2) {
        let kind = r.below(5);
        let b = if kind < 2 { c[0] } else { c[1].min(c[0] + r.below(8)) };
        let k = if kind == 4 { 0 } else { 1 + r.below(4) };
        let t = ids.string(r, k);
        // a delta does not separate adjacent replacements
        match parts.last_mut() {
            Some((_, e, pt)) if *e == c[0] => {
                let pt: &mut Vec<char> = pt;
                *e = b;
                pt.extend(t);
            }
            _ => parts.push((c[0], b, t)),
        }
    }
    Edit { parts }
}

impl Edit {
    fn delta(&self, base: &[char]) -> RopeDelta {
        let mut off = vec![0usize];
        for c in base {
            off.push(off.last().unwrap() + c.len_utf8());
        }
        let mut b = Builder::new(*off.last().unwrap());
        for (s, e, t) in &self.parts {
            let t: String = t.iter().collect();
            if t.is_empty() {
                b.delete(off[*s]..off[*e]);
            } else {
                b.replace(off[*s]..off[*e], Rope::from(t));
            }
        }
        b.build()
    }
}

#[derive(Clone, Debug)]
struct El {
    ins_group: Option<usize>,
    /// revision serial that inserted it
    ins_rev: usize,
    dels: Vec<(usize, usize)>,
}

#[derive(Clone)]
struct MRev {
    token: u64,
    union: Vec<char>,
    text: Vec<char>,
    /// priority if it inserted something
    prio: Option<usize>,
    serial: usize,
    group: Option<usize>,
}

/// The sequential model: one list of tagged characters.
struct Model {
    els: HashMap<char, El>,
    revs: Vec<MRev>,
    undone: BTreeSet<usize>,
    serial: usize,
}

impl Model {
    fn new(initial: Vec<char>, token: u64) -> Model {
        let mut els = HashMap::new();
        for c in &initial {
            els.insert(*c, El { ins_group: Some(0), ins_rev: 0, dels: vec![] });
        }
        Model {
            els,
            revs: vec![MRev { token, union: initial.clone(), text: initial, prio: None, serial: 0, group: Some(0) }],
            undone: BTreeSet::new(),
            serial: 0,
        }
    }
    fn head(&self) -> &MRev {
        self.revs.last().unwrap()
    }
    fn visible(&self, c: char) -> bool {
        let e = &self.els[&c];
        e.ins_group.map_or(true, |g| !self.undone.contains(&g)) && e.dels.iter().all(|(g, _)| self.undone.contains(g))
    }
    fn view(&self, u: &[char]) -> Vec<char> {
        u.iter().cloned().filter(|c| self.visible(*c)).collect()
    }
    fn edit(&mut self, base: usize, prio: usize, group: usize, e: &Edit) {
        self.serial += 1;
        let b = self.revs[base].clone();
        let mut union = self.head().union.clone();
        let mut any = false;
        let pos_in = |u: &[char], c: Option<char>| c.map(|c| u.iter().position(|x| *x == c).unwrap());
        for (s, end, ins) in &e.parts {
            for c in &b.text[*s..*end] {
                self.els.get_mut(c).unwrap().dels.push((group, self.serial));
            }
            if ins.is_empty() {
                continue;
            }
            any = true;
            // the gap sits before the next character visible at the base revision
            let mut right = b.text.get(*s).cloned();
            let mut left = match pos_in(&b.union, right) {
                Some(0) => None,
                Some(p) => Some(b.union[p - 1]),
                None => b.union.last().cloned(),
            };
            for r in &self.revs[base + 1..] {
                if let Some(p) = r.prio {
                    let lo = pos_in(&r.union, left).map_or(0, |p| p + 1);
                    let hi = pos_in(&r.union, right).unwrap_or_else(|| r.union.len());
                    if lo < hi {
                        if prio >= p {
                            left = Some(r.union[hi - 1]);
                        } else {
                            right = Some(r.union[lo]);
                        }
                    }
                }
            }
            // inserts of the same edit in the same gap keep their order
            let at = pos_in(&union, right).unwrap_or_else(|| union.len());
            for (i, c) in ins.iter().enumerate() {
                union.insert(at + i, *c);
                self.els.insert(*c, El { ins_group: Some(group), ins_rev: self.serial, dels: vec![] });
            }
        }
        let text = self.view(&union);
        self.revs.push(MRev { token: 0, union, text, prio: if any { Some(prio) } else { None }, serial: self.serial, group: Some(group) });
    }
    fn undo(&mut self, groups: BTreeSet<usize>) {
        self.serial += 1;
        self.undone = groups;
        let union = self.head().union.clone();
        let text = self.view(&union);
        self.revs.push(MRev { token: 0, union, text, prio: None, serial: self.serial, group: None });
    }
    /// Forget the groups: what they undid or deleted is gone for good.
    fn gc(&mut self, groups: &BTreeSet<usize>) {
        let mut head = self.head().clone();
        let last = head.serial;
        let mut gone = BTreeSet::new();
        for c in &head.union {
            let undone = &self.undone;
            let e = self.els.get_mut(c).unwrap();
            let dead_ins = e.ins_group.map_or(false, |g| groups.contains(&g) && undone.contains(&g)) && e.ins_rev != last;
            let dead_del = e.dels.iter().any(|(g, s)| groups.contains(g) && !undone.contains(g) && *s != last);
            if dead_ins || dead_del {
                gone.insert(*c);
            }
            if e.ins_rev != last && e.ins_group.map_or(false, |g| groups.contains(&g)) {
                e.ins_group = None;
            }
            e.dels.retain(|(g, s)| !groups.contains(g) || *s == last);
        }
        head.union.retain(|c| !gone.contains(c));
        // later rebases only go back to the current head
        head.prio = None;
        self.revs = vec![head];
    }
}

fn s(v: &[char]) -> String {
    v.iter().collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Rebase,
    Undo,
}

fn rebase_case(cx: &mut Cx) -> Result<(), Fail> {
    history(cx, Mode::Rebase)
}
fn undo_case(cx: &mut Cx) -> Result<(), Fail> {
    history(cx, Mode::Undo)
}

fn history(cx: &mut Cx, mode: Mode) -> Result<(), Fail> {
    let r = history_run(cx, mode);
    let h = cx.trace_hash();
    let n = cx.trace_len();
    cx.key(h, n > 2);
    if cx.want_sample() {
        let v = cx.trace_head(12);
        cx.sample(json!(v));
    }
    r
}

fn check_head(cx: &mut Cx, e: &Engine, m: &Model) -> Result<(), Fail> {
    let want = s(&m.head().text);
    ensure_eq!(st(e.get_head()), want, "engine:head", "head text");
    cx.state(hash_str(&want));
    cx.count("revisions", 1);
    Ok(())
}

fn check_old(cx: &mut Cx, e: &Engine, m: &Model, k: usize) -> Result<(), Fail> {
    let r = &m.revs[k];
    let want = s(&r.text);
    let got = e.get_rev(r.token).map(|r| st(&r));
    ensure_eq!(got, Some(want.clone()), "engine:get_rev", "content of revision {} of {}", k, m.revs.len());
    let d = match e.try_delta_rev_head(r.token) {
        Ok(d) => d,
        Err(err) => fail!("engine:delta_rev_head", "no delta from revision {}: {:?}", k, err),
    };
    ensure_eq!(st(&d.apply(&Rope::from(&want))), s(&m.head().text), "engine:delta_rev_head", "delta from revision {} of {} to head", k, m.revs.len());
    cx.count("old_revisions_checked", 1);
    Ok(())
}

fn history_run(cx: &mut Cx, mode: Mode) -> Result<(), Fail> {
    let mut ids = Ids::new();
    let n0 = cx.rng.below(12);
    let initial = ids.string(&mut cx.rng, n0);
    let mut e = Engine::new(Rope::from(s(&initial)));
    let mut m = Model::new(initial.clone(), e.get_head_rev_id().token());
    cx.note(format!("new {:?}", s(&initial)));
    let steps = if cx.thorough { 2 + cx.rng.below(60) } else { 2 + cx.rng.below(25) };
    let hot = cx.rng.below(6);
    let mut next_group = 1;
    let mut dead: BTreeSet<usize> = [0].iter().cloned().collect();
    let mut live: Vec<usize> = Vec::new();
    for _ in 0..steps {
        let op = match mode {
            Mode::Rebase => cx.rng.weighted(&[8, 0, 0, 1]),
            Mode::Undo => cx.rng.weighted(&[8, 5, 2, 1]),
        };
        match op {
            0 => {
                let base = match cx.rng.below(3) {
                    0 => m.revs.len() - 1,
                    1 => m.revs.len() - 1 - cx.rng.below(3.min(m.revs.len())),
                    _ => cx.rng.below(m.revs.len()),
                };
                let group = if !live.is_empty() && cx.rng.chance(1, 3) {
                    *cx.rng.pick(&live)
                } else {
                    next_group += 1;
                    live.push(next_group - 1);
                    next_group - 1
                };
                let prio = *cx.rng.pick(&[0usize, 1, 1, 3, 4, 65536]);
                let bt = m.revs[base].text.clone();
                let ed = gen_edit(&mut cx.rng, &mut ids, bt.len(), hot);
                cx.note(format!("edit base=r{} prio={} group={} {:?}", base, prio, group, ed.parts.iter().map(|(a, b, t)| (a, b, s(t))).collect::<Vec<_>>()));
                if base + 1 < m.revs.len() {
                    cx.count("rebased_edits", 1);
                }
                m.edit(base, prio, group, &ed);
                let tok = m.revs[base].token;
                if let Err(err) = e.try_edit_rev(prio, group, tok, ed.delta(&bt)) {
                    fail!("engine:edit", "valid edit refused: {:?}", err);
                }
            }
            1 => {
                // any subset of the groups still undoable
                let k = cx.rng.below(4);
                let mut g = if cx.rng.bool() { m.undone.clone() } else { BTreeSet::new() };
                for _ in 0..k {
                    if !live.is_empty() {
                        let x = *cx.rng.pick(&live);
                        if !g.remove(&x) {
                            g.insert(x);
                        }
                    }
                }
                g.retain(|x| !dead.contains(x));
                cx.note(format!("undo {:?}", g));
                cx.count("undos", 1);
                let before = s(&m.head().text);
                let old = m.undone.clone();
                m.undo(g.clone());
                e.undo(g);
                let tok = e.get_head_rev_id().token();
                m.revs.last_mut().unwrap().token = tok;
                check_head(cx, &e, &m)?;
                // undoing and redoing restores the text
                if cx.rng.chance(1, 3) && old.iter().all(|x| !dead.contains(x)) {
                    m.undo(old.clone());
                    e.undo(old);
                    cx.note("redo");
                    ensure_eq!(st(e.get_head()), before, "engine:undo_redo", "undo then redo");
                } else {
                    continue;
                }
            }
            2 => {
                let mut g: BTreeSet<usize> = BTreeSet::new();
                for x in &live {
                    if cx.rng.chance(1, 3) {
                        g.insert(*x);
                    }
                }
                // the group of the newest revision stays (it is still open)
                if let Some(x) = m.head().group {
                    g.remove(&x);
                }
                cx.note(format!("gc {:?}", g));
                cx.count("gcs", 1);
                let head_tok = e.get_head_rev_id().token();
                e.gc(&g);
                m.gc(&g);
                ensure_eq!(e.get_head_rev_id().token(), head_tok, "engine:gc", "head revision after gc");
                dead.extend(&g);
                live.retain(|x| !g.contains(x));
                check_head(cx, &e, &m)?;
                check_old(cx, &e, &m, 0)?;
                continue;
            }
            _ => {
                // rejected edits change nothing
                let before = e.get_head_rev_id().token();
                let bt = s(&m.head().text);
                let bad_tok = cx.rng.chance(1, 2);
                let extra = if bad_tok { 0 } else { 1 + cx.rng.below(3) };
                let d = RopeDelta::simple_edit(0..0, Rope::from("bad"), bt.len() + extra);
                let tok = if bad_tok { 0x1234_5678_9abc_def0 } else { before };
                cx.note(format!("bad edit tok={} extra={}", bad_tok, extra));
                cx.count("rejected_edits", 1);
                ensure!(e.try_edit_rev(1, next_group + 1000, tok, d).is_err(), "engine:bad_edit", "bad edit accepted");
                ensure_eq!(e.get_head_rev_id().token(), before, "engine:bad_edit", "rejected edit made a revision");
                ensure!(e.get_rev(0x1234_5678_9abc_def0).is_none(), "engine:get_rev", "unknown revision found");
                check_head(cx, &e, &m)?;
                continue;
            }
        }
        let tok = e.get_head_rev_id().token();
        m.revs.last_mut().unwrap().token = tok;
        check_head(cx, &e, &m)?;
        if cx.rng.chance(1, 2) {
            let k = cx.rng.below(m.revs.len());
            check_old(cx, &e, &m, k)?;
        }
    }
    for k in 0..m.revs.len() {
        check_old(cx, &e, &m, k)?;
    }
    // tokens of different revisions differ
    let toks: BTreeSet<u64> = m.revs.iter().map(|r| r.token).collect();
    let n = m.revs.iter().filter(|r| r.token != 0).count();
    ensure!(toks.iter().filter(|t| **t != 0).count() == n, "engine:tokens", "two revisions share a token");
    // equivalence never claims different texts equal
    let back: Engine = serde_json::from_str(&serde_json::to_string(&e).unwrap()).unwrap();
    ensure_eq!(st(back.get_head()), s(&m.head().text), "engine:serde", "restored head");
    let k = cx.rng.below(m.revs.len());
    ensure_eq!(back.get_rev(m.revs[k].token).map(|r| st(&r)), Some(s(&m.revs[k].text)), "engine:serde", "restored revision");
    Ok(())
}

// ------------------------------------------------------------------- merging

fn merge_case(cx: &mut Cx) -> Result<(), Fail> {
    let r = merge_run(cx);
    let h = cx.trace_hash();
    let n = cx.trace_len();
    cx.key(h, n > 3);
    if cx.want_sample() {
        let v = cx.trace_head(12);
        cx.sample(json!(v));
    }
    r
}

/// Is `a` a subsequence-compatible order: characters common to both are in the same order.
fn same_order(a: &str, b: &str) -> bool {
    let pos: HashMap<char, usize> = b.chars().enumerate().map(|(i, c)| (c, i)).collect();
    let mut last = None;
    for c in a.chars() {
        if let Some(p) = pos.get(&c) {
            if last.map_or(false, |l| l >= *p) {
                return false;
            }
            last = Some(*p);
        }
    }
    true
}

fn merge_run(cx: &mut Cx) -> Result<(), Fail> {
    let npeers = *cx.rng.pick(&[2usize, 3, 3, 4, 5]);
    let mut ids = Ids::new();
    let mut engines: Vec<Engine> = Vec::new();
    // sessions in no particular order relative to the peer numbers
    let mut sess: Vec<u64> = (1..=npeers as u64).collect();
    cx.rng.shuffle(&mut sess);
    for i in 0..npeers {
        let mut e = Engine::empty();
        if cx.rng.chance(1, 4) {
            e.set_session_id((7, sess[i] as u32));
        } else {
            e.set_session_id((sess[i] * 31, 0));
        }
        engines.push(e);
    }
    // with tuple sessions (7, k) may collide with nothing: 31*k != 7
    let nprio = *cx.rng.pick(&[1usize, 1, 2, 4]);
    // what every peer has seen: characters inserted and deleted
    let mut ins: Vec<BTreeSet<char>> = vec![BTreeSet::new(); npeers];
    let mut del: Vec<BTreeSet<char>> = vec![BTreeSet::new(); npeers];
    let mut docs: Vec<String> = Vec::new();
    let mut old: Vec<Vec<(u64, String)>> = vec![Vec::new(); npeers];
    let steps = if cx.thorough { 3 + cx.rng.below(30) } else { 3 + cx.rng.below(16) };
    let hot = cx.rng.below(4);
    let mut group = 1;
    let pmerge = *cx.rng.pick(&[1usize, 2, 4]);
    let check = |cx: &mut Cx, engines: &[Engine], i: usize, ins: &[BTreeSet<char>], del: &[BTreeSet<char>], docs: &mut Vec<String>| -> Result<(), Fail> {
        let t = st(engines[i].get_head());
        cx.state(hash_str(&t));
        let got: BTreeSet<char> = t.chars().collect();
        ensure!(got.len() == t.chars().count(), "merge:duplicate", "peer {} has duplicated text {:?}", i, t);
        let want: BTreeSet<char> = ins[i].difference(&del[i]).cloned().collect();
        ensure_eq!(got, want, "merge:content", "surviving characters at peer {}", i);
        docs.push(t);
        Ok(())
    };
    for _ in 0..steps {
        let i = cx.rng.below(npeers);
        if cx.rng.chance(pmerge, 6) {
            let mut j = cx.rng.below(npeers);
            if j == i {
                j = (j + 1) % npeers;
            }
            cx.note(format!("merge p{} <- p{}", i, j));
            let o = engines[j].clone_via();
            engines[i].merge(&o);
            let (a, b) = (ins[j].clone(), del[j].clone());
            ins[i].extend(a);
            del[i].extend(b);
            cx.count("merges", 1);
        } else {
            let head = engines[i].get_head_rev_id().token();
            let (tok, bt) = if cx.rng.chance(1, 6) && !old[i].is_empty() { cx.rng.pick(&old[i]).clone() } else { (head, st(engines[i].get_head())) };
            let bc: Vec<char> = bt.chars().collect();
            let ed = gen_edit(&mut cx.rng, &mut ids, bc.len(), hot);
            let prio = cx.rng.below(nprio);
            for (a, b, t) in &ed.parts {
                del[i].extend(&bc[*a..*b]);
                ins[i].extend(t.iter());
            }
            cx.note(format!("p{} (session {}) edit{} prio={} {:?}", i, sess[i], if tok == head { "" } else { " old rev" }, prio, ed.parts.iter().map(|(a, b, t)| (a, b, s(t))).collect::<Vec<_>>()));
            group += 1;
            if let Err(err) = engines[i].try_edit_rev(prio, group, tok, ed.delta(&bc)) {
                fail!("merge:edit", "valid edit refused: {:?}", err);
            }
            old[i].push((engines[i].get_head_rev_id().token(), st(engines[i].get_head())));
            cx.count("edits", 1);
        }
        check(cx, &engines, i, &ins, &del, &mut docs)?;
        // revisions seen before keep their text
        if let Some((t, w)) = old[i].last() {
            if cx.rng.chance(1, 4) {
                if let Some(r) = engines[i].get_rev(*t) {
                    ensure_eq!(st(&r), *w, "merge:get_rev", "old revision changed by a merge");
                }
            }
        }
    }
    // everyone learns everything, in random orders
    let mut rounds = 0;
    loop {
        let mut order: Vec<(usize, usize)> = (0..npeers).flat_map(|i| (0..npeers).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
        cx.rng.shuffle(&mut order);
        for (i, j) in order {
            if ins[j].is_subset(&ins[i]) && del[j].is_subset(&del[i]) && cx.rng.bool() {
                continue;
            }
            cx.note(format!("final merge p{} <- p{}", i, j));
            let o = engines[j].clone_via();
            engines[i].merge(&o);
            let (a, b) = (ins[j].clone(), del[j].clone());
            ins[i].extend(a);
            del[i].extend(b);
            check(cx, &engines, i, &ins, &del, &mut docs)?;
            cx.count("merges", 1);
        }
        rounds += 1;
        if rounds == 2 {
            break;
        }
    }
    let t0 = st(engines[0].get_head());
    for i in 1..npeers {
        ensure_eq!(st(engines[i].get_head()), t0, "merge:diverged", "peer {} and peer 0 saw the same edits", i);
    }
    for d in &docs {
        ensure!(same_order(d, &t0), "merge:order", "characters of {:?} changed order in {:?}", d, t0);
    }
    cx.count("converged", 1);
    // merging again changes nothing
    let o = engines[1].clone_via();
    engines[0].merge(&o);
    ensure_eq!(st(engines[0].get_head()), t0, "merge:idempotent", "merging known edits again");
    Ok(())
}

trait CloneVia {
    fn clone_via(&self) -> Engine;
}
impl CloneVia for Engine {
    /// The state a peer receives: the serialised form.
    fn clone_via(&self) -> Engine {
        serde_json::from_str(&serde_json::to_string(self).unwrap()).unwrap()
    }
}

pub fn props() -> Vec<Prop> {
    let mut a = Prop::new(
        "C04",
        "Random revision histories (2-60 edits over a text of unique characters) where every edit names any earlier revision as its base, with random priorities; head text, content of every revision and the delta from every revision to the head are compared with a tagged-character list model; edits naming an unknown revision or with the wrong base length must be refused without effect. Non-trivial: more than one edit.",
        vec![Suite { name: "rebase", f: rebase_case, quick: 80_000, thorough: 300_000 }],
    );
    a.must_observe = &["rebased_edits", "old_revisions_checked", "rejected_edits"];
    let mut b = Prop::new(
        "C05",
        "Random histories mixing edits on any retained revision, undo to arbitrary sets of groups (nested, interleaved, edits into undone groups), undo+redo pairs and garbage collection of random groups; the head after every step, and every retained revision, is compared with a tagged-character model in which a character is visible iff its insertion is not undone and every deletion of it is. Non-trivial: more than one operation.",
        vec![Suite { name: "undo", f: undo_case, quick: 80_000, thorough: 300_000 }],
    );
    b.must_observe = &["undos", "gcs", "rebased_edits"];
    let mut c = Prop::new(
        "C06",
        "2-5 replicas edit concurrently (also on their own old revisions, with 1-4 priorities) and merge serialised states of each other in random topologies and orders; each replica must hold exactly the characters inserted and not deleted by edits it has seen, and after full exchange all must agree, keep every order previously shown, and re-merging must be a no-op. Non-trivial: at least three events.",
        vec![Suite { name: "merge", f: merge_case, quick: 50_000, thorough: 150_000 }],
    );
    c.must_observe = &["merges", "edits", "converged"];
    vec![a, b, c]
}
