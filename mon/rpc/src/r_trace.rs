//! C16 tracing: every sample once, the newest up to the limit, dumps that read back.
use monlib::*;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::thread;
use xi_trace::{chrome_trace_dump, Config, Sample, SampleEventType, Trace};

const CATS: &[&str] = &["mon", "x"];

fn real(v: &[Sample]) -> Vec<&Sample> {
    v.iter().filter(|s| s.event_type != SampleEventType::Metadata).collect()
}

fn payload(s: &Sample) -> Option<String> {
    s.args.as_ref().and_then(|a| a.payload.as_ref()).map(|p| p.to_string())
}

/// Model: (kind, name, payload)
type M = (char, String, Option<String>);

fn kind(s: &Sample) -> char {
    match s.event_type {
        SampleEventType::DurationBegin => 'B',
        SampleEventType::DurationEnd => 'E',
        SampleEventType::CompleteDuration => 'X',
        SampleEventType::Instant => 'i',
        _ => '?',
    }
}

fn compare(t: &Trace, model: &VecDeque<M>, limit: usize, on: bool) -> Result<(), Fail> {
    ensure_eq!(t.is_enabled(), on, "trace:enabled", "is_enabled");
    ensure_eq!(t.get_samples_limit(), limit, "trace:limit", "limit");
    ensure_eq!(t.get_samples_count(), model.len(), "trace:count", "number of samples kept (limit {})", limit);
    let all = t.samples_cloned_unsorted();
    let got: Vec<M> = real(&all).iter().map(|s| (kind(s), s.name.to_string(), payload(s))).collect();
    let want: Vec<M> = model.iter().cloned().collect();
    ensure_eq!(got, want, "trace:samples", "samples kept, in order");
    ensure_eq!(all.is_empty(), model.is_empty(), "trace:meta", "no metadata without samples");
    for s in real(&all) {
        ensure!(s.categories.as_ref().map(|c| c.join(",")) == Some("mon,x".into()), "trace:cats", "categories of {}: {:?}", s.name, s.categories);
        ensure_eq!(s.pid, std::process::id() as u64, "trace:pid", "process of a sample");
        ensure_eq!(s.duration_us.is_some(), kind(s) == 'X', "trace:dur", "duration of {:?}", s.event_type);
    }
    let mut sorted = t.samples_cloned_sorted();
    ensure!(sorted.windows(2).all(|w| w[0].timestamp_us <= w[1].timestamp_us), "trace:sort", "sorted samples are not in order of time");
    let id = |s: &Sample| format!("{:?}", s);
    let (mut a, mut b): (Vec<String>, Vec<String>) = (all.iter().map(id).collect(), sorted.drain(..).map(|s| id(&s)).collect());
    a.sort();
    b.sort();
    ensure_eq!(b, a, "trace:sort", "sorted samples are the samples");
    Ok(())
}

fn strings(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => text::any(rng, 12),
        1 => "\"\\\u{0}\n".into(),
        _ => format!("s{}", rng.below(1000)),
    }
}

/// One thread: exact model, including limits, blocks, dumps and files.
fn model_case(cx: &mut Cx) -> Result<(), Fail> {
    let mut limit = *cx.rng.pick(&[0usize, 1, 2, 7, 100]);
    let mut on = cx.rng.bool();
    let t = if on { Trace::enabled(Config::with_limit_count(limit)) } else { Trace::disabled() };
    if !on {
        limit = 0;
    }
    let mut m: VecDeque<M> = VecDeque::new();
    let mut open = Vec::new();
    let n = cx.rng.range(1, 60);
    let mut dumps = 0;
    for i in 0..n {
        let name = format!("{}:{}", i, strings(&mut cx.rng));
        let mut push = |m: &mut VecDeque<M>, x: M, limit: usize| {
            m.push_back(x);
            while m.len() > limit {
                m.pop_front();
            }
        };
        match cx.rng.below(12) {
            0 | 1 => {
                t.instant(name.clone(), CATS_ARR);
                cx.note(format!("instant {:?}", name));
                if on {
                    push(&mut m, ('i', name, None), limit);
                }
            }
            2 => {
                let p = strings(&mut cx.rng);
                t.instant_payload(name.clone(), CATS_ARR, p.clone());
                cx.note(format!("instant_payload {:?}", name));
                if on {
                    push(&mut m, ('i', name, Some(p)), limit);
                }
            }
            3 | 4 => {
                let p = if cx.rng.bool() { Some(strings(&mut cx.rng)) } else { None };
                cx.note(format!("block {:?}", name));
                let g = match &p {
                    Some(p) => t.block_payload(name.clone(), CATS_ARR, p.clone()),
                    None => t.block(name.clone(), CATS_ARR),
                };
                if on {
                    push(&mut m, ('B', name.clone(), p.clone()), limit);
                }
                open.push((g, on, name, p));
            }
            5 | 6 => {
                if !open.is_empty() {
                    let k = if cx.rng.chance(1, 4) { cx.rng.below(open.len()) } else { open.len() - 1 };
                    let (g, was_on, name, p) = open.remove(k);
                    cx.note(format!("end {:?}", name));
                    drop(g);
                    // the end of a block that was begun is always recorded
                    if was_on {
                        push(&mut m, ('E', name, p), limit);
                    }
                }
            }
            7 => {
                cx.note(format!("closure {:?}", name));
                let r = t.closure(name.clone(), CATS_ARR, || i * 3);
                ensure_eq!(r, i * 3, "trace:closure", "result of a traced closure");
                if on {
                    push(&mut m, ('X', name, None), limit);
                }
            }
            8 => {
                cx.note("disable");
                t.disable();
                on = false;
                limit = 0;
                m.clear();
            }
            9 | 10 => {
                limit = *cx.rng.pick(&[0usize, 1, 3, 10, 50, 200]);
                cx.note(format!("enable with limit {}", limit));
                t.enable_config(Config::with_limit_count(limit));
                on = true;
                while m.len() > limit {
                    m.pop_front();
                }
            }
            _ => {
                let all = t.samples_cloned_unsorted();
                let mut buf = Vec::new();
                chrome_trace_dump::serialize(&all, &mut buf).map_err(|e| Fail::new("trace:dump", format!("{:?}", e)))?;
                let back = chrome_trace_dump::deserialize(&buf[..]).map_err(|e| Fail::new("trace:dump", format!("own dump not readable: {:?}", e)))?;
                let v = chrome_trace_dump::to_value(&all).map_err(|e| Fail::new("trace:dump", format!("{:?}", e)))?;
                ensure_eq!(serde_json::from_slice::<Value>(&buf).unwrap(), v, "trace:dump", "dump and value");
                let back2 = chrome_trace_dump::decode(v).map_err(|e| Fail::new("trace:dump", format!("{:?}", e)))?;
                for b in &[back, back2] {
                    ensure_eq!(b.len(), all.len(), "trace:dump", "number of samples read back");
                    for (x, y) in b.iter().zip(all.iter()) {
                        let f = |s: &Sample| {
                            (s.name.to_string(), s.categories.as_ref().map(|c| c.join(",")), s.timestamp_us, s.event_type, s.duration_us, s.pid, s.tid, s.args.clone())
                        };
                        ensure_eq!(f(x), f(y), "trace:dump", "sample read back");
                    }
                }
                dumps += 1;
            }
        }
        compare(&t, &m, limit, on)?;
    }
    if cx.rng.chance(1, 6) {
        // saving to a file; an existing file is not overwritten
        let dir: PathBuf = std::env::var_os("MON_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = dir.join(format!("trace-{:x}-{}.json", cx.seed, std::process::id()));
        let sort = cx.rng.bool();
        t.save(&p, sort).map_err(|e| Fail::new("trace:save", format!("{:?}", e)))?;
        let s = std::fs::read(&p).unwrap();
        let again = t.save(&p, sort);
        let s2 = std::fs::read(&p).unwrap();
        std::fs::remove_file(&p).unwrap();
        ensure!(again.is_err() && s == s2, "trace:save", "saving over an existing file");
        let b = chrome_trace_dump::deserialize(&s[..]).map_err(|e| Fail::new("trace:save", format!("{:?}", e)))?;
        let (mut got, mut want): (Vec<String>, Vec<String>) = (real(&b).iter().map(|s| s.name.to_string()).collect(), m.iter().map(|x| x.1.clone()).collect());
        if sort {
            got.sort();
            want.sort();
        }
        ensure_eq!(got, want, "trace:save", "samples in the saved file");
        cx.count("saves", 1);
    }
    cx.key(cx.trace_hash(), n > 2);
    cx.state(hash_str(&format!("{:?}", m)));
    cx.count("samples", m.len() as u64);
    cx.count("dumps", dumps);
    if cx.want_sample() {
        let h = cx.trace_head(6);
        cx.sample(json!({"ops": h}));
    }
    Ok(())
}

static CATS_ARR: &[&str; 2] = &["mon", "x"];

/// Many threads: nothing lost, doubled or reordered within a thread.
pub fn threads_case(cx: &mut Cx) -> Result<(), Fail> {
    let threads = cx.rng.range(2, 6);
    let per = cx.rng.range(1, 150);
    let limit = *cx.rng.pick(&[100_000usize, 100_000, 40, 3, 0]);
    let toggling = cx.rng.chance(1, 3);
    let global = cx.rng.bool();
    cx.note(format!("{} threads, {} samples each, limit {}, toggling {}, global {}", threads, per, limit, toggling, global));
    cx.key(mix(cx.trace_hash(), cx.seed), true);
    let local = Arc::new(Trace::enabled(Config::with_limit_count(limit)));
    if global {
        xi_trace::disable_tracing();
        xi_trace::enable_tracing_with_config(Config::with_limit_count(limit));
    }
    let stop = Arc::new(AtomicBool::new(false));
    let mut hs = Vec::new();
    for t in 0..threads {
        let local = local.clone();
        let mut rng = Rng::new(cx.rng.next());
        hs.push(
            thread::Builder::new()
                .name(format!("mon{}", t))
                .spawn(move || {
                    for i in 0..per {
                        let name = format!("{}/{}", t, i);
                        match (rng.below(3), global) {
                            (0, false) => local.instant(name, CATS_ARR),
                            (0, true) => xi_trace::trace(name, CATS_ARR),
                            (1, false) => drop(local.block(name, CATS_ARR)),
                            (1, true) => drop(xi_trace::trace_block(name, CATS_ARR)),
                            (_, false) => local.closure_payload(name, CATS_ARR, || (), "p"),
                            (_, true) => xi_trace::trace_closure_payload(name, CATS_ARR, || (), "p"),
                        }
                        if rng.chance(1, 30) {
                            thread::yield_now();
                        }
                    }
                })
                .unwrap(),
        );
    }
    let reader = {
        let (local, stop) = (local.clone(), stop.clone());
        let mut rng = Rng::new(cx.rng.next());
        thread::spawn(move || {
            let mut snaps = 0u64;
            let mut bad = None;
            while !stop.load(Ordering::SeqCst) {
                let s = if global { xi_trace::samples_cloned_unsorted() } else { local.samples_cloned_unsorted() };
                let r = real(&s).len();
                if r > limit {
                    bad = Some(r);
                }
                snaps += 1;
                if toggling && rng.chance(1, 2) {
                    if global {
                        xi_trace::disable_tracing();
                    } else {
                        local.disable();
                    }
                    thread::yield_now();
                    if global {
                        xi_trace::enable_tracing_with_config(Config::with_limit_count(limit));
                    } else {
                        local.enable_config(Config::with_limit_count(limit));
                    }
                }
                thread::yield_now();
            }
            (snaps, bad)
        })
    };
    for h in hs {
        h.join().map_err(|_| Fail::new("trace:panic", "a tracing thread panicked"))?;
    }
    stop.store(true, Ordering::SeqCst);
    let (snaps, bad) = reader.join().map_err(|_| Fail::new("trace:panic", "the reading thread panicked"))?;
    ensure!(bad.is_none(), "trace:limit", "{:?} samples with limit {}", bad, limit);
    let all = if global { xi_trace::samples_cloned_unsorted() } else { local.samples_cloned_unsorted() };
    if global {
        ensure_eq!(xi_trace::samples_len(), real(&all).len(), "trace:count", "samples_len");
        xi_trace::disable_tracing();
        ensure_eq!(xi_trace::samples_len(), 0, "trace:disable", "samples after disabling");
    }
    let mut per_thread: HashMap<usize, Vec<(usize, char)>> = HashMap::new();
    let mut tids: HashMap<usize, u64> = HashMap::new();
    for s in real(&all) {
        let mut it = s.name.split('/').map(|x| x.parse::<usize>().unwrap_or(9999));
        let (t, i) = (it.next().unwrap(), it.next().unwrap_or(9999));
        per_thread.entry(t).or_default().push((i, kind(s)));
        let tid = tids.entry(t).or_insert(s.tid);
        ensure_eq!(*tid, s.tid, "trace:tid", "thread of the samples of thread {}", t);
        ensure_eq!(s.thread_name.as_ref().map(|x| x.to_string()), Some(format!("mon{}", t)), "trace:tid", "thread name");
    }
    let total = real(&all).len();
    ensure!(total <= limit, "trace:limit", "{} samples with limit {}", total, limit);
    for t in 0..threads {
        let got = per_thread.remove(&t).unwrap_or_default();
        // order of one thread's samples; a block begins before it ends
        for w in got.windows(2) {
            ensure!(w[0].0 < w[1].0 || (w[0].0 == w[1].0 && w[0].1 == 'B' && w[1].1 == 'E'), "trace:order", "samples {:?} then {:?} of one thread", w[0], w[1]);
        }
        if !toggling {
            let distinct: Vec<usize> = {
                let mut d: Vec<usize> = got.iter().map(|x| x.0).collect();
                d.dedup();
                d
            };
            // what is kept is the newest
            let want: Vec<usize> = (per - distinct.len()..per).collect();
            ensure_eq!(distinct, want, "trace:newest", "samples of thread {} kept", t);
            if limit >= threads * per * 2 {
                ensure_eq!(distinct.len(), per, "trace:lost", "samples of thread {}", t);
                let b = got.iter().filter(|x| x.1 == 'B').count();
                let e = got.iter().filter(|x| x.1 == 'E').count();
                ensure_eq!(b, e, "trace:blocks", "block begins and ends");
            }
        }
    }
    if !toggling && limit < threads * per {
        ensure_eq!(total, limit, "trace:full", "samples kept when more were recorded than fit");
    }
    cx.count("concurrent_samples", total as u64);
    cx.count("snapshots", snaps);
    cx.state(hash_str(&real(&all).iter().map(|s| s.name.to_string()).collect::<Vec<_>>().join(" ")));
    Ok(())
}

/// Samples from elsewhere (a frontend or plugin) are rejected, never fatal.
fn foreign_case(cx: &mut Cx) -> Result<(), Fail> {
    let good = json!({"name": "n", "cat": "a,b", "ts": 5, "ph": "i", "pid": 1, "tid": 2, "args": {"xi_payload": "p"}});
    let mut v = good.clone();
    let n = cx.rng.below(3);
    for _ in 0..n {
        let k = *cx.rng.pick(&["name", "cat", "ts", "ph", "pid", "tid", "args", "dur", "zzz"]);
        let x = match cx.rng.below(9) {
            0 => Value::Null,
            1 => json!(-1),
            2 => json!("Q"),
            3 => json!("é"),
            4 => json!("BE"),
            5 => json!(""),
            6 => json!([1]),
            7 => json!({"name": 1}),
            _ => json!(7),
        };
        if cx.rng.chance(1, 4) {
            v.as_object_mut().unwrap().remove(k);
        } else {
            v[k] = x;
        }
    }
    let doc = match cx.rng.below(6) {
        0 => v.clone(),
        1 => json!([[v]]),
        2 => json!({"traceEvents": [v]}),
        _ => json!([good, v]),
    };
    cx.note(doc.to_string());
    cx.key(cx.trace_hash(), true);
    let r = chrome_trace_dump::decode(doc.clone());
    let r2 = chrome_trace_dump::deserialize(doc.to_string().as_bytes());
    ensure_eq!(r.is_ok(), r2.is_ok(), "trace:foreign", "decode and deserialize of {}", doc);
    if let Ok(s) = r {
        for x in s {
            let b = chrome_trace_dump::to_value(&vec![x.clone()]).map_err(|e| Fail::new("trace:foreign", format!("{:?}", e)))?;
            chrome_trace_dump::decode(b).map_err(|e| Fail::new("trace:foreign", format!("own dump not readable: {:?}", e)))?;
        }
        cx.count("foreign_accepted", 1);
    } else {
        cx.count("foreign_rejected", 1);
    }
    if n == 0 {
        ensure!(!doc.is_array() || doc[0].is_array() || r2.is_ok(), "trace:foreign", "valid samples rejected: {}", doc);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = CATS;
    let mut a = Prop::new(
        "C16",
        "Random histories of samples, blocks, closures, limit changes, enabling and disabling against an exact model, with dumps read back and files saved; 2-6 threads recording at once while another takes snapshots and toggles tracing; foreign samples with wrong fields. Non-trivial: more than two operations; states: distinct contents of the sample store.",
        vec![
            Suite { name: "model", f: model_case, quick: 30_000, thorough: 600_000 },
            Suite { name: "threads", f: threads_case, quick: 6_000, thorough: 150_000 },
            Suite { name: "foreign", f: foreign_case, quick: 10_000, thorough: 200_000 },
        ],
    );
    a.quick_secs = 40;
    a.must_observe = &["samples", "dumps", "saves", "concurrent_samples", "snapshots", "foreign_accepted", "foreign_rejected"];
    vec![a]
}
