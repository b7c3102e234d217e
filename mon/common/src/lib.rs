//! Shared machinery for the runtime monitors: deterministic randomness, case
//! running in isolated worker processes, observation counters, evidence,
//! replay files and known findings.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    /// splitmix64 over a Weyl sequence with odd increment.
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1 | 1);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (0 when n == 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                return i;
            }
            x -= n;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 31)
}

// ------------------------------------------------------------------ text gen

pub mod text {
    use super::Rng;
    pub const PLAIN: &[&str] = &["a", "b", "c", "x", "y", " ", "\n", "the", "foo", "_", "1", "."];
    pub const NASTY: &[&str] = &[
        "a", "b", " ", "\n", "\r\n", "\r", "\t", "é", "e\u{301}", "ß", "日本", "語", "🎉", "👨\u{200d}👩\u{200d}👧", "🇺🇸", "🇩🇪",
        "👍🏽", "\u{2028}", "\u{feff}", "\u{0}", "İ", "ǆ", "1", "99", "_", "(", ")", "\"", "-", ",", "{", "}", "\u{85}", "\u{b}",
        "한글", "ก็", "A", "Z", "ﬁ", "\u{10ffff}", "\u{20e3}", "1\u{20e3}", "❤\u{fe0f}",
    ];
    pub const LINEY: &[&str] = &["\n", "\n", "a", "bc", "\r\n", " ", "é", "🎉", "\n\n"];
    pub const ASCII: &[&str] = &["a", "b", "c", "d", "e", " ", "\n"];

    pub fn alphabet(r: &mut Rng) -> &'static [&'static str] {
        match r.below(4) {
            0 => PLAIN,
            1 => LINEY,
            2 => ASCII,
            _ => NASTY,
        }
    }
    /// About `n` atoms from `alpha`.
    pub fn gen(r: &mut Rng, alpha: &[&str], n: usize) -> String {
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(alpha[r.below(alpha.len())]);
        }
        s
    }
    /// Size class: mostly small, sometimes large enough to span several leaves.
    pub fn any(r: &mut Rng, max: usize) -> String {
        let alpha = alphabet(r);
        let n = match r.below(8) {
            0 => 0,
            1 | 2 => r.below(4),
            3 | 4 => r.below(20),
            5 => r.below(200.min(max + 1)),
            _ => r.below(max + 1),
        };
        gen(r, alpha, n.min(max))
    }
    /// A string of at least `n` bytes, with random line lengths.
    pub fn long(r: &mut Rng, n: usize) -> String {
        let alpha = alphabet(r);
        let mut s = String::with_capacity(n + 8);
        let avg = *r.pick(&[1usize, 10, 80, 700, 3000]);
        while s.len() < n {
            if r.below(avg) == 0 {
                s.push('\n');
            } else {
                s.push_str(alpha[r.below(alpha.len())]);
            }
        }
        s
    }
    pub fn floor_boundary(s: &str, mut i: usize) -> usize {
        if i >= s.len() {
            return s.len();
        }
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        i
    }
    pub fn pos(r: &mut Rng, s: &str) -> usize {
        if s.is_empty() {
            return 0;
        }
        match r.below(10) {
            0 => 0,
            1 => s.len(),
            _ => floor_boundary(s, r.below(s.len() + 1)),
        }
    }
    pub fn span(r: &mut Rng, s: &str) -> (usize, usize) {
        let a = pos(r, s);
        let b = if r.chance(1, 2) {
            floor_boundary(s, a + r.below(12))
        } else {
            pos(r, s)
        };
        (a.min(b), a.max(b))
    }
}

// ------------------------------------------------------------------- failure

#[derive(Debug, Clone)]
pub struct Fail {
    /// Short stable signature (kind of failure), used against known findings.
    pub sig: String,
    pub msg: String,
    /// The witness: history / input.
    pub detail: String,
}

impl Fail {
    pub fn new<S: Into<String>, M: Into<String>>(sig: S, msg: M) -> Fail {
        Fail { sig: sig.into(), msg: msg.into(), detail: String::new() }
    }
    pub fn detail<D: Into<String>>(mut self, d: D) -> Fail {
        self.detail = d.into();
        self
    }
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !$cond { return Err($crate::Fail::new($sig, format!($($arg)*))) } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Fail::new($sig, format!("{}: got {} want {}", format!($($arg)*), $crate::short(a), $crate::short(b)))) }
    }};
}

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 400 {
        let mut h = 180;
        while !s.is_char_boundary(h) {
            h -= 1;
        }
        let mut k = s.len() - 180;
        while !s.is_char_boundary(k) {
            k += 1;
        }
        format!("{}…[{} bytes]…{}", &s[..h], s.len(), &s[k..])
    } else {
        s
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}
/// Last panic seen on any thread (message, location), for code under test that panics off-thread.
static ANY_PANIC: std::sync::Mutex<Vec<(String, String)>> = std::sync::Mutex::new(Vec::new());

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MON_BT").is_some() {
            eprintln!("PANIC {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
        if let Ok(mut g) = ANY_PANIC.lock() {
            g.push((msg, loc));
        }
    }));
}

pub fn take_any_panics() -> Vec<(String, String)> {
    ANY_PANIC.lock().map(|mut g| std::mem::take(&mut *g)).unwrap_or_default()
}

/// Runs `f`, turning a panic into (message, location).
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Result<R, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))),
    }
}

/// Strip the line number and leading directories from a location.
pub fn loc_file(loc: &str) -> String {
    let f = loc.rsplitn(2, ':').last().unwrap_or(loc);
    match f.find("/repo/rust/") {
        Some(i) => f[i + 11..].to_string(),
        None => Path::new(f).file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default(),
    }
}

// ---------------------------------------------------------------- case context

pub struct Cx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub verbose: bool,
    counters: BTreeMap<String, u64>,
    states: HashSet<u64>,
    samples: Vec<Value>,
    key: u64,
    nontrivial: bool,
    trace: Vec<String>,
}

impl Cx {
    /// For another attempt at this case.
    pub fn fork(&self) -> Cx {
        Cx {
            rng: self.rng.clone(),
            seed: self.seed,
            thorough: self.thorough,
            verbose: self.verbose,
            counters: BTreeMap::new(),
            states: HashSet::new(),
            samples: Vec::new(),
            key: self.key,
            nontrivial: false,
            trace: Vec::new(),
        }
    }
    /// Takes over what another attempt observed.
    pub fn join(&mut self, o: Cx) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.states.extend(o.states);
        self.samples.extend(o.samples);
        self.key = o.key;
        self.nontrivial = o.nontrivial;
        self.trace = o.trace;
    }
    /// The history so far: part of the witness when the case fails.
    pub fn note<S: Into<String>>(&mut self, s: S) {
        let s = s.into();
        if self.verbose && std::env::var_os("MON_TRACE").is_some() {
            eprintln!("{}", s);
        }
        self.trace.push(s);
    }
    pub fn trace_hash(&self) -> u64 {
        self.trace.iter().fold(1, |a, l| mix(a, hash_str(l)))
    }
    pub fn trace_len(&self) -> usize {
        self.trace.len()
    }
    pub fn trace_head(&self, n: usize) -> Vec<String> {
        self.trace.iter().take(n).cloned().collect()
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(name) {
            *v += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.counters.get(name).copied().unwrap_or(0)
    }
    /// A distinct state observed by the monitor.
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 2_000_000 {
            self.states.insert(h);
        }
    }
    /// Identity of this case, and whether it exercised anything by the rule.
    pub fn key(&mut self, h: u64, nontrivial: bool) {
        self.key = h;
        self.nontrivial = nontrivial;
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 {
            self.samples.push(v);
        }
    }
    pub fn want_sample(&self) -> bool {
        self.samples.len() < 2
    }
}

pub type CaseFn = fn(&mut Cx) -> Result<(), Fail>;

pub struct Suite {
    pub name: &'static str,
    pub f: CaseFn,
    /// number of cases over all workers
    pub quick: usize,
    pub thorough: usize,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
    /// Wall cap of the case loop (seconds): the number of cases is fixed, the
    /// cap only truncates on a very slow machine (and is then reported).
    pub quick_secs: u64,
    pub thorough_secs: u64,
    /// A case that uses this much CPU time without finishing makes no progress.
    pub case_cpu_secs: u64,
    /// counters that must be non-zero for the run to be conclusive
    pub must_observe: &'static [&'static str],
}

impl Prop {
    pub fn new(id: &'static str, rule: &'static str, suites: Vec<Suite>) -> Prop {
        Prop {
            id,
            rule,
            assumptions: &[],
            suites,
            quick_secs: 100,
            thorough_secs: 1500,
            case_cpu_secs: 60,
            must_observe: &[],
        }
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn case_seed(base: u64, suite: usize, i: usize) -> u64 {
    mix(mix(base.wrapping_mul(0x1234_5678_9abc_def1) ^ 0xabcdef, suite as u64 + 1), i as u64 + 1)
}

struct CaseResult {
    fail: Option<Fail>,
    counters: BTreeMap<String, u64>,
    states: HashSet<u64>,
    samples: Vec<Value>,
    key: u64,
    nontrivial: bool,
}

fn run_case(f: CaseFn, seed: u64, thorough: bool, verbose: bool) -> CaseResult {
    let mut cx = Cx {
        rng: Rng::new(seed),
        seed,
        thorough,
        verbose,
        counters: BTreeMap::new(),
        states: HashSet::new(),
        samples: Vec::new(),
        key: seed,
        nontrivial: false,
        trace: Vec::new(),
    };
    let r = catch(|| f(&mut cx));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err((msg, loc)) => {
            let lf = loc_file(&loc);
            Some(Fail::new(format!("panic:{}", lf), format!("panic `{}` at {}", msg, loc)))
        }
    };
    let fail = fail.map(|mut f| {
        if !cx.trace.is_empty() {
            if !f.detail.is_empty() {
                f.detail.push('\n');
            }
            f.detail.push_str(&cx.trace.join("\n"));
        }
        f
    });
    CaseResult {
        fail,
        counters: cx.counters,
        states: cx.states,
        samples: cx.samples,
        key: cx.key,
        nontrivial: cx.nontrivial,
    }
}

// --------------------------------------------------------------------- worker

fn worker(p: &Prop, thorough: bool, seed: u64, idx: usize, of: usize, dir: &Path, secs: u64) -> i32 {
    let start = Instant::now();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut fails: Vec<Value> = Vec::new();
    let mut truncated = false;
    let prog = dir.join(format!("w{}.cur", idx));
    let mut cur = fs::OpenOptions::new().create(true).write(true).truncate(true).open(&prog).unwrap();
    let only = std::env::var("MON_SUITE").ok();
    let ns: Vec<usize> = p
        .suites
        .iter()
        .map(|s| if only.as_ref().map_or(false, |o| o != s.name) { 0 } else if thorough { s.thorough } else { s.quick })
        .collect();
    // interleave suites so that a wall cap truncates all of them alike
    let total: usize = *ns.iter().max().unwrap_or(&0);
    'outer: for i in 0..total {
        for (si, s) in p.suites.iter().enumerate() {
            // spread n cases of this suite over `total` slots
            let n = ns[si];
            let lo = i * n / total;
            let hi = (i + 1) * n / total;
            for c in lo..hi {
                if c % of != idx {
                    continue;
                }
                if start.elapsed() > Duration::from_secs(secs) {
                    truncated = true;
                    break 'outer;
                }
                let cs = case_seed(seed, si, c);
                use std::os::unix::fs::FileExt;
                let line = format!("{:<24} {:<22} {:<10}\n", s.name, cs, evals);
                let _ = cur.write_all_at(line.as_bytes(), 0);
                let r = run_case(s.f, cs, thorough, false);
                evals += 1;
                *counters.entry(format!("cases.{}", s.name)).or_insert(0) += 1;
                for (k, v) in r.counters {
                    *counters.entry(k).or_insert(0) += v;
                }
                if states.len() < 3_000_000 {
                    states.extend(r.states);
                }
                if r.nontrivial {
                    keys.insert(r.key);
                }
                if samples.len() < 3 {
                    for x in r.samples {
                        samples.push(json!({"suite": s.name, "case_seed": cs, "case": x}));
                        if samples.len() >= 3 { break; }
                    }
                }
                if let Some(f) = r.fail {
                    fails.push(json!({"suite": s.name, "case_seed": cs, "sig": f.sig, "msg": f.msg, "detail": f.detail}));
                    if fails.len() >= 12 {
                        break 'outer;
                    }
                }
            }
        }
    }
    let _ = cur.flush();
    let hex = |s: &HashSet<u64>| {
        let mut b = Vec::with_capacity(s.len() * 8);
        for x in s {
            b.extend_from_slice(&x.to_le_bytes());
        }
        b
    };
    fs::write(dir.join(format!("w{}.keys", idx)), hex(&keys)).unwrap();
    fs::write(dir.join(format!("w{}.states", idx)), hex(&states)).unwrap();
    let out = json!({"evals": evals, "counters": counters, "samples": samples, "fails": fails, "truncated": truncated});
    fs::write(dir.join(format!("w{}.json", idx)), out.to_string()).unwrap();
    0
}

// --------------------------------------------------------------------- parent

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

#[derive(Debug, Clone)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

/// Entries of /verif/known_findings.jsonl with "status":"open". "fixed" entries suppress nothing.
pub fn known(id: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.jsonl");
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(p) {
        for l in s.lines() {
            if let Ok(j) = serde_json::from_str::<Value>(l) {
                if j["property"] == id && j["status"] == "open" {
                    v.push(Known {
                        property: id.into(),
                        sig: j["sig"].as_str().unwrap_or("").into(),
                        what: j["what"].as_str().unwrap_or("").into(),
                    });
                }
            }
        }
    }
    v
}

pub fn main(props: Vec<Prop>) -> ! {
    let code = real_main(props);
    std::process::exit(code)
}

fn real_main(props: Vec<Prop>) -> i32 {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} <property> quick|thorough|replay FILE|case SUITE SEED|probe", args[0]);
        return 2;
    }
    let p = match props.iter().find(|p| p.id == args[1]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[1]);
            return 2;
        }
    };
    match args[2].as_str() {
        "worker" => {
            let thorough = args[3] == "thorough";
            let seed = args[4].parse().unwrap();
            let idx = args[5].parse().unwrap();
            let of = args[6].parse().unwrap();
            let secs = args[8].parse().unwrap();
            worker(p, thorough, seed, idx, of, Path::new(&args[7]), secs)
        }
        "case" => {
            let s = p.suites.iter().find(|s| s.name == args[3]).expect("suite");
            one(p, s, args[4].parse().unwrap(), args.get(5).map_or(false, |x| x == "thorough"))
        }
        "replay" => {
            let j: Value = serde_json::from_str(&fs::read_to_string(&args[3]).expect("replay file")).expect("json");
            let s = p.suites.iter().find(|s| Some(s.name) == j["suite"].as_str()).expect("suite");
            one(p, s, j["case_seed"].as_u64().unwrap(), j["tier"] == "thorough")
        }
        "quick" | "thorough" => parent(p, args[2] == "thorough"),
        x => {
            eprintln!("bad mode {}", x);
            2
        }
    }
}

fn one(p: &Prop, s: &Suite, seed: u64, thorough: bool) -> i32 {
    let r = run_case(s.f, seed, thorough, true);
    println!("counters: {:?}", r.counters);
    match r.fail {
        None => {
            println!("held: {} {} {}", p.id, s.name, seed);
            0
        }
        Some(f) => {
            println!("FAIL sig={}\n{}\n{}", f.sig, f.msg, f.detail);
            1
        }
    }
}

fn parent(p: &Prop, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let seed = env_seed();
    let tier = if thorough { "thorough" } else { "quick" };
    let secs = if thorough { p.thorough_secs } else { p.quick_secs };
    let nworkers: usize = std::env::var("MON_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = std::env::temp_dir().join(format!("mon-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for i in 0..nworkers {
        let err = fs::File::create(dir.join(format!("w{}.err", i))).unwrap();
        let c = Command::new(&exe)
            .args(&[p.id, "worker", tier, &seed.to_string(), &i.to_string(), &nworkers.to_string(), dir.to_str().unwrap(), &secs.to_string()])
            .env("MON_SCRATCH", &dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .unwrap();
        kids.push((i, c, String::new(), 0u64, false));
    }
    let mut fails: Vec<Value> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    let hard = Duration::from_secs(secs + 120);
    let mut live = nworkers;
    while live > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for (i, c, last, base, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match c.try_wait().unwrap() {
                Some(st) => {
                    *done = true;
                    live -= 1;
                    if !st.success() {
                        use std::os::unix::process::ExitStatusExt;
                        let cur = fs::read_to_string(dir.join(format!("w{}.cur", i))).unwrap_or_default();
                        let err = fs::read_to_string(dir.join(format!("w{}.err", i))).unwrap_or_default();
                        let sanitizer = ["AddressSanitizer", "ThreadSanitizer", "LeakSanitizer"].iter().any(|s| err.contains(s));
                        let sig = st.signal();
                        let f: Vec<&str> = cur.split_whitespace().collect();
                        if (sanitizer || matches!(sig, Some(4) | Some(6) | Some(7) | Some(8) | Some(11))) && f.len() >= 2 {
                            let kind = if sanitizer { sanitizer_sig(&err) } else if err.contains("overflowed its stack") { "crash:stack-overflow".into() } else if err.contains("memory allocation") { "crash:memory-exhausted".into() } else { format!("crash:signal-{}", sig.unwrap_or(0)) };
                            let tail: String = err.lines().take(60).collect::<Vec<_>>().join("\n");
                            fails.push(json!({"suite": f[0], "case_seed": f[1].parse::<u64>().unwrap_or(0), "sig": kind, "msg": format!("worker died: {:?}", st), "detail": tail}));
                        } else {
                            inconclusive.push(format!("worker {} ended with {:?}: {} {}", i, st, cur.trim(), err.chars().take(400).collect::<String>()));
                        }
                    }
                }
                None => {
                    let cur = fs::read_to_string(dir.join(format!("w{}.cur", i))).unwrap_or_default();
                    let ticks = cpu_ticks(c.id()).unwrap_or(0);
                    if cur != *last {
                        *last = cur;
                        *base = ticks;
                    } else if ticks.saturating_sub(*base) > p.case_cpu_secs * 100 {
                        let f: Vec<&str> = last.split_whitespace().collect();
                        if f.len() >= 2 {
                            fails.push(json!({"suite": f[0], "case_seed": f[1].parse::<u64>().unwrap_or(0), "sig": "no-progress", "msg": format!("case used more than {} s of CPU time without finishing", p.case_cpu_secs), "detail": ""}));
                        }
                        let _ = c.kill();
                        let _ = c.wait();
                        *done = true;
                        live -= 1;
                    } else if t0.elapsed() > hard {
                        inconclusive.push(format!("worker {} exceeded the wall watchdog in case {}", i, last.trim()));
                        let _ = c.kill();
                        let _ = c.wait();
                        *done = true;
                        live -= 1;
                    }
                }
            }
        }
    }
    // aggregate
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut samples: Vec<Value> = Vec::new();
    let mut truncated = false;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    for i in 0..nworkers {
        if let Ok(s) = fs::read_to_string(dir.join(format!("w{}.json", i))) {
            let j: Value = serde_json::from_str(&s).unwrap();
            evals += j["evals"].as_u64().unwrap_or(0);
            truncated |= j["truncated"].as_bool().unwrap_or(false);
            for (k, v) in j["counters"].as_object().unwrap() {
                *counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
            if samples.len() < 4 {
                samples.extend(j["samples"].as_array().unwrap().iter().take(1).cloned());
            }
            fails.extend(j["fails"].as_array().unwrap().iter().cloned());
        }
        for (suffix, set) in [("keys", &mut keys), ("states", &mut states)].iter_mut() {
            if let Ok(b) = fs::read(dir.join(format!("w{}.{}", i, suffix))) {
                for c in b.chunks_exact(8) {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(c);
                    set.insert(u64::from_le_bytes(a));
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let known = known(p.id);
    let mut unlisted: Vec<Value> = Vec::new();
    let mut listed: BTreeMap<String, u64> = BTreeMap::new();
    for f in &fails {
        let sig = f["sig"].as_str().unwrap_or("");
        if known.iter().any(|k| k.sig == sig) {
            *listed.entry(sig.to_string()).or_insert(0) += 1;
        } else {
            unlisted.push(f.clone());
        }
    }
    for m in p.must_observe {
        if counters.get(*m).copied().unwrap_or(0) == 0 && unlisted.is_empty() && std::env::var_os("MON_SUITE").is_none() {
            inconclusive.push(format!("nothing observed for `{}`", m));
        }
    }
    if samples.is_empty() {
        samples.push(json!({"note": "no sample recorded"}));
    }
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(evals));
    cov.insert("distinct_nontrivial".into(), json!(keys.len()));
    cov.insert("rule".into(), json!(p.rule));
    cov.insert("samples".into(), json!(samples));
    cov.insert("distinct_states_observed".into(), json!(states.len()));
    cov.insert("observed".into(), json!(counters));
    cov.insert("truncated_by_wall_cap".into(), json!(truncated));
    cov.insert("known_finding_hits".into(), json!(listed));
    if let Ok(extra) = std::env::var("MON_EXTRA") {
        if let Ok(j) = serde_json::from_str::<Value>(&extra) {
            cov.insert("extra".into(), j);
        }
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(),
        "violations": unlisted.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if std::env::var_os("MON_NO_EVIDENCE").is_none() {
        fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", k.property, k.what);
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} states, {:.1}s{}",
        p.id, tier, evals, keys.len(), states.len(), t0.elapsed().as_secs_f64(), if truncated { " (truncated by wall cap)" } else { "" }
    );
    for (k, v) in &counters {
        println!("  observed {} = {}", k, v);
    }
    if !unlisted.is_empty() {
        let rdir = verif_dir().join("replays");
        let _ = fs::create_dir_all(&rdir);
        let mut seen = HashSet::new();
        for f in &unlisted {
            let sig = f["sig"].as_str().unwrap_or("").to_string();
            if !seen.insert(sig.clone()) || seen.len() > 5 {
                continue;
            }
            let path = rdir.join(format!("{}-{}-{}.json", p.id, f["suite"].as_str().unwrap_or("x"), f["case_seed"]));
            let mut j = f.clone();
            j["property"] = json!(p.id);
            j["tier"] = json!(tier);
            j["replay_cmd"] = json!(format!("./check.sh {} replay {}", p.id, path.display()));
            let _ = fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            println!("VIOLATION property={} replay={}", p.id, path.display());
            println!("  sig={} {}", sig, f["msg"].as_str().unwrap_or(""));
        }
        return 1;
    }
    if !inconclusive.is_empty() {
        for x in &inconclusive {
            println!("INCONCLUSIVE {}: {}", p.id, x);
        }
        return 3;
    }
    0
}

/// Kind of report plus the first frame inside the code under test, without line numbers.
pub fn sanitizer_sig(err: &str) -> String {
    let mut kind = "sanitizer".to_string();
    for l in err.lines() {
        if let Some(i) = l.find("Sanitizer: ") {
            kind = l[i + 11..].split_whitespace().take(2).collect::<Vec<_>>().join("-");
            break;
        }
    }
    let mut frame = String::new();
    for l in err.lines() {
        if l.trim_start().starts_with('#') && l.contains("/repo/rust/") {
            let i = l.find("/repo/rust/").unwrap();
            let f: String = l[i + 11..].chars().take_while(|c| *c != ':').collect();
            frame = f;
            break;
        }
    }
    format!("san:{}:{}", kind, frame)
}
