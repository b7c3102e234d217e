//! C12 exchanges, C13 hostile input and disconnects, C14 idle work and timers.
use monlib::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{self, BufRead, Read, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use xi_rpc::{Error, Handler, ReadError, RemoteError, RpcCtx, RpcLoop, RpcPeer};

/// Longest any wait of the harness lasts before it is a hang.
const HANG: Duration = Duration::from_secs(20);

// ------------------------------------------------------------------ messages

#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(rename_all = "snake_case")]
enum Act {
    Idle(usize),
    Timer(u64, usize),
    Notify(usize),
    Async(usize, u8),
    Sync(usize, u8),
    Thread(Vec<Act>),
    /// wait until the reader has consumed everything that was fed
    Batch,
    Panic,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct P {
    n: usize,
    #[serde(default)]
    acts: Vec<Act>,
    #[serde(default)]
    data: Value,
}

#[derive(Deserialize, Debug)]
#[serde(rename_all = "snake_case", tag = "method", content = "params")]
enum Note {
    Note(P),
}

#[derive(Deserialize, Debug)]
#[serde(rename_all = "snake_case", tag = "method", content = "params")]
enum Req {
    Req(P),
    Fail(P),
}

fn show(r: &Result<Value, Error>) -> String {
    match r {
        Ok(v) => format!("ok {}", v),
        Err(Error::RemoteError(RemoteError::Custom { code, message, data })) => {
            format!("remote {} {} {:?}", code, message, data)
        }
        Err(Error::RemoteError(RemoteError::InvalidRequest(d))) => format!("invalidreq {:?}", d),
        Err(Error::RemoteError(RemoteError::Unknown(v))) => format!("unknown {}", v),
        Err(Error::PeerDisconnect) => "disconnect".into(),
        Err(Error::InvalidResponse) => "invalidresp".into(),
        Err(Error::Io(_)) => "io".into(),
    }
}

/// The reply lines of the peer to its request `k`, and what the requester must see.
fn reply(id: &Value, k: usize, mode: u8) -> (Vec<String>, String) {
    let v = json!({"k": k, "text": format!("réply {} 🎉\n", k)});
    let ok = json!({"id": id, "result": v}).to_string();
    match mode {
        1 => (vec![json!({"id": id, "error": {"code": 7, "message": "no", "data": k}}).to_string()], format!("remote 7 no {:?}", Some(json!(k)))),
        2 => (vec![json!({"id": id, "result": 1, "error": {"code": 1, "message": ""}}).to_string()], "invalidresp".into()),
        3 => (vec![json!({"id": id, "nothing": 1}).to_string()], "invalidresp".into()),
        5 => (vec![ok.clone(), json!({"id": id, "result": "second answer"}).to_string()], format!("ok {}", v)),
        6 => (vec![json!({"id": id, "error": "just text"}).to_string()], "unknown \"just text\"".into()),
        7 => (vec![json!({"id": 900_000_000 + k, "result": 0}).to_string(), ok], format!("ok {}", v)),
        8 => (vec![json!({"id": id, "result": null}).to_string()], "ok null".into()),
        _ => (vec![ok], format!("ok {}", v)),
    }
}
const LATE: u8 = 4;
const NEVER: u8 = 9;

// ------------------------------------------------------------- shared state

#[derive(Default)]
struct St {
    handled: Vec<(usize, bool, Value)>,
    /// handler events and idle calls in one sequence
    seq: Vec<(char, usize)>,
    idle: Vec<(usize, Instant)>,
    sched_idle: Vec<(usize, usize)>, // (thread, token)
    timers: HashMap<usize, (Instant, Instant)>,
    fired: Vec<(usize, Instant)>,
    results: BTreeMap<usize, Vec<String>>,
    asked: BTreeMap<usize, u8>,
    notified: Vec<(usize, usize)>,
    got_notes: Vec<usize>,
    responses: Vec<Value>,
    out_ids: Vec<u64>,
    bad_lines: Vec<String>,
    pending_seen: Vec<bool>,
    concurrent: bool,
    waits: Vec<String>,
}

struct Sh {
    st: Mutex<St>,
    threads: AtomicUsize,
    /// lines fed and consumed by the reader
    fed: AtomicUsize,
    waiting_at: AtomicUsize,
    all_fed: AtomicBool,
    in_handler: AtomicBool,
    jitter: Mutex<Rng>,
    nothreads: AtomicUsize,
}

impl Sh {
    fn new(seed: u64) -> Arc<Sh> {
        Arc::new(Sh {
            st: Mutex::new(St::default()),
            threads: AtomicUsize::new(0),
            fed: AtomicUsize::new(0),
            waiting_at: AtomicUsize::new(0),
            all_fed: AtomicBool::new(false),
            in_handler: AtomicBool::new(false),
            jitter: Mutex::new(Rng::new(seed)),
            nothreads: AtomicUsize::new(0),
        })
    }
    fn jit(&self, den: usize) {
        let us = {
            let mut r = self.jitter.lock().unwrap();
            if !r.chance(1, den) {
                return;
            }
            r.below(400)
        };
        if us < 100 {
            thread::yield_now();
        } else {
            thread::sleep(Duration::from_micros(us as u64));
        }
    }
}

// ------------------------------------------------------------------- streams

enum Chunk {
    Bytes(Vec<u8>),
    Err,
}

struct In {
    rx: Receiver<Chunk>,
    buf: Vec<u8>,
    pos: usize,
    lines: usize,
    sh: Arc<Sh>,
}

impl Read for In {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = {
            let s = self.fill_buf()?;
            let n = s.len().min(b.len());
            b[..n].copy_from_slice(&s[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for In {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos >= self.buf.len() {
            // everything read so far has been passed on by the reader thread
            self.sh.waiting_at.store(self.lines, Ordering::SeqCst);
            self.pos = 0;
            self.buf.clear();
            match self.rx.recv() {
                Ok(Chunk::Bytes(b)) => {
                    self.lines += b.iter().filter(|c| **c == b'\n').count();
                    self.buf = b;
                    self.sh.jit(6);
                }
                Ok(Chunk::Err) => return Err(io::Error::new(io::ErrorKind::Other, "injected")),
                Err(_) => {}
            }
        }
        Ok(&self.buf[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

struct Out {
    sh: Arc<Sh>,
    line: Vec<u8>,
    tx: Mutex<Sender<String>>,
    fail_after: Option<usize>,
    written: usize,
    short: bool,
}

impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.fail_after.map_or(false, |f| self.written >= f) {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected"));
        }
        let n = if self.short && b.len() > 1 { 1 + self.sh.jitter.lock().unwrap().below(b.len()) } else { b.len() };
        let n = n.min(b.len());
        self.sh.jit(10);
        for c in &b[..n] {
            if *c == b'\n' {
                let l = String::from_utf8_lossy(&self.line).to_string();
                self.line.clear();
                let _ = self.tx.lock().unwrap().send(l);
            } else {
                self.line.push(*c);
            }
        }
        self.written += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------- handler

struct H {
    sh: Arc<Sh>,
}

fn act(sh: &Arc<Sh>, peer: &RpcPeer, thread_no: usize, a: &Act) {
    sh.jit(8);
    match a {
        Act::Idle(t) => {
            // one lock for record and call: the record order is the queue order
            let mut st = sh.st.lock().unwrap();
            st.sched_idle.push((thread_no, *t));
            peer.schedule_idle(*t);
        }
        Act::Timer(ms, t) => {
            let now = Instant::now();
            let after = now + Duration::from_millis(*ms);
            sh.st.lock().unwrap().timers.insert(*t, (after, now));
            peer.schedule_timer(after, *t);
        }
        Act::Notify(k) => {
            sh.st.lock().unwrap().notified.push((thread_no, *k));
            peer.send_rpc_notification("hello", &json!({"k": k, "text": "zwölf\n\"🙈\""}));
        }
        Act::Async(k, mode) => {
            sh.st.lock().unwrap().asked.insert(*k, *mode);
            let sh2 = sh.clone();
            let k2 = *k;
            peer.send_rpc_request_async(
                "ask",
                &json!({"k": k, "mode": mode}),
                Box::new(move |r: Result<Value, Error>| {
                    sh2.st.lock().unwrap().results.entry(k2).or_default().push(show(&r));
                }),
            );
        }
        Act::Sync(k, mode) => {
            sh.st.lock().unwrap().asked.insert(*k, *mode);
            let r = peer.send_rpc_request("ask", &json!({"k": k, "mode": mode}));
            sh.st.lock().unwrap().results.entry(*k).or_default().push(show(&r));
        }
        Act::Thread(acts) => {
            let no = 1 + sh.nothreads.fetch_add(1, Ordering::SeqCst);
            sh.threads.fetch_add(1, Ordering::SeqCst);
            let (sh, peer, acts) = (sh.clone(), peer.clone(), acts.clone());
            thread::spawn(move || {
                for a in &acts {
                    act(&sh, &peer, no, a);
                }
                sh.threads.fetch_sub(1, Ordering::SeqCst);
            });
        }
        Act::Batch => {
            let t0 = Instant::now();
            while !(sh.all_fed.load(Ordering::SeqCst) && sh.waiting_at.load(Ordering::SeqCst) >= sh.fed.load(Ordering::SeqCst)) {
                if t0.elapsed() > HANG {
                    sh.st.lock().unwrap().waits.push("the reader does not read on while a message is handled".into());
                    return;
                }
                thread::sleep(Duration::from_micros(200));
            }
            let p = peer.request_is_pending();
            sh.st.lock().unwrap().pending_seen.push(p);
        }
        Act::Panic => panic!("injected handler panic"),
    }
}

impl H {
    fn enter(&self) {
        if self.sh.in_handler.swap(true, Ordering::SeqCst) {
            self.sh.st.lock().unwrap().concurrent = true;
        }
    }
    fn leave(&self) {
        self.sh.in_handler.store(false, Ordering::SeqCst);
    }
    fn run(&mut self, ctx: &RpcCtx, req: bool, p: &P) {
        self.enter();
        {
            let mut st = self.sh.st.lock().unwrap();
            st.handled.push((p.n, req, p.data.clone()));
            st.seq.push(('m', p.n));
        }
        for a in &p.acts {
            act(&self.sh, ctx.get_peer(), 0, a);
        }
        self.leave();
    }
}

impl Handler for H {
    type Notification = Note;
    type Request = Req;
    fn handle_notification(&mut self, ctx: &RpcCtx, rpc: Note) {
        let Note::Note(p) = rpc;
        self.run(ctx, false, &p)
    }
    fn handle_request(&mut self, ctx: &RpcCtx, rpc: Req) -> Result<Value, RemoteError> {
        match rpc {
            Req::Req(p) => {
                self.run(ctx, true, &p);
                Ok(json!({"n": p.n, "data": p.data}))
            }
            Req::Fail(p) => {
                self.run(ctx, true, &p);
                Err(RemoteError::custom(p.n as i64, "failed", if p.n % 2 == 0 { Some(p.data) } else { None }))
            }
        }
    }
    fn idle(&mut self, _ctx: &RpcCtx, token: usize) {
        self.enter();
        let now = Instant::now();
        let mut st = self.sh.st.lock().unwrap();
        if token >= 1_000_000 {
            st.fired.push((token, now));
        } else {
            st.idle.push((token, now));
        }
        st.seq.push(('i', token));
        drop(st);
        self.leave();
    }
}

// ----------------------------------------------------------------- the session

struct Session {
    sh: Arc<Sh>,
    feed: Option<Arc<Mutex<Sender<Chunk>>>>,
    main: Receiver<Result<Result<(), ReadError>, (String, String)>>,
    peer: RpcPeer,
    sim: Option<thread::JoinHandle<()>>,
    stop_sim: Arc<AtomicBool>,
}

fn start(cx: &mut Cx, fail_after: Option<usize>) -> Session {
    let sh = Sh::new(cx.rng.next());
    let (in_tx, in_rx) = channel();
    let (out_tx, out_rx) = channel();
    let short = cx.rng.bool();
    let out = Out { sh: sh.clone(), line: Vec::new(), tx: Mutex::new(out_tx), fail_after, written: 0, short };
    let feed = Arc::new(Mutex::new(in_tx));
    let (main_tx, main) = channel();
    let mut rpc = RpcLoop::new(out);
    let peer: RpcPeer = Box::new(rpc.get_raw_peer());
    let sh2 = sh.clone();
    thread::spawn(move || {
        let mut h = H { sh: sh2.clone() };
        let rd = move || In { rx: in_rx, buf: Vec::new(), pos: 0, lines: 0, sh: sh2 };
        let r = catch(|| rpc.mainloop(rd, &mut h));
        let _ = main_tx.send(r);
    });
    let stop_sim = Arc::new(AtomicBool::new(false));
    let sim = {
        let (sh, feed, stop, mut rng) = (sh.clone(), Arc::downgrade(&feed), stop_sim.clone(), Rng::new(cx.rng.next()));
        thread::spawn(move || {
            let mut late: Vec<String> = Vec::new();
            let send = |l: &str, rng: &mut Rng| {
                if let Some(f) = feed.upgrade() {
                    send_line(&f, l.as_bytes(), rng, &AtomicUsize::new(0));
                }
            };
            loop {
                match out_rx.recv_timeout(Duration::from_millis(2)) {
                    Ok(l) => {
                        let v: Value = match serde_json::from_str::<Value>(&l) {
                            Ok(v) if v.is_object() => v,
                            _ => {
                                sh.st.lock().unwrap().bad_lines.push(l);
                                continue;
                            }
                        };
                        if v["method"] == "hello" {
                            let mut st = sh.st.lock().unwrap();
                            if v.get("id").is_some() || v["params"]["text"] != "zwölf\n\"🙈\"" {
                                st.bad_lines.push(l);
                            } else {
                                st.got_notes.push(v["params"]["k"].as_u64().unwrap_or(0) as usize);
                            }
                        } else if v["method"] == "ask" {
                            let (k, mode) = (v["params"]["k"].as_u64().unwrap() as usize, v["params"]["mode"].as_u64().unwrap() as u8);
                            match v["id"].as_u64() {
                                Some(id) => sh.st.lock().unwrap().out_ids.push(id),
                                None => sh.st.lock().unwrap().bad_lines.push(l.clone()),
                            }
                            if mode == NEVER {
                                continue;
                            }
                            let (lines, _) = reply(&v["id"], k, mode);
                            if mode == LATE {
                                late.extend(lines);
                            } else {
                                for l in lines {
                                    send(&l, &mut rng);
                                }
                            }
                        } else {
                            sh.st.lock().unwrap().responses.push(v);
                        }
                    }
                    Err(RecvTimeoutError::Timeout) => {
                        rng.shuffle(&mut late);
                        for l in late.drain(..) {
                            send(&l, &mut rng);
                        }
                        if stop.load(Ordering::SeqCst) {
                            return;
                        }
                    }
                    Err(_) => return,
                }
            }
        })
    };
    Session { sh, feed: Some(feed), main, peer, sim: Some(sim), stop_sim }
}

fn send_line(feed: &Arc<Mutex<Sender<Chunk>>>, l: &[u8], rng: &mut Rng, fed: &AtomicUsize) {
    let mut b = l.to_vec();
    b.push(b'\n');
    let f = feed.lock().unwrap();
    fed.fetch_add(b.iter().filter(|c| **c == b'\n').count(), Ordering::SeqCst);
    let cuts = if rng.chance(1, 3) { rng.below(4) } else { 0 };
    let mut p = 0;
    for _ in 0..cuts {
        let e = p + rng.below(b.len() - p + 1);
        if e > p {
            let _ = f.send(Chunk::Bytes(b[p..e].to_vec()));
        }
        p = e;
    }
    if p < b.len() {
        let _ = f.send(Chunk::Bytes(b[p..].to_vec()));
    }
}

impl Session {
    fn feed(&self, cx: &mut Cx, l: &[u8]) {
        let mut r = Rng::new(cx.rng.next());
        if let Some(f) = &self.feed {
            send_line(f, l, &mut r, &self.sh.fed);
        }
    }
    /// Waits for the condition; false if it does not come true.
    fn wait<F: Fn(&St) -> bool>(&self, f: F) -> bool {
        let t0 = Instant::now();
        loop {
            if f(&self.sh.st.lock().unwrap()) {
                return true;
            }
            if t0.elapsed() > HANG {
                return false;
            }
            thread::sleep(Duration::from_micros(300));
        }
    }
    fn eof(&mut self) -> Result<Result<Result<(), ReadError>, (String, String)>, Fail> {
        self.feed = None;
        self.join()
    }
    fn join(&mut self) -> Result<Result<Result<(), ReadError>, (String, String)>, Fail> {
        match self.main.recv_timeout(HANG) {
            Ok(r) => Ok(r),
            Err(_) => Err(Fail::new("rpc:hang", "the main loop did not return after its input ended")),
        }
    }
    fn quiet_threads(&self) -> Result<(), Fail> {
        let t0 = Instant::now();
        while self.sh.threads.load(Ordering::SeqCst) > 0 {
            ensure!(t0.elapsed() < HANG, "rpc:hang_request", "a request made from another thread was never answered");
            thread::sleep(Duration::from_micros(300));
        }
        Ok(())
    }
    fn stop(&mut self) {
        self.stop_sim.store(true, Ordering::SeqCst);
        if let Some(s) = self.sim.take() {
            let _ = s.join();
        }
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        self.stop_sim.store(true, Ordering::SeqCst);
    }
}

// ------------------------------------------------------------------ generation

struct Gen {
    k: usize,
    idle: usize,
    timer: usize,
}

fn data(rng: &mut Rng) -> Value {
    match rng.below(8) {
        0 => Value::Null,
        1 => json!(rng.next() as i64),
        2 => json!({"id": rng.below(9), "method": "req", "result": [1, {"error": {}}]}),
        3 => json!(text::any(rng, 40)),
        4 => json!(text::long(rng, 5000)),
        5 => json!([1.5, -3, true, {"": []}]),
        _ => json!(rng.below(10)),
    }
}

fn acts(rng: &mut Rng, g: &mut Gen, depth: usize, timers: bool, modes: &[u8]) -> Vec<Act> {
    let n = if rng.chance(1, 2) { 0 } else { rng.below(5) };
    let mut v = Vec::new();
    for _ in 0..n {
        let w = rng.weighted(&[3, if timers { 3 } else { 0 }, 4, 5, 2, if depth == 0 { 1 } else { 0 }]);
        v.push(match w {
            0 => {
                g.idle += 1;
                Act::Idle(g.idle)
            }
            1 => {
                g.timer += 1;
                Act::Timer(rng.below(12) as u64, 1_000_000 + g.timer)
            }
            2 => {
                g.k += 1;
                Act::Notify(g.k)
            }
            3 => {
                g.k += 1;
                Act::Async(g.k, *rng.pick(modes))
            }
            4 => {
                g.k += 1;
                let m = *rng.pick(modes);
                Act::Sync(g.k, if m == NEVER { 0 } else { m })
            }
            _ => Act::Thread(acts(rng, g, 1, timers, modes)),
        });
    }
    v
}

/// One valid message; what its response must be.
fn message(rng: &mut Rng, n: usize, id: u64, acts: Vec<Act>) -> (String, Option<Value>, bool) {
    let d = data(rng);
    let p = serde_json::to_value(P { n, acts, data: d.clone() }).unwrap();
    match rng.below(5) {
        0 | 1 => (json!({"method": "note", "params": p}).to_string(), None, true),
        2 | 3 => (json!({"id": id, "method": "req", "params": p}).to_string(), Some(json!({"id": id, "result": {"n": n, "data": d}})), true),
        _ => {
            let mut e = json!({"code": n, "message": "failed"});
            if n == 0 {
                // code 0 is an ordinary custom error
            }
            if n % 2 == 0 {
                e["data"] = d;
            }
            (json!({"id": id, "method": "fail", "params": p}).to_string(), Some(json!({"id": id, "error": e})), true)
        }
    }
}

fn check_response(got: &Value, want: &Value) -> Result<(), Fail> {
    if want == got {
        return Ok(());
    }
    // a rejected request: only the code and the id are specified
    if want["error"]["code"] == -32600 {
        if got["id"] == want["id"] && got["error"]["code"] == -32600 && got.get("result").is_none() && got["error"]["message"].is_string() {
            return Ok(());
        }
    }
    Err(Fail::new("rpc:response", format!("response {} instead of {}", short(got), short(want))))
}

/// What holds of every session at its end.
fn common(st: &St) -> Result<(), Fail> {
    ensure!(st.bad_lines.is_empty(), "rpc:garbled", "line written to the peer is not a whole message: {}", short(&st.bad_lines));
    ensure!(st.waits.is_empty(), "rpc:reader", "{:?}", st.waits);
    ensure!(!st.concurrent, "rpc:concurrent", "the handler was called while it was running");
    let ids: BTreeSet<u64> = st.out_ids.iter().cloned().collect();
    ensure_eq!(ids.len(), st.out_ids.len(), "rpc:ids", "distinct ids of requests to the peer ({:?})", st.out_ids);
    for (k, r) in &st.results {
        ensure_eq!(r.len(), 1, "rpc:answered", "answers to request {} ({:?})", k, r);
    }
    // notifications arrive once, in the order sent by each thread
    let mut seen: HashMap<usize, usize> = HashMap::new();
    for (i, k) in st.got_notes.iter().enumerate() {
        ensure!(seen.insert(*k, i).is_none(), "rpc:notes", "notification {} sent twice", k);
    }
    let mut last: HashMap<usize, usize> = HashMap::new();
    for (t, k) in &st.notified {
        if let Some(i) = seen.get(k) {
            if let Some(l) = last.insert(*t, *i) {
                ensure!(l < *i, "rpc:notes", "notification {} overtook an earlier one of its thread", k);
            }
        }
    }
    // idle work: in the order scheduled, never twice
    let want: Vec<usize> = st.sched_idle.iter().map(|x| x.1).collect();
    let got: Vec<usize> = st.idle.iter().map(|x| x.0).collect();
    ensure_eq!(got, want[..got.len().min(want.len())].to_vec(), "rpc:idle", "order of idle work");
    // timers: once, not early, earliest first
    let mut fired = BTreeSet::new();
    for (i, (t, at)) in st.fired.iter().enumerate() {
        ensure!(fired.insert(*t), "rpc:timer_twice", "timer {} fired twice", t);
        let (after, _) = match st.timers.get(t) {
            Some(x) => *x,
            None => fail!("rpc:timer_unknown", "idle called with token {} of no timer", t),
        };
        ensure!(*at >= after, "rpc:timer_early", "timer fired {:?} before its time", after - *at);
        for (u, at_u) in &st.fired[i + 1..] {
            if let Some((after_u, sched_u)) = st.timers.get(u) {
                // u was due before and already scheduled when t's predecessor ran
                let known = if i > 0 { *sched_u + Duration::from_millis(50) < *at } else { false };
                ensure!(!(known && *after_u < after), "rpc:timer_order", "timer {} due earlier fired after timer {} ({:?} later)", u, t, *at_u - *at);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12 exchange

fn exchange_case(cx: &mut Cx) -> Result<(), Fail> {
    let n = *cx.rng.pick(&[1usize, 4, 12, 30, 80]);
    let mut g = Gen { k: 0, idle: 0, timer: 0 };
    let mut lines = Vec::new();
    let mut want = Vec::new();
    let mut order = Vec::new();
    let modes: &[u8] = *cx.rng.clone().pick(&[&[0u8][..], &[0, 1, 2, 3, LATE, LATE, 5, 6, 7, 8][..], &[LATE][..]]);
    let mut ids: Vec<u64> = (0..n as u64).map(|i| if i % 7 == 3 { u64::max_value() - i } else { i }).collect();
    if cx.rng.bool() {
        cx.rng.shuffle(&mut ids);
    }
    let batch = cx.rng.chance(1, 3);
    for i in 0..n {
        let mut a = if i > 0 && cx.rng.chance(1, 12) {
            // malformed requests are answered with an error
            let bad = *cx.rng.pick(&["nosuch", "note", "req"]);
            let l = json!({"id": ids[i], "method": bad, "params": {"m": 1}}).to_string();
            lines.push(l);
            want.push(json!({"id": ids[i], "error": {"code": -32600}}));
            continue;
        } else {
            acts(&mut cx.rng, &mut g, 0, true, modes)
        };
        if batch && i == 0 {
            a.insert(0, Act::Batch);
        }
        let (l, w, _) = message(&mut cx.rng, i, ids[i], a);
        lines.push(l);
        order.push(i);
        if let Some(w) = w {
            want.push(w);
        }
    }
    for l in &lines {
        cx.note(l.clone());
    }
    cx.key(cx.trace_hash(), n > 1 && g.k > 0);
    let mut s = start(cx, None);
    for l in &lines {
        s.feed(cx, l.as_bytes());
        if cx.rng.chance(1, 20) {
            thread::sleep(Duration::from_micros(cx.rng.below(1500) as u64));
        }
    }
    s.sh.all_fed.store(true, Ordering::SeqCst);
    let ok = s.wait(|st| {
        st.handled.len() >= order.len()
            && !s.sh.in_handler.load(Ordering::SeqCst)
            && st.responses.len() >= want.len()
            && st.results.len() >= st.asked.len()
            && st.got_notes.len() >= st.notified.len()
            && st.idle.len() >= st.sched_idle.len()
            && st.fired.len() >= st.timers.len()
            && s.sh.threads.load(Ordering::SeqCst) == 0
    });
    if !ok {
        let st = s.sh.st.lock().unwrap();
        fail!(
            "rpc:stuck",
            "after {:?}: handled {}/{}, responses {}/{}, answers {}/{}, notifications {}/{}, idle {}/{}, timers {}/{}, threads {}",
            HANG, st.handled.len(), order.len(), st.responses.len(), want.len(), st.results.len(), st.asked.len(),
            st.got_notes.len(), st.notified.len(), st.idle.len(), st.sched_idle.len(), st.fired.len(), st.timers.len(),
            s.sh.threads.load(Ordering::SeqCst)
        );
    }
    let end = s.eof()?;
    s.stop();
    match end {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail!("rpc:end", "main loop ended with {} at end of input", e),
        Err((m, l)) => fail!("rpc:panic", "main loop panicked: {} at {}", m, l),
    }
    let st = s.sh.st.lock().unwrap();
    let got: Vec<usize> = st.handled.iter().map(|h| h.0).collect();
    ensure_eq!(got, order, "rpc:order", "order in which messages were handled");
    ensure_eq!(st.responses.len(), want.len(), "rpc:responses", "number of responses");
    for (g, w) in st.responses.iter().zip(want.iter()) {
        check_response(g, w)?;
    }
    for (i, (_, _, d)) in st.handled.iter().enumerate() {
        let v: Value = serde_json::from_str(&lines[order[i]]).unwrap();
        ensure_eq!(*d, v["params"]["data"], "rpc:params", "parameters of message {}", order[i]);
    }
    for (k, mode) in &st.asked {
        let (_, w) = reply(&json!(0), *k, *mode);
        ensure_eq!(st.results[k][0], w, "rpc:result", "answer to request {} (mode {})", k, mode);
    }
    common(&st)?;
    if batch {
        // messages have priority over idle work
        ensure_eq!(st.pending_seen, vec![lines.len() > 1], "rpc:is_pending", "request_is_pending with {} messages waiting", lines.len() - 1);
        let lastm = st.seq.iter().rposition(|e| e.0 == 'm').unwrap();
        if let Some(firsti) = st.seq.iter().position(|e| e.0 == 'i') {
            ensure!(lastm < firsti, "rpc:priority", "idle work ran before waiting messages: {}", short(&st.seq));
        }
        cx.count("priority_checks", 1);
    }
    cx.count("messages", lines.len() as u64);
    if cfg!(mon_tsan) {
        cx.count("tsan_active", 1);
    }
    cx.count("responses", st.responses.len() as u64);
    cx.count("requests_out", st.asked.len() as u64);
    cx.count("notifications_out", st.got_notes.len() as u64);
    cx.count("idle", st.idle.len() as u64);
    cx.count("timers", st.fired.len() as u64);
    // distinct interleavings observed
    cx.state(hash_str(&format!("{:?}{:?}{:?}", st.seq, st.got_notes, st.out_ids)));
    if cx.want_sample() {
        cx.sample(json!({"messages": lines.len(), "sequence": short(&st.seq), "asked": st.asked.len()}));
    }
    Ok(())
}

// ------------------------------------------------------------------- C13 hostile

fn hostile_line(rng: &mut Rng, n: usize) -> Vec<u8> {
    let (l, _, _) = message(rng, 5000 + n, 5000 + n as u64, vec![]);
    match rng.below(22) {
        0 => b"".to_vec(),
        1 => b"{".to_vec(),
        2 => b"[1,2]".to_vec(),
        3 => b"null".to_vec(),
        4 => vec![0xff, 0xfe, b'{', b'}'],
        5 => b"{}".to_vec(),
        6 => b"{\"id\":\"abc\"}".to_vec(),
        7 => b"{\"id\":-1,\"result\":3}".to_vec(),
        8 => b"{\"id\":1.5,\"result\":3}".to_vec(),
        9 => b"{\"id\":null,\"error\":{\"code\":1,\"message\":\"x\"}}".to_vec(),
        10 => b"{\"id\":18446744073709551616,\"result\":3}".to_vec(),
        11 => b"{\"method\":\"nosuch\",\"params\":{}}".to_vec(),
        12 => b"{\"id\":7,\"method\":\"nosuch\",\"params\":{}}".to_vec(),
        13 => b"{\"id\":7,\"method\":5}".to_vec(),
        14 => b"{\"id\":\"x\",\"method\":\"req\",\"params\":{\"n\":1}}".to_vec(),
        15 => format!("{}1{}", "[".repeat(rng.range(1, 400)), "]".repeat(200)).into_bytes(),
        16 => format!("{{\"method\":\"note\",\"params\":{}1{}}}", "[".repeat(150), "]".repeat(150)).into_bytes(),
        17 => l.as_bytes()[..rng.below(l.len())].to_vec(),
        18 => format!("{{\"id\":{},\"result\":1}}", rng.below(12)).into_bytes(),
        19 => b"{\"id\":[1],\"error\":1}".to_vec(),
        20 => b"{\"id\":3,\"result\":1,\"result\":2}".to_vec(),
        _ => {
            let mut b = l.into_bytes();
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(b.len());
                b[i] = *rng.pick(&[b'"', b'}', b'0', b',', b' ', 0x80, b'\\', b'x']);
            }
            b.retain(|c| *c != b'\n');
            b
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Exit {
    Eof,
    Io,
    Json,
    NotObject,
    Unknown,
    Panic,
}

/// What the input lines mean: handled messages, responses, and how the loop ends.
fn classify(lines: &[Vec<u8>], last: Exit, eof_in_line: bool) -> (Vec<usize>, Vec<Value>, Exit) {
    let mut handled = Vec::new();
    let mut resp = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        let s = match std::str::from_utf8(l) {
            Ok(s) => s,
            Err(_) => return (handled, resp, Exit::Io),
        };
        if s.is_empty() && eof_in_line && i + 1 == lines.len() {
            return (handled, resp, last);
        }
        let v: Value = match serde_json::from_str(s) {
            Ok(v) => v,
            Err(_) => return (handled, resp, Exit::Json),
        };
        if !v.is_object() {
            return (handled, resp, Exit::NotObject);
        }
        if v.get("id").is_some() && v.get("method").is_none() {
            continue; // a response
        }
        let p = v["params"].clone();
        let panics = |p: &P| p.acts.iter().any(|a| matches!(a, Act::Panic));
        match v["id"].as_u64() {
            Some(id) => match serde_json::from_value::<Req>(v.clone()) {
                Ok(r) => {
                    let (ok, p) = match r {
                        Req::Req(p) => (true, p),
                        Req::Fail(p) => (false, p),
                    };
                    handled.push(p.n);
                    if panics(&p) {
                        return (handled, resp, Exit::Panic);
                    }
                    if ok {
                        resp.push(json!({"id": id, "result": {"n": p.n, "data": p.data}}));
                    } else {
                        let mut e = json!({"code": p.n, "message": "failed"});
                        if p.n % 2 == 0 {
                            e["data"] = p.data;
                        }
                        resp.push(json!({"id": id, "error": e}));
                    }
                }
                Err(_) => resp.push(json!({"id": id, "error": {"code": -32600}})),
            },
            None => match serde_json::from_value::<Note>(v) {
                Ok(Note::Note(p)) => {
                    handled.push(p.n);
                    if panics(&p) {
                        return (handled, resp, Exit::Panic);
                    }
                }
                Err(_) => return (handled, resp, Exit::Unknown),
            },
        }
        let _ = p;
    }
    (handled, resp, last)
}

fn hostile_case(cx: &mut Cx) -> Result<(), Fail> {
    let n = cx.rng.below(10);
    let mut g = Gen { k: 0, idle: 0, timer: 0 };
    let mut lines: Vec<Vec<u8>> = Vec::new();
    let panic_at = if cx.rng.chance(1, 8) { cx.rng.below(n + 1) } else { 99 };
    for i in 0..n {
        let mut a: Vec<Act> = Vec::new();
        for _ in 0..cx.rng.below(3) {
            g.k += 1;
            a.push(match cx.rng.below(4) {
                0 => Act::Notify(g.k),
                1 => Act::Async(g.k, 0),
                2 => Act::Thread(vec![Act::Sync(g.k, *cx.rng.pick(&[0, NEVER]))]),
                _ => Act::Async(g.k, NEVER),
            });
        }
        if i == panic_at {
            a.push(Act::Panic);
        }
        lines.push(message(&mut cx.rng, i, i as u64, a).0.into_bytes());
    }
    // the hostile part, with more valid messages after it
    for _ in 0..cx.rng.below(4) {
        let at = cx.rng.below(lines.len() + 1);
        let l = hostile_line(&mut cx.rng, at);
        lines.insert(at, l);
    }
    // a blocking request from a handler when the peer goes away
    let blocking = cx.rng.chance(1, 4);
    if blocking {
        g.k += 1;
        lines.push(message(&mut cx.rng, 900, 900, vec![Act::Batch, Act::Sync(g.k, NEVER)]).0.into_bytes());
    }
    let io_err = cx.rng.chance(1, 5);
    let partial = cx.rng.chance(1, 4) && !io_err && !lines.is_empty() && !blocking;
    let fail_after = if cx.rng.chance(1, 5) { Some(cx.rng.below(600)) } else { None };
    for l in &lines {
        cx.note(String::from_utf8_lossy(l).to_string());
    }
    cx.note(format!("then {}; last line unterminated: {}; output fails after {:?} bytes", if io_err { "i/o error" } else { "eof" }, partial, fail_after));
    cx.key(cx.trace_hash(), !lines.is_empty());
    let (handled, resp, exit) = classify(&lines, if io_err { Exit::Io } else { Exit::Eof }, partial);
    let mut s = start(cx, fail_after);
    for (i, l) in lines.iter().enumerate() {
        if partial && i + 1 == lines.len() {
            let _ = s.feed.as_ref().unwrap().lock().unwrap().send(Chunk::Bytes(l.clone()));
        } else {
            s.feed(cx, l);
        }
    }
    s.sh.all_fed.store(true, Ordering::SeqCst);
    if blocking {
        // the request is out (or the loop has ended) before the input ends
        let k = g.k;
        let t0 = Instant::now();
        while s.sh.st.lock().unwrap().asked.get(&k).is_none() && t0.elapsed() < Duration::from_millis(30) {
            thread::sleep(Duration::from_micros(200));
        }
        s.sh.jit(1);
    }
    if io_err {
        if let Some(f) = &s.feed {
            let _ = f.lock().unwrap().send(Chunk::Err);
        }
    }
    let end = s.eof()?;
    let got_exit = match &end {
        Ok(Ok(())) => Exit::Eof,
        Ok(Err(ReadError::Io(_))) => Exit::Io,
        Ok(Err(ReadError::Json(_))) => Exit::Json,
        Ok(Err(ReadError::NotObject)) => Exit::NotObject,
        Ok(Err(ReadError::UnknownRequest(_))) => Exit::Unknown,
        Ok(Err(ReadError::Disconnect)) => Exit::Eof,
        Err((m, _)) if exit == Exit::Panic && m.contains("injected") => Exit::Panic,
        Err((m, _)) if m.contains("called `Result::unwrap()`") && exit == Exit::Panic => Exit::Panic,
        Err((m, l)) => fail!("rpc:panic", "main loop panicked: {} at {}", m, l),
    };
    ensure_eq!(got_exit, exit, "rpc:exit", "end of the main loop");
    // requests made now are refused, not left hanging
    for j in 0..2 {
        let k = 700 + j;
        act(&s.sh, &s.peer, 0, &Act::Thread(vec![if j == 0 { Act::Async(k, NEVER) } else { Act::Sync(k, NEVER) }]));
    }
    // a callback told about the disconnection may use the connection again
    s.quiet_threads()?;
    ensure!(s.wait(|st| st.results.len() >= st.asked.len()), "rpc:unanswered", "requests never answered after the peer went away: {:?}", {
        let st = s.sh.st.lock().unwrap();
        st.asked.iter().filter(|a| !st.results.contains_key(a.0)).map(|a| *a.0).collect::<Vec<_>>()
    });
    s.stop();
    let st = s.sh.st.lock().unwrap();
    let got: Vec<usize> = st.handled.iter().map(|h| h.0).collect();
    ensure_eq!(got, handled, "rpc:handled", "messages handled");
    if fail_after.is_none() {
        ensure_eq!(st.responses.len(), resp.len(), "rpc:responses", "number of responses");
        for (g, w) in st.responses.iter().zip(resp.iter()) {
            check_response(g, w)?;
        }
        ensure_eq!(st.got_notes.len(), st.notified.len(), "rpc:notes", "notifications written");
    }
    for (k, mode) in &st.asked {
        let r = &st.results[k][0];
        let hostile_answer = lines.iter().any(|l| l.starts_with(b"{\"id\":"));
        if *mode == NEVER && !hostile_answer {
            ensure!(r == "disconnect" || r == "io", "rpc:refused", "unanswered request {} completed with {}", k, r);
        } else if !hostile_answer {
            let (_, w) = reply(&json!(0), *k, *mode);
            ensure!(*r == w || r == "disconnect" || r == "io", "rpc:result", "answer to request {}: {}", k, r);
        }
    }
    common(&st)?;
    cx.count("sessions", 1);
    cx.count(&format!("exit_{:?}", exit), 1);
    cx.count("refused", st.results.values().filter(|r| r[0] == "disconnect").count() as u64);
    cx.count("io_failed", st.results.values().filter(|r| r[0] == "io").count() as u64);
    cx.state(hash_str(&format!("{:?}{:?}{:?}", exit, st.seq, st.results)));
    if cx.want_sample() {
        cx.sample(json!({"lines": lines.iter().map(|l| String::from_utf8_lossy(l).chars().take(100).collect::<String>()).collect::<Vec<_>>(), "exit": format!("{:?}", exit)}));
    }
    Ok(())
}

/// Callbacks that make new requests, also when told that the peer is gone.
fn reentrant_case(cx: &mut Cx) -> Result<(), Fail> {
    let n = cx.rng.range(1, 8);
    let depth = cx.rng.range(1, 4);
    let by_panic = cx.rng.chance(1, 4);
    let fail_after = if cx.rng.chance(1, 4) { Some(cx.rng.below(200)) } else { None };
    cx.note(format!("{} unanswered requests whose callbacks make {} further ones; end by {}; output fails after {:?}", n, depth, if by_panic { "panic" } else { "eof" }, fail_after));
    cx.key(cx.trace_hash() ^ cx.seed, true);
    let mut s = start(cx, fail_after);
    fn ask(sh: Arc<Sh>, peer: RpcPeer, k: usize, depth: usize) {
        sh.st.lock().unwrap().asked.insert(k, NEVER);
        let p2 = peer.clone();
        peer.send_rpc_request_async(
            "ask",
            &json!({"k": k, "mode": NEVER}),
            Box::new(move |r: Result<Value, Error>| {
                sh.st.lock().unwrap().results.entry(k).or_default().push(show(&r));
                if depth > 0 {
                    p2.send_rpc_notification("hello", &json!({"k": k, "text": "zwölf\n\"🙈\""}));
                    ask(sh, p2, k + 100, depth - 1);
                }
            }),
        );
    }
    for k in 0..n {
        ask(s.sh.clone(), s.peer.clone(), k, depth);
    }
    s.feed(cx, json!({"method": "note", "params": {"n": 1, "acts": if by_panic { json!(["panic"]) } else { json!([]) }}}).to_string().as_bytes());
    let end = s.eof()?;
    match end {
        Ok(Ok(())) if !by_panic => {}
        Err(_) if by_panic => {}
        e => fail!("rpc:exit", "main loop ended with {:?}", e.map(|r| r.map_err(|e| e.to_string()))),
    }
    let total = n * (depth + 1);
    ensure!(s.wait(|st| st.results.len() >= total), "rpc:unanswered", "{} of {} requests answered after the peer went away", s.sh.st.lock().unwrap().results.len(), total);
    s.stop();
    let st = s.sh.st.lock().unwrap();
    for (k, r) in &st.results {
        ensure_eq!(r.len(), 1, "rpc:answered", "answers to request {} ({:?})", k, r);
        ensure!(r[0] == "disconnect" || r[0] == "io", "rpc:refused", "request {} completed with {}", k, r[0]);
    }
    cx.count("reentrant_requests", total as u64);
    cx.state(hash_str(&format!("{:?}", st.results)));
    Ok(())
}

// ------------------------------------------------------------------- C14 scheduled work

fn sched_case(cx: &mut Cx) -> Result<(), Fail> {
    let mut g = Gen { k: 0, idle: 0, timer: 0 };
    let mut s = start(cx, None);
    let n = cx.rng.range(1, 25);
    let mut lines = Vec::new();
    let many = cx.rng.chance(1, 3);
    for i in 0..n {
        let mut a = Vec::new();
        for _ in 0..cx.rng.below(if many { 12 } else { 4 }) {
            a.push(match cx.rng.below(5) {
                0 | 1 => {
                    g.idle += 1;
                    Act::Idle(g.idle)
                }
                4 if cx.rng.chance(1, 3) => {
                    let mut v = Vec::new();
                    for _ in 0..cx.rng.below(4) {
                        g.timer += 1;
                        v.push(Act::Timer(cx.rng.below(20) as u64, 1_000_000 + g.timer));
                        g.idle += 1;
                        v.push(Act::Idle(g.idle));
                    }
                    Act::Thread(v)
                }
                _ => {
                    g.timer += 1;
                    Act::Timer(*cx.rng.pick(&[0u64, 0, 1, 3, 10, 40]), 1_000_000 + g.timer)
                }
            });
        }
        lines.push(message(&mut cx.rng, i, i as u64, a).0);
    }
    // also from outside any handler
    let outside = cx.rng.below(6);
    for l in &lines {
        cx.note(l.clone());
    }
    cx.key(cx.trace_hash(), g.idle + g.timer > 1);
    for l in &lines {
        s.feed(cx, l.as_bytes());
        if cx.rng.chance(1, 3) {
            thread::sleep(Duration::from_micros(cx.rng.below(6000) as u64));
        }
    }
    for _ in 0..outside {
        g.idle += 1;
        g.timer += 1;
        act(&s.sh, &s.peer, 77, &Act::Idle(g.idle));
        act(&s.sh, &s.peer, 77, &Act::Timer(cx.rng.below(10) as u64, 1_000_000 + g.timer));
    }
    let ok = s.wait(|st| {
        s.sh.threads.load(Ordering::SeqCst) == 0 && st.handled.len() >= n && st.idle.len() >= st.sched_idle.len() && st.fired.len() >= st.timers.len() && st.idle.len() >= g.idle && st.fired.len() >= g.timer
    });
    {
        let st = s.sh.st.lock().unwrap();
        ensure!(ok, "rpc:sched_lost", "scheduled work did not run within {:?}: idle {}/{}, timers {}/{}", HANG, st.idle.len(), g.idle, st.fired.len(), g.timer);
    }
    // nothing runs again
    thread::sleep(Duration::from_millis(8));
    let end = s.eof()?;
    s.stop();
    ensure!(matches!(end, Ok(Ok(()))), "rpc:end", "main loop ended with {:?}", end.map(|r| r.map_err(|e| e.to_string())));
    let st = s.sh.st.lock().unwrap();
    ensure_eq!((st.idle.len(), st.fired.len()), (g.idle, g.timer), "rpc:sched_count", "idle and timer calls");
    common(&st)?;
    cx.count("idle", st.idle.len() as u64);
    cx.count("timers", st.fired.len() as u64);
    cx.state(hash_str(&format!("{:?}", st.seq)));
    if cx.want_sample() {
        cx.sample(json!({"sequence": short(&st.seq)}));
    }
    Ok(())
}

/// Timers with distinct times scheduled all at once fire in the order of their times.
fn timer_order_case(cx: &mut Cx) -> Result<(), Fail> {
    let mut s = start(cx, None);
    let n = cx.rng.range(2, 25);
    let mut times: Vec<u64> = (0..n).map(|_| cx.rng.below(30) as u64).collect();
    if cx.rng.bool() {
        times.sort();
        times.reverse();
    }
    cx.note(format!("timers {:?} ms", times));
    cx.key(cx.trace_hash(), true);
    // from a handler: no timer can run before all are scheduled
    let acts: Vec<Act> = times.iter().enumerate().map(|(i, t)| Act::Timer(*t, 1_000_000 + i)).collect();
    let p = serde_json::to_value(P { n: 0, acts, data: Value::Null }).unwrap();
    s.feed(cx, json!({"method": "note", "params": p}).to_string().as_bytes());
    ensure!(s.wait(|st| st.fired.len() >= n), "rpc:sched_lost", "timers did not fire: {}/{}", s.sh.st.lock().unwrap().fired.len(), n);
    let end = s.eof()?;
    s.stop();
    ensure!(matches!(end, Ok(Ok(()))), "rpc:end", "main loop ended badly");
    let st = s.sh.st.lock().unwrap();
    let after: Vec<Instant> = st.fired.iter().map(|f| st.timers[&f.0].0).collect();
    for w in after.windows(2) {
        ensure!(w[0] <= w[1], "rpc:timer_order", "timers fired in the order {:?}", st.fired.iter().map(|f| times[f.0 - 1_000_000]).collect::<Vec<_>>());
    }
    common(&st)?;
    cx.count("timers", n as u64);
    cx.state(hash_str(&format!("{:?}", st.fired.iter().map(|f| f.0).collect::<Vec<_>>())));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let mut a = Prop::new(
        "C12",
        "Sessions of 1-80 messages (requests, failing requests, malformed requests, notifications; ids shuffled and up to 2^64-1; nested, large and Unicode parameters; lines cut into chunks; short writes and delays injected) whose handlers make notifications, synchronous and asynchronous requests (answered at once, late and out of order, with errors, twice, malformed, or for unknown ids), idle work, timers and threads doing the same. The log of both ends is checked at the end. Non-trivial: more than one message and at least one outgoing message; states: distinct interleavings of handling, idle work and traffic.",
        vec![Suite { name: "exchange", f: exchange_case, quick: 6_000, thorough: 150_000 }],
    );
    a.quick_secs = 25;
    a.must_observe = &["messages", "responses", "requests_out", "priority_checks"];
    let mut b = Prop::new(
        "C13",
        "Sessions with malformed lines (truncated, invalid UTF-8, deep nesting, wrong types, ids of every kind, mutated messages, unknown methods), unterminated last lines, i/o errors on input and output, handler panics and unanswered requests (also blocking ones) when the peer goes away; requests made afterwards; callbacks that make requests. The end of the loop, the answers and the completion of every request are checked against a classification of the input. Non-trivial: at least one line; states: distinct endings and histories.",
        vec![
            Suite { name: "hostile", f: hostile_case, quick: 8_000, thorough: 200_000 },
            Suite { name: "reentrant", f: reentrant_case, quick: 2_000, thorough: 40_000 },
        ],
    );
    b.quick_secs = 25;
    b.must_observe = &["sessions", "refused", "io_failed", "exit_Json", "exit_Unknown", "exit_Io", "exit_Eof", "exit_Panic", "reentrant_requests"];
    let mut c = Prop::new(
        "C14",
        "Idle tasks and timers scheduled from handlers, other threads and outside, mixed with incoming messages at random times: each runs exactly once, idle tasks in order, timers never early and earliest first. Non-trivial: at least two scheduled; states: distinct orders.",
        vec![
            Suite { name: "sched", f: sched_case, quick: 2_500, thorough: 60_000 },
            Suite { name: "order", f: timer_order_case, quick: 2_500, thorough: 40_000 },
        ],
    );
    c.quick_secs = 25;
    c.must_observe = &["idle", "timers"];
    let mut d = Prop::new(
        "C15",
        "The sessions of C12-C14 and concurrent tracing under ThreadSanitizer (standard library instrumented too), with injected delays. Non-trivial and states as there.",
        vec![
            Suite { name: "exchange", f: exchange_case, quick: 500, thorough: 12_000 },
            Suite { name: "hostile", f: hostile_case, quick: 700, thorough: 12_000 },
            Suite { name: "reentrant", f: reentrant_case, quick: 200, thorough: 3_000 },
            Suite { name: "sched", f: sched_case, quick: 250, thorough: 4_000 },
            Suite { name: "tracing", f: crate::r_trace::threads_case, quick: 150, thorough: 4_000 },
        ],
    );
    d.quick_secs = 60;
    d.assumptions = &["ThreadSanitizer sees the executions made, not all schedules"];
    d.must_observe = &["messages", "responses", "sessions", "timers", "concurrent_samples", "tsan_active"];
    vec![a, b, c, d]
}
