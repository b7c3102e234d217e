//! C33: the language server plugin as a process between a core and language servers that
//! are both played by the monitor.
use crate::mirror::line_starts;
use crate::proc::{bin, Scratch};
use monlib::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::time::{Duration, Instant};
use xi_rope::delta::Builder;
use xi_rope::{Interval, Rope, RopeDelta};

const WAIT: Duration = Duration::from_secs(30);

enum Ev {
    Plug(String),
    PlugEnd,
    New(usize, String, UnixStream, Arc<AtomicBool>),
    Msg(usize, Result<Value, String>),
    End(usize),
}

type Key = (String, Option<PathBuf>);

struct V {
    text: String,
    rev: u64,
    hist: Vec<(u64, String)>,
    path: Option<PathBuf>,
    key: Option<Key>,
    closed: bool,
    // as the server was told
    opened: bool,
    srv_closed: bool,
    seen: usize,
    saves: (u64, u64),
}

struct D {
    view: usize,
    text: String,
    version: i64,
    saves: u64,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Init {
    No,
    Asked,
    Done,
    Failed,
}

struct Srv {
    lang: String,
    /// what the server writes; None: it ends
    out: Sender<Option<Vec<u8>>>,
    w: UnixStream,
    stall: Arc<AtomicBool>,
    up: bool,
    ended: bool,
    spoiled: bool,
    key: Option<Key>,
    init: Init,
    init_id: Value,
    /// 0 none, 1 whole, 2 incremental
    sync: u8,
    docs: BTreeMap<PathBuf, D>,
    hovers: Vec<(Value, usize)>,
}

enum Ans {
    Ok { content: String, range: Option<(u64, u64, u64, u64)>, from: usize },
    Err,
    Any,
}

struct H {
    view: usize,
    pos: usize,
    idx: usize,
    fwd: bool,
    ans: Option<Ans>,
    may_err: bool,
    got: bool,
}

struct P {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Ev>,
    dir: Scratch,
    stop: Arc<AtomicBool>,
    next: u64,
    answers: BTreeMap<u64, Value>,
    views: BTreeMap<usize, V>,
    srv: BTreeMap<usize, Srv>,
    hovers: BTreeMap<usize, H>,
    status: BTreeMap<(usize, String), Option<String>>,
    next_view: usize,
    ended: bool,
    odd: u64,
}

impl Drop for P {
    fn drop(&mut self) {
        self.stdin.take();
        if std::env::var_os("MON_STDERR").is_some() {
            eprintln!("{}", self.stderr());
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.stop.store(true, Ordering::SeqCst);
        for s in self.srv.values() {
            s.stall.store(false, Ordering::SeqCst);
            let _ = s.w.shutdown(std::net::Shutdown::Both);
        }
        let _ = UnixStream::connect(self.dir.path("s"));
    }
}

/// Position in a document of language servers: line and UTF-16 unit.
fn lsp_pos(t: &str, off: usize) -> (u64, u64) {
    let st = line_starts(t);
    let l = st.iter().rposition(|&s| s <= off).unwrap();
    (l as u64, t[st[l]..off].encode_utf16().count() as u64)
}

/// None: no such line.
fn lsp_off(t: &str, line: u64, ch: u64) -> Option<usize> {
    let st = line_starts(t);
    let a = *st.get(line as usize)?;
    let e = st.get(line as usize + 1).copied().unwrap_or(t.len());
    let l = t[a..e].trim_end_matches('\n');
    let l = if t[a..e].ends_with("\r\n") { &l[..l.len() - 1] } else { l };
    let mut n = 0;
    for (i, c) in l.char_indices() {
        if n >= ch {
            return Some(a + i);
        }
        n += c.len_utf16() as u64;
    }
    Some(a + l.len())
}

fn unescape(uri: &str) -> Option<PathBuf> {
    let p = uri.strip_prefix("file://")?;
    let b = p.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            out.push(u8::from_str_radix(p.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    let s = String::from_utf8(out).ok()?;
    Some(PathBuf::from(if s.len() > 1 { s.trim_end_matches('/').to_string() } else { s }))
}

fn frame(r: &mut impl BufRead) -> Option<Result<Value, String>> {
    let mut len = None;
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let l = l.trim_end_matches("\r\n");
        if l.is_empty() {
            break;
        }
        if let Some(n) = l.to_lowercase().strip_prefix("content-length: ") {
            len = n.parse::<usize>().ok();
        }
    }
    let mut b = match len {
        Some(n) => vec![0; n],
        None => return Some(Err("no length".into())),
    };
    r.read_exact(&mut b).ok()?;
    Some(serde_json::from_slice(&b).map_err(|e| format!("{}: {}", e, String::from_utf8_lossy(&b))))
}

/// A plugin that does not read must not stop the monitor: it could be waiting for the core.
fn writer(w: &UnixStream) -> Sender<Option<Vec<u8>>> {
    let mut w = w.try_clone().unwrap();
    let (tx, rx) = channel::<Option<Vec<u8>>>();
    std::thread::spawn(move || {
        for b in rx {
            match b {
                Some(b) => {
                    if w.write_all(&b).and_then(|_| w.flush()).is_err() {
                        return;
                    }
                }
                None => {
                    let _ = w.shutdown(std::net::Shutdown::Both);
                    return;
                }
            }
        }
    });
    tx
}

fn servers(l: UnixListener, tx: Sender<Ev>, stop: Arc<AtomicBool>) {
    for n in 0.. {
        let s = match l.accept() {
            Ok(x) => x.0,
            Err(e) => {
                eprintln!("accept: {}", e);
                return;
            }
        };
        if stop.load(Ordering::SeqCst) {
            return;
        }
        let tx = tx.clone();
        std::thread::spawn(move || {
            let stall = Arc::new(AtomicBool::new(false));
            let w = s.try_clone().unwrap();
            let mut r = BufReader::new(s);
            let mut tag = String::new();
            let _ = r.read_line(&mut tag);
            let _ = tx.send(Ev::New(n, tag.trim().to_string(), w, stall.clone()));
            while let Some(m) = frame(&mut r) {
                if tx.send(Ev::Msg(n, m)).is_err() {
                    return;
                }
                while stall.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            let _ = tx.send(Ev::End(n));
        });
    }
}

const LANGS: &[(&str, &[&str], Option<&str>, bool)] = &[
    ("alpha", &["al", "alp"], Some("ws.mark"), true),
    ("beta", &["be"], Some("ws.mark"), true),
    ("Rust", &["rs"], None, true),
    ("gamma", &["ga"], None, true),
    ("missing", &["mi"], None, true),
    ("eps", &["ep"], Some("ws.mark"), false),
    ("none", &["no"], None, false),
];

impl P {
    fn start(cx: &mut Cx) -> Result<P, Fail> {
        let dir = Scratch::new(cx);
        for d in &["a/b", "a/d", "c", "sp ace é"] {
            std::fs::create_dir_all(dir.path(d)).unwrap();
        }
        std::fs::write(dir.path("a/ws.mark"), "").unwrap();
        std::fs::create_dir_all(dir.path("a/d/ws.mark")).unwrap();
        let sock = dir.path("s");
        let l = match UnixListener::bind(&sock) {
            Ok(l) => l,
            Err(e) => fail!("harness", "cannot listen at {:?}: {}", sock, e),
        };
        let (tx, rx) = channel();
        let stop = Arc::new(AtomicBool::new(false));
        {
            let (tx, stop) = (tx.clone(), stop.clone());
            std::thread::spawn(move || servers(l, tx, stop));
        }
        let mut langs = json!({});
        for (n, ext, mark, single) in LANGS {
            let cmd = if *n == "missing" { dir.path("no-such-server") } else { bin("lspserver") };
            langs[n] = json!({"language_name": n, "start_command": cmd, "start_arguments": [sock, n], "extensions": ext, "supports_single_file": single});
            if let Some(m) = mark {
                langs[n]["workspace_identifier"] = json!(m);
            }
        }
        let err = std::fs::File::create(dir.path("stderr")).unwrap();
        let child = Command::new(bin("lspplug"))
            .env("LSPPLUG_CONFIG", json!({ "language_config": langs }).to_string())
            .env("RUST_BACKTRACE", "0")
            .env("HOME", &dir.0)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(err)
            .current_dir(&dir.0)
            .spawn();
        let mut child = match child {
            Ok(c) => c,
            Err(e) => fail!("harness", "cannot start the plugin: {}", e),
        };
        let mut out = BufReader::new(child.stdout.take().unwrap());
        std::thread::spawn(move || loop {
            let mut l = String::new();
            match out.read_line(&mut l) {
                Ok(n) if n > 0 => {
                    if tx.send(Ev::Plug(l)).is_err() {
                        return;
                    }
                }
                _ => {
                    let _ = tx.send(Ev::PlugEnd);
                    return;
                }
            }
        });
        let stdin = child.stdin.take();
        cx.count("sessions", 1);
        Ok(P { child, stdin, rx, dir, stop, next: 0, answers: BTreeMap::new(), views: BTreeMap::new(), srv: BTreeMap::new(), hovers: BTreeMap::new(), status: BTreeMap::new(), next_view: 1, ended: false, odd: 0 })
    }

    fn stderr(&self) -> String {
        std::fs::read_to_string(self.dir.path("stderr")).unwrap_or_default()
    }

    fn died(&mut self, what: &str) -> Fail {
        std::thread::sleep(Duration::from_millis(30));
        let e = self.stderr();
        let p = e.lines().find(|l| l.contains("panicked")).unwrap_or("").to_string();
        let w = p.split("panicked at ").nth(1).unwrap_or("").split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
        let tail: Vec<&str> = e.lines().take(12).collect();
        Fail::new(format!("plugin-ended:{}", w), format!("{} (status {:?}); {:?}", what, self.child.try_wait().ok().flatten(), tail))
    }

    fn write(&mut self, v: Value) -> Result<(), Fail> {
        let s = format!("{}\n", v);
        if let Some(i) = self.stdin.as_mut() {
            if let Err(e) = i.write_all(s.as_bytes()).and_then(|_| i.flush()) {
                return Err(self.died(&format!("the plugin no longer reads: {}", e)));
            }
        }
        Ok(())
    }
    fn notify(&mut self, cx: &mut Cx, m: &str, p: Value) -> Result<(), Fail> {
        cx.note(format!("-> {} {}", m, short(&p.to_string())));
        self.write(json!({"method": m, "params": p}))
    }
    fn request(&mut self, cx: &mut Cx, m: &str, p: Value) -> Result<u64, Fail> {
        cx.note(format!("-> {} {}", m, short(&p.to_string())));
        let id = self.next;
        self.next += 1;
        self.write(json!({"id": id, "method": m, "params": p}))?;
        Ok(id)
    }

    /// Takes in one event; false: none came in time.
    fn pump(&mut self, cx: &mut Cx, d: Duration) -> Result<bool, Fail> {
        match self.rx.recv_timeout(d) {
            Err(_) => return Ok(false),
            Ok(Ev::PlugEnd) => {
                self.ended = true;
                if self.stdin.is_some() {
                    return Err(self.died("the plugin ended"));
                }
            }
            Ok(Ev::Plug(l)) => {
                let v: Value = match serde_json::from_str(&l) {
                    Ok(v) => v,
                    Err(e) => fail!("bad-json", "the plugin wrote {}: {}", short(&l), e),
                };
                self.from_plugin(cx, v)?;
            }
            Ok(Ev::New(n, lang, w, stall)) => {
                cx.count("servers", 1);
                self.srv.insert(n, Srv { lang, out: writer(&w), w, stall, up: true, ended: false, spoiled: false, key: None, init: Init::No, init_id: Value::Null, sync: 1, docs: BTreeMap::new(), hovers: Vec::new() });
            }
            Ok(Ev::Msg(n, m)) => match m {
                Ok(v) => self.from_client(cx, n, v)?,
                Err(e) => fail!("bad-frame", "the server got {}", e),
            },
            Ok(Ev::End(n)) => {
                let s = self.srv.get_mut(&n).unwrap();
                s.ended = true;
                if s.up && self.stdin.is_some() {
                    fail!("server-let-go", "the plugin closed the pipes of server {} ({:?})", n, s.key);
                }
            }
        }
        Ok(true)
    }

    fn from_plugin(&mut self, cx: &mut Cx, v: Value) -> Result<(), Fail> {
        cx.count("messages", 1);
        let p = &v["params"];
        let m = match v["method"].as_str() {
            None => {
                let id = v["id"].as_u64().unwrap_or(u64::MAX);
                ensure!(id < self.next && !self.answers.contains_key(&id), "bad-answer", "unexpected answer {}", v);
                self.answers.insert(id, v);
                return Ok(());
            }
            Some(m) => m.to_string(),
        };
        if cx.verbose {
            cx.note(format!("   <- {}", short(&v.to_string())));
        }
        let view = p["view_id"].as_str().and_then(|s| s.rsplit('-').next().and_then(|n| n.parse::<usize>().ok()));
        let view = match view {
            Some(x) if self.views.contains_key(&x) => x,
            _ => fail!("unknown-view", "message for a view that never was: {}", short(&v.to_string())),
        };
        match m.as_str() {
            "get_data" => {
                let w = &self.views[&view];
                let rev = p["rev"].as_u64().unwrap_or(u64::MAX);
                let ans = match w.hist.iter().find(|h| h.0 == rev) {
                    _ if w.closed => json!({"id": v["id"], "error": {"code": 404, "message": "missing view"}}),
                    None => fail!("asked-unknown-revision", "get_data for revision {} of view {}", rev, view),
                    Some((_, t)) => {
                        let st = line_starts(t);
                        let start = p["start"].as_u64().unwrap_or(0) as usize;
                        let off = if p["unit"] == "line" { st.get(start).copied().or(if start == st.len() { Some(t.len()) } else { None }) } else { Some(start).filter(|s| *s <= t.len()).map(|s| text::floor_boundary(t, s)) };
                        match off {
                            None => json!({"id": v["id"], "error": {"code": 400, "message": "bad position"}}),
                            Some(off) => {
                                let end = text::floor_boundary(t, off + p["max_size"].as_u64().unwrap_or(0) as usize);
                                let l = st.iter().rposition(|&s| s <= off).unwrap();
                                json!({"id": v["id"], "result": {"chunk": &t[off..end], "offset": off, "first_line": l, "first_line_offset": off - st[l]}})
                            }
                        }
                    }
                };
                self.write(ans)?;
            }
            "show_hover" => {
                let r = p["request_id"].as_u64().unwrap_or(u64::MAX) as usize;
                let h = match self.hovers.get_mut(&r) {
                    Some(h) => h,
                    None => fail!("hover-never-asked", "{}", short(&v.to_string())),
                };
                ensure!(h.view == view, "hover-other-view", "the answer to hover {} of view {} was shown in view {}", r, h.view, view);
                ensure!(!h.got, "hover-twice", "hover {} was answered twice", r);
                h.got = true;
                let ok = p["result"].get("Ok");
                let w = &self.views[&view];
                match (&h.ans, ok) {
                    (Some(Ans::Any), _) => {}
                    (None, None) | (Some(Ans::Err), None) => {
                        ensure!(h.may_err || h.ans.is_some(), "hover-refused", "hover {} was answered {} though the server has the document", r, p["result"]);
                        cx.count("hovers_refused", 1);
                    }
                    (None, Some(x)) => fail!("hover-from-nowhere", "hover {} was answered {}, the server has not answered", r, x),
                    (Some(Ans::Err), Some(x)) => fail!("hover-error-lost", "hover {} was answered {}, the server gave nothing", r, x),
                    (Some(Ans::Ok { content, range, from }), got) => {
                        let mut fine = false;
                        let mut wants = Vec::new();
                        for (_, t) in &w.hist[*from..] {
                            let want = match range {
                                None => Some(Value::Null),
                                Some((a, b, c, d)) => match (lsp_off(t, *a, *b), lsp_off(t, *c, *d)) {
                                    (Some(x), Some(y)) => Some(json!({"start": x, "end": y})),
                                    _ => None,
                                },
                            };
                            match (&want, got) {
                                (Some(w), Some(g)) => fine |= g["content"] == *content && g["range"] == *w,
                                // no such line: any answer
                                (None, _) => fine = true,
                                (Some(_), None) => fine |= h.may_err,
                            }
                            wants.push(want);
                        }
                        if wants.len() == 1 {
                            cx.count("hovers_exact", 1);
                        }
                        ensure!(fine, "hover-answer", "hover {} was answered {}, want {:?} at one of {:?}", r, p["result"], short(content), wants);
                        cx.count("hovers_answered", 1);
                    }
                }
            }
            "add_status_item" | "update_status_item" => {
                let k = (view, p["key"].as_str().unwrap_or("").to_string());
                if m == "add_status_item" || self.status.get(&k).map_or(false, |x| x.is_some()) {
                    self.status.insert(k, Some(p["value"].as_str().unwrap_or("").to_string()));
                }
            }
            "remove_status_item" => {
                self.status.insert((view, p["key"].as_str().unwrap_or("").to_string()), None);
            }
            _ => fail!("unknown-message", "{}", short(&v.to_string())),
        }
        Ok(())
    }

    fn from_client(&mut self, cx: &mut Cx, n: usize, v: Value) -> Result<(), Fail> {
        cx.count("server_messages", 1);
        if cx.verbose {
            cx.note(format!("   server {} <- {}", n, short(&v.to_string())));
        }
        let p = v["params"].clone();
        let m = match v["method"].as_str() {
            Some(m) => m.to_string(),
            // an answer to something a server asked
            None => return Ok(()),
        };
        if m == "initialize" {
            let root = match p["rootUri"].as_str() {
                None => None,
                Some(u) => Some(unescape(u).ok_or_else(|| Fail::new("bad-uri", u.to_string()))?),
            };
            let key = (self.srv[&n].lang.clone(), root);
            ensure!(self.views.values().any(|w| w.key.as_ref() == Some(&key)), "server-unasked", "a server was started for {:?}", key);
            ensure!(!self.srv.iter().any(|(i, s)| *i != n && s.up && s.key.as_ref() == Some(&key)), "server-twice", "a second server was started for {:?}", key);
            let s = self.srv.get_mut(&n).unwrap();
            ensure!(s.init == Init::No, "initialized-twice", "server {} {:?} got a second initialize", n, key);
            s.key = Some(key);
            s.init = Init::Asked;
            s.init_id = v["id"].clone();
            return Ok(());
        }
        let s = self.srv.get_mut(&n).unwrap();
        ensure!(s.init == Init::Done, "not-initialized", "server {} got {} when initialization was {:?}", n, m, s.init);
        let uri = p["textDocument"]["uri"].as_str().unwrap_or("");
        let path = match unescape(uri) {
            Some(p) => p,
            None => fail!("bad-uri", "{} {}", m, uri),
        };
        match m.as_str() {
            "textDocument/didOpen" => {
                ensure!(!s.docs.contains_key(&path), "opened-twice", "{:?} is open already", path);
                let d = &p["textDocument"];
                let w = self.views.iter_mut().rev().find(|(_, w)| w.path.as_ref() == Some(&path));
                let (id, w) = match w {
                    Some(x) => x,
                    None => fail!("opened-unknown", "{:?} is of no view", path),
                };
                ensure!(w.key == s.key, "other-server", "{:?} belongs to {:?}, was told to {:?}", path, w.key, s.key);
                ensure!(!w.opened, "opened-twice", "view {} ({:?}) was told a second time", id, path);
                ensure_eq!(d["languageId"].as_str().unwrap_or(""), s.lang.as_str(), "language", "of {:?}", path);
                let t = d["text"].as_str().unwrap_or("").to_string();
                w.opened = true;
                w.seen = match w.hist.iter().position(|h| h.1 == t) {
                    Some(i) => i,
                    None => fail!("open-text", "view {} was opened with {:?}, which it never had; it has {:?}", id, short(&t), short(&w.text)),
                };
                s.docs.insert(path, D { view: *id, text: t, version: d["version"].as_i64().unwrap_or(-1), saves: 0 });
                cx.count("documents_opened", 1);
            }
            "textDocument/didChange" => {
                let sync = s.sync;
                let d = match s.docs.get_mut(&path) {
                    Some(d) => d,
                    None => fail!("not-open", "didChange of {:?}, which is not open", path),
                };
                ensure!(sync != 0, "change-not-wanted", "didChange to a server that wants none");
                let ver = p["textDocument"]["version"].as_i64().unwrap_or(-1);
                ensure!(ver > d.version, "version", "version {} after {}", ver, d.version);
                d.version = ver;
                let before = d.text.clone();
                for c in p["contentChanges"].as_array().unwrap_or(&Vec::new()) {
                    let t = c["text"].as_str().unwrap_or("");
                    let r = &c["range"];
                    if r.is_null() {
                        d.text = t.to_string();
                        cx.count("changes_whole", 1);
                        continue;
                    }
                    ensure!(sync == 2, "incremental-not-wanted", "a range sent to a server that wants whole documents");
                    let g = |x: &Value| lsp_off(&d.text, x["line"].as_u64().unwrap_or(0), x["character"].as_u64().unwrap_or(0)).unwrap_or(d.text.len());
                    let (a, b) = (g(&r["start"]), g(&r["end"]));
                    ensure!(a <= b, "range", "range {} in {:?}", r, short(&d.text));
                    d.text.replace_range(a..b, t);
                    cx.count("changes_incremental", 1);
                }
                let w = self.views.get_mut(&d.view).unwrap();
                match w.hist.iter().enumerate().skip(w.seen).find(|(_, h)| h.1 == d.text) {
                    Some((i, _)) => w.seen = i,
                    None => fail!("server-text", "after {} the server's {:?} is {:?}, which view {} never was since; before it was {:?}; the view's is {:?}", short(&p["contentChanges"].to_string()), path, short(&d.text), d.view, short(&before), short(&w.text)),
                }
            }
            "textDocument/didSave" => {
                let d = match s.docs.get_mut(&path) {
                    Some(d) => d,
                    None => fail!("not-open", "didSave of {:?}, which is not open", path),
                };
                d.saves += 1;
                cx.count("saves_told", 1);
            }
            "textDocument/didClose" => {
                let d = match s.docs.remove(&path) {
                    Some(d) => d,
                    None => fail!("not-open", "didClose of {:?}, which is not open", path),
                };
                let w = self.views.get_mut(&d.view).unwrap();
                ensure!(w.closed, "closed-early", "{:?} was closed on the server, the view is open", path);
                w.srv_closed = true;
                cx.count("documents_closed", 1);
            }
            "textDocument/hover" => {
                let d = match s.docs.get(&path) {
                    Some(d) => d,
                    None => fail!("not-open", "hover in {:?}, which is not open", path),
                };
                let at = (p["position"]["line"].as_u64().unwrap_or(u64::MAX), p["position"]["character"].as_u64().unwrap_or(u64::MAX));
                let w = &self.views[&d.view];
                let h = self.hovers.iter_mut().find(|(_, h)| h.view == d.view && !h.fwd && !h.got && lsp_pos(&w.hist[h.idx].1, h.pos) == at);
                match h {
                    Some((r, h)) => {
                        h.fwd = true;
                        s.hovers.push((v["id"].clone(), *r));
                    }
                    // its end is known to the plugin sooner than what it was sent here
                    None if !s.up => {}
                    None => {
                        let open: Vec<_> = self.hovers.values().filter(|h| h.view == d.view && !h.got && !h.fwd).map(|h| lsp_pos(&w.hist[h.idx].1, h.pos)).collect();
                        fail!("hover-position", "the server was asked about {:?} of {:?}; asked for {:?}", at, path, open)
                    }
                }
                cx.count("hovers_forwarded", 1);
            }
            "initialized" | "shutdown" | "exit" => {}
            _ => fail!("unknown-method", "{}", m),
        }
        Ok(())
    }

    fn to_client(&mut self, cx: &mut Cx, n: usize, body: &str) {
        cx.note(format!("   server {} -> {}", n, short(&body)));
        self.raw(n, format!("Content-Length: {}\r\n\r\n{}", body.len(), body).into_bytes());
    }
    fn raw(&mut self, n: usize, b: Vec<u8>) {
        let _ = self.srv[&n].out.send(Some(b));
    }

    fn key_for(&self, path: &Option<PathBuf>) -> Option<Key> {
        let p = path.as_ref()?;
        let e = p.extension()?.to_str()?;
        let l = LANGS.iter().find(|l| l.1.contains(&e))?;
        if !p.is_absolute() || l.0 == "missing" {
            return None;
        }
        let mut root = None;
        if l.2.is_some() {
            let rel = p.strip_prefix(&self.dir.0).unwrap().parent().unwrap();
            if rel.starts_with("a/d") {
                root = Some(self.dir.path("a/d"));
            } else if rel.starts_with("a") {
                root = Some(self.dir.path("a"));
            }
            if rel.starts_with("a/nowhere") {
                // a folder that cannot be read has no workspace
                root = None;
            }
        }
        if root.is_none() && !l.3 {
            return None;
        }
        Some((l.0.to_string(), root))
    }

    fn server_of(&self, k: &Key) -> Option<usize> {
        self.srv.iter().filter(|s| s.1.key.as_ref() == Some(k)).map(|s| *s.0).last()
    }

    /// A server that ended before it was known whose it is could have been this one.
    fn lost(&self, k: &Key) -> bool {
        self.srv.values().any(|s| s.key.is_none() && !s.up && s.lang == k.0)
    }

    /// What this server was asked may fail.
    fn doubt(&mut self, n: usize) {
        let s = &self.srv[&n];
        let views = &self.views;
        for h in self.hovers.values_mut() {
            let k = &views[&h.view].key;
            if s.key.is_some() && *k == s.key || s.key.is_none() && k.as_ref().map_or(false, |k| k.0 == s.lang) {
                h.may_err = true;
            }
        }
    }

    fn has_doc(&self, view: usize) -> bool {
        let w = &self.views[&view];
        w.key.as_ref().and_then(|k| self.server_of(k)).map_or(false, |n| {
            let s = &self.srv[&n];
            s.up && s.docs.values().any(|d| d.view == view)
        })
    }

    /// What keeps things from being as they should: (signature, message).
    fn unmet(&self, barrier: u64) -> Option<(String, String)> {
        if !self.answers.contains_key(&barrier) {
            return Some(("plugin-stuck".into(), "the plugin does not answer the core".into()));
        }
        for s in self.srv.values() {
            if s.init == Init::No && s.up {
                return Some(("server-not-initialized".into(), format!("a server for {} was started and not initialized", s.lang)));
            }
        }
        for (id, w) in &self.views {
            let k = match &w.key {
                Some(k) => k,
                None => continue,
            };
            let n = match self.server_of(k) {
                Some(n) => n,
                None if w.closed || self.lost(k) => continue,
                None => return Some(("server-not-started".into(), format!("no server for {:?} (view {})", k, id))),
            };
            let s = &self.srv[&n];
            if !s.up || s.spoiled || s.init != Init::Done {
                continue;
            }
            if w.closed {
                if w.opened && !w.srv_closed {
                    return Some(("close-not-told".into(), format!("view {} is closed, its document is open on the server", id)));
                }
                continue;
            }
            let d = match s.docs.values().find(|d| d.view == *id) {
                Some(d) => d,
                None => return Some(("open-not-told".into(), format!("the server was not told of view {}", id))),
            };
            if s.sync != 0 && d.text != w.text {
                return Some(("server-text".into(), format!("view {} is {:?}, the server has {:?}", id, short(&w.text), short(&d.text))));
            }
            if d.saves < w.saves.0 {
                return Some(("save-not-told".into(), format!("view {} was saved {} times, the server was told {}", id, w.saves.0, d.saves)));
            }
        }
        for (r, h) in &self.hovers {
            let w = &self.views[&h.view];
            if w.closed || w.key.is_none() || h.got {
                continue;
            }
            let s = match self.server_of(w.key.as_ref().unwrap()) {
                Some(n) => &self.srv[&n],
                None => continue,
            };
            if s.spoiled || s.init == Init::Asked || s.init == Init::No {
                continue;
            }
            if h.ans.is_some() || !h.fwd || !s.up {
                return Some(("hover-unanswered".into(), format!("hover {} of view {} got no answer (passed on: {}, server up: {}, answered by it: {})", r, h.view, h.fwd, s.up, h.ans.is_some())));
            }
        }
        None
    }

    fn sync(&mut self, cx: &mut Cx) -> Result<(), Fail> {
        for s in self.srv.values() {
            s.stall.store(false, Ordering::SeqCst);
        }
        let b = self.request(cx, "collect_trace", json!({}))?;
        let t = Instant::now();
        loop {
            let u = match self.unmet(b) {
                None => break,
                Some(u) => u,
            };
            if t.elapsed() > WAIT {
                let e = self.stderr();
                let p: Vec<&str> = e.lines().filter(|l| l.contains("panicked")).collect();
                fail!(u.0, "{}; stderr {:?}", u.1, p);
            }
            self.pump(cx, Duration::from_millis(20))?;
        }
        for s in self.srv.values() {
            for d in s.docs.values() {
                let w = &self.views[&d.view];
                ensure!(d.saves <= w.saves.1, "save-not-made", "{} saves told of view {}, {} made", d.saves, d.view, w.saves.1);
                if s.up && s.sync != 0 && s.init == Init::Done {
                    cx.count("documents_equal", 1);
                    cx.state(hash_str(&d.text));
                }
            }
        }
        for (id, a) in &self.answers {
            ensure!(a["result"].is_u64() || a["error"].is_null() && *id == b || a["result"].is_array() || a["result"].is_object(), "update-refused", "request {} was answered {}", id, short(&a.to_string()));
        }
        Ok(())
    }

    fn open(&mut self, cx: &mut Cx, text: String, path: Option<PathBuf>) -> Value {
        let id = self.next_view;
        self.next_view += 1;
        let rev = cx.rng.below(1000) as u64;
        let key = self.key_for(&path);
        let info = json!({
            "buffer_id": id + 1000, "views": [format!("view-id-{}", id)], "rev": rev, "buf_size": text.len(),
            "nb_lines": text.matches('\n').count() + 1, "path": path, "syntax": "Plain Text",
            "config": {"line_ending": "\n", "tab_size": 4, "translate_tabs_to_spaces": true, "use_tab_stops": true, "font_face": "x", "font_size": 14.0, "auto_indent": true, "scroll_past_end": false,
                       "wrap_width": 0, "word_wrap": false, "autodetect_whitespace": true, "surrounding_pairs": [], "save_with_newline": true}
        });
        self.views.insert(id, V { hist: vec![(rev, text.clone())], text, rev, path, key, closed: false, opened: false, srv_closed: false, seen: 0, saves: (0, 0) });
        info
    }

    fn a_path(&mut self, cx: &mut Cx) -> Option<PathBuf> {
        let r = &mut cx.rng;
        let e = *r.pick(&["al", "alp", "be", "rs", "ga", "mi", "ep", "no", "txt", "al", "rs", "ga", "ep", "al"]);
        let n = r.below(100);
        match r.below(14) {
            0 => return None,
            1 => return Some(PathBuf::from(format!("rel{}.{}", n, e))),
            2 => return Some(self.dir.path(&format!("noext{}", n))),
            _ => {}
        }
        let d = *r.pick(&["a", "a/b", "a/d", "c", "sp ace é", "nowhere", "a/nowhere", "a"]);
        Some(self.dir.path(&format!("{}/f{}{}.{}", d, r.pick(&["", " ", "%20", "é", "#", "?"]), n, e)))
    }

    fn live(&self) -> Vec<usize> {
        self.views.iter().filter(|v| !v.1.closed).map(|v| *v.0).collect()
    }

    fn edit(&mut self, cx: &mut Cx, id: usize, big: bool) -> Result<(), Fail> {
        let mut r = cx.rng.clone();
        let w = &self.views[&id];
        let old = w.text.clone();
        let mut tries = 0;
        let (delta, new) = loop {
            tries += 1;
            let (a, b) = text::span(&mut r, &old);
            let n = r.below(5);
            let s = if big { "0123456789 big line\n".repeat(4000) } else { doc(&mut r, n) };
            let mut bu: Builder<xi_rope::rope::RopeInfo> = Builder::new(old.len());
            let mut new = old.clone();
            match r.below(if big { 2 } else { 8 }) {
                0 | 1 => {
                    bu.replace(Interval::new(a, a), Rope::from(&s));
                    new.insert_str(a, &s);
                }
                2 | 3 => {
                    bu.delete(Interval::new(a, b));
                    new.replace_range(a..b, "");
                }
                4 => {
                    bu.replace(Interval::new(a, b), Rope::from(&s));
                    new.replace_range(a..b, &s);
                }
                5 => {
                    // several cursors
                    let c = text::floor_boundary(&old, b + r.below(20));
                    bu.replace(Interval::new(a, a), Rope::from(&s));
                    bu.delete(Interval::new(b.max(a), c));
                    new.replace_range(b..c, "");
                    new.insert_str(a, &s);
                }
                6 => {
                    // a line end goes
                    let e = match old[a..].find('\n') {
                        Some(x) => a + x + 1,
                        None => old.len(),
                    };
                    bu.delete(Interval::new(a, e));
                    new.replace_range(a..e, "");
                }
                _ => {
                    bu.replace(Interval::new(0, old.len()), Rope::from(&s));
                    new = s.clone();
                }
            }
            let good = |t: &str| !t.replace("\r\n", "").contains('\r');
            let cut = |p: usize| old[..p].ends_with('\r');
            if good(&new) && !cut(a) && !cut(b) && new != old {
                break (bu.build(), new);
            }
            if tries > 50 {
                cx.rng = r;
                return Ok(());
            }
        };
        let told: Option<&RopeDelta> = if big && r.bool() { None } else { Some(&delta) };
        let rev = w.rev + 1 + r.below(3) as u64;
        let p = json!({"view_id": format!("view-id-{}", id), "delta": told, "new_len": new.len(), "new_line_count": new.matches('\n').count() + 1, "rev": rev, "undo_group": 3, "edit_type": "insert", "author": "core"});
        cx.rng = r;
        let w = self.views.get_mut(&id).unwrap();
        w.text = new.clone();
        w.rev = rev;
        w.hist.push((rev, new));
        self.request(cx, "update", p)?;
        cx.count("updates", 1);
        Ok(())
    }

    fn hover(&mut self, cx: &mut Cx, id: usize) -> Result<(), Fail> {
        let w = &self.views[&id];
        let pos = text::pos(&mut cx.rng, &w.text);
        // which of two hovers for one place the server was asked could not be told
        let at = lsp_pos(&w.text, pos);
        if self.hovers.values().any(|h| h.view == id && !h.got && lsp_pos(&w.hist[h.idx].1, h.pos) == at) {
            return Ok(());
        }
        let r = self.hovers.len() * 3 + cx.rng.below(3);
        let h = H { view: id, pos, idx: w.hist.len() - 1, fwd: false, ans: None, may_err: !self.has_doc(id), got: false };
        if self.hovers.insert(r, h).is_some() {
            fail!("harness", "hover id");
        }
        self.notify(cx, "get_hover", json!({"view_id": format!("view-id-{}", id), "request_id": r, "position": pos}))
    }

    fn close(&mut self, cx: &mut Cx, id: usize) -> Result<(), Fail> {
        self.views.get_mut(&id).unwrap().closed = true;
        for h in self.hovers.values_mut().filter(|h| h.view == id) {
            h.may_err = true;
        }
        self.notify(cx, "did_close", json!({"view_id": format!("view-id-{}", id)}))
    }

    fn answer_init(&mut self, cx: &mut Cx, n: usize) {
        let s = self.srv.get_mut(&n).unwrap();
        if !s.up || s.init != Init::Asked {
            return;
        }
        let id = s.init_id.clone();
        let body = match cx.rng.below(10) {
            0 => {
                s.init = Init::Failed;
                json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "no"}})
            }
            1 => {
                s.init = Init::Failed;
                json!({"jsonrpc": "2.0", "id": id, "result": cx.rng.pick(&[json!(5), json!({"capabilities": 7}), json!({}), Value::Null])})
            }
            k => {
                let sync = match k {
                    2 => {
                        s.sync = 0;
                        json!(0)
                    }
                    3 | 4 => {
                        s.sync = 1;
                        json!(1)
                    }
                    5 => {
                        s.sync = 2;
                        json!({"openClose": true, "change": 2, "save": {}})
                    }
                    _ => {
                        s.sync = 2;
                        json!(2)
                    }
                };
                s.init = Init::Done;
                json!({"jsonrpc": "2.0", "id": id, "result": {"capabilities": {"textDocumentSync": sync, "hoverProvider": true}}})
            }
        };
        if s.init == Init::Failed {
            // what was asked cannot be answered well
            self.doubt(n);
        }
        self.to_client(cx, n, &body.to_string());
    }

    fn answer_hover(&mut self, cx: &mut Cx, n: usize) {
        let s = self.srv.get_mut(&n).unwrap();
        if !s.up || s.hovers.is_empty() {
            return;
        }
        let i = if cx.rng.chance(2, 3) { 0 } else { cx.rng.below(s.hovers.len()) };
        let (id, r) = s.hovers.remove(i);
        let h = self.hovers.get_mut(&r).unwrap();
        let w = &self.views[&h.view];
        let mut g = cx.rng.clone();
        let (res, ans) = match g.below(12) {
            0 => (json!({"error": {"code": -32000, "message": "none"}}), Ans::Err),
            1 => (json!({"result": null}), Ans::Err),
            2 => (json!({"result": g.pick(&[json!(42), json!({"contents": 7}), json!({"contents": "x", "range": 5}), json!([])])}), Ans::Err),
            3 => (json!({"result": {"contents": g.pick(&[json!(""), json!([]), json!({"kind": "markdown", "value": ""})])}}), Ans::Err),
            k => {
                let (c, want) = match g.below(4) {
                    0 => (json!("pl\"ain é"), "pl\"ain é".to_string()),
                    1 => (json!({"language": "rust", "value": "fn f()"}), "```rust\nfn f()\n```".to_string()),
                    2 => (json!(["one", {"language": "c", "value": "int"}, "three"]), "one\n```c\nint\n```\nthree".to_string()),
                    _ => (json!({"kind": "markdown", "value": "# t\n🎉"}), "# t\n🎉".to_string()),
                };
                let mut v = json!({ "contents": c });
                let mut range = None;
                if k > 5 {
                    let (a, b) = text::span(&mut g, &w.text);
                    let (mut p, mut q) = (lsp_pos(&w.text, a), lsp_pos(&w.text, b));
                    match g.below(6) {
                        0 => q.1 += 100,
                        1 => {
                            p.1 += 50;
                            q.1 += 50
                        }
                        2 => q.0 += 1 + g.below(3) as u64,
                        _ => {}
                    }
                    range = Some((p.0, p.1, q.0, q.1));
                    v["range"] = json!({"start": {"line": p.0, "character": p.1}, "end": {"line": q.0, "character": q.1}});
                }
                (json!({ "result": v }), Ans::Ok { content: want, range, from: w.seen })
            }
        };
        cx.rng = g;
        h.ans = Some(ans);
        let mut b = res;
        b["jsonrpc"] = json!("2.0");
        b["id"] = id;
        self.to_client(cx, n, &b.to_string());
    }

    fn kill(&mut self, cx: &mut Cx, n: usize) {
        let s = self.srv.get_mut(&n).unwrap();
        if !s.up {
            return;
        }
        cx.note(format!("   server {} ends", n));
        cx.count("servers_ended", 1);
        s.up = false;
        s.stall.store(false, Ordering::SeqCst);
        let _ = s.out.send(None);
        self.doubt(n);
    }

    /// Messages a client must be able to take.
    fn odd(&mut self, cx: &mut Cx, n: usize) {
        if !self.srv[&n].up {
            return;
        }
        cx.count("odd_messages", 1);
        self.odd += 1;
        let pick = cx.rng.below(22);
        let b = match pick {
            0 => json!({"jsonrpc": "2.0", "id": 99999, "result": {}}),
            1 => json!({"jsonrpc": "2.0", "id": "abc", "result": 1}),
            2 => json!({"jsonrpc": "2.0", "id": "99998", "error": {"code": 1, "message": "x"}}),
            3 => json!({"jsonrpc": "2.0", "id": null, "error": {"code": -32700, "message": "parse error"}}),
            4 => json!({"jsonrpc": "2.0", "method": "telemetry/event"}),
            5 => json!({"jsonrpc": "2.0", "method": "window/progress"}),
            6 => json!({"jsonrpc": "2.0", "method": "window/progress", "params": {"done": false}}),
            7 => json!({"jsonrpc": "2.0", "method": "window/progress", "params": {"id": 5, "done": true}}),
            8 => json!({"jsonrpc": "2.0", "method": "window/progress", "params": ["x"]}),
            9 => json!({"jsonrpc": "2.0", "method": "textDocument/publishDiagnostics", "params": {"uri": "file:///x", "diagnostics": []}}),
            10 => json!({"jsonrpc": "2.0", "id": 1, "method": "client/registerCapability", "params": {"registrations": []}}),
            11 => json!({"jsonrpc": "2.0", "id": -5, "result": null}),
            12 => json!({"jsonrpc": "2.0", "method": "no/such", "params": [1, 2]}),
            13 => json!({"jsonrpc": "2.0"}),
            14 => json!([1, 2, 3]),
            15 => json!({"jsonrpc": "1.0", "id": 99997, "result": 4}),
            16 => json!("text"),
            17 => {
                self.raw(n, b"Content-Length: 5\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n{...}".to_vec());
                return;
            }
            18 => {
                self.raw(n, b"Content-Length: 4\r\n\r\n\xff\xfe\xff\xfe".to_vec());
                return;
            }
            19 => json!({"jsonrpc": "2.0", "id": 1.5, "result": null}),
            20 => json!({"jsonrpc": "2.0", "method": "window/showMessage", "params": {"type": 1, "message": "m"}}),
            _ => {
                // the stream makes no sense any more
                let b: &[u8] = *cx.rng.pick(&[
                    &b"Content-Length: 99999999999999\r\n\r\n{}"[..],
                    b"Content-Length: -1\r\n\r\n{}",
                    b"nonsense\r\n\r\n",
                    b"\r\n\r\n\r\n",
                    b"Content-Length: 18446744073709551615\r\n\r\n",
                    b"\xff\xff\xff\r\n\r\n",
                    b"Content-Length: 3\r\n\r\n{\"jsonrpc\": \"2.0\"}",
                ]);
                cx.note(format!("   server {} -> {:?}", n, String::from_utf8_lossy(b)));
                let s = self.srv.get_mut(&n).unwrap();
                s.spoiled = true;
                self.doubt(n);
                self.raw(n, b.to_vec());
                return;
            }
        };
        self.to_client(cx, n, &b.to_string());
    }

    /// Progress shows in every document of the server.
    fn progress(&mut self, cx: &mut Cx, n: usize) -> Result<(), Fail> {
        let s = &self.srv[&n];
        if !s.up || s.spoiled || s.init != Init::Done || s.lang != "Rust" {
            return Ok(());
        }
        self.sync(cx)?;
        let views: Vec<usize> = self.srv[&n].docs.values().map(|d| d.view).collect();
        let id = format!("p{}-{}", n, cx.rng.below(10_000));
        for k in 0..3 {
            let pct = cx.rng.below(101);
            let body = if k == 2 {
                json!({"id": id, "title": "T", "done": true})
            } else if k == 1 {
                json!({"id": id, "title": "T", "percentage": pct as f64 / 100.0, "message": "m", "done": false})
            } else {
                json!({"id": id, "title": "T", "done": false})
            };
            let want = match k {
                0 => Some("T ".to_string()),
                1 => Some(format!("T {} %m", pct)),
                _ => None,
            };
            self.to_client(cx, n, &json!({"jsonrpc": "2.0", "method": "window/progress", "params": body}).to_string());
            let t = Instant::now();
            loop {
                let bad = views.iter().find(|v| self.status.get(&(**v, id.clone())) != Some(&want));
                match bad {
                    None => break,
                    Some(v) => ensure!(t.elapsed() < WAIT, "progress", "view {} shows {:?} for {}, want {:?}", v, self.status.get(&(*v, id.clone())), id, want),
                }
                self.pump(cx, Duration::from_millis(20))?;
            }
            cx.count("progress_shown", views.len() as u64);
        }
        Ok(())
    }

    fn finish(mut self, cx: &mut Cx) -> Result<(), Fail> {
        cx.note("the core ends");
        for h in self.hovers.values_mut() {
            h.may_err = true;
        }
        self.stdin.take();
        let t = Instant::now();
        let st = loop {
            self.pump(cx, Duration::from_millis(2))?;
            if let Ok(Some(st)) = self.child.try_wait() {
                break st;
            }
            ensure!(t.elapsed() < WAIT, "plugin-does-not-end", "the plugin still runs {:?} after the core ended", WAIT);
        };
        if !st.success() {
            return Err(self.died("the plugin ended badly"));
        }
        while self.srv.values().any(|s| !s.ended) {
            ensure!(t.elapsed() < WAIT, "server-left-behind", "a server still runs {:?} after the core ended", WAIT);
            self.pump(cx, Duration::from_millis(5))?;
        }
        let e = self.stderr();
        if let Some(l) = e.lines().find(|l| l.contains("panicked at")) {
            fail!(format!("panic:{}", l.split("panicked at ").nth(1).unwrap_or("").split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("")), "{}", e.lines().take(6).collect::<Vec<_>>().join(" | "));
        }
        Ok(())
    }
}

fn doc(r: &mut Rng, n: usize) -> String {
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(*r.pick(&["a", "word ", "é", "🎉", "日本", "\n", "\r\n", "let x = 1;\n", "\t", "\u{301}", "\u{2028}", "x"]));
    }
    t
}

fn session(cx: &mut Cx) -> Result<(), Fail> {
    let mut p = P::start(cx)?;
    let mut first = Vec::new();
    for _ in 0..cx.rng.below(3) {
        let n = cx.rng.below(30);
        let t = doc(&mut cx.rng, n);
        let path = p.a_path(cx);
        if p.views.values().any(|v| v.path == path) {
            continue;
        }
        first.push(p.open(cx, t, path));
    }
    if cx.rng.bool() {
        p.notify(cx, "ping", json!({}))?;
    }
    p.notify(cx, "initialize", json!({"plugin_id": 1, "buffer_info": first}))?;
    // some servers take their time
    let slow = cx.rng.below(4);
    let steps = 8 + cx.rng.below(if cx.thorough { 60 } else { 25 });
    let mut sent = 0u64;
    for _ in 0..steps {
        // let some of what is under way arrive
        for _ in 0..cx.rng.below(4) {
            p.pump(cx, Duration::from_millis(2))?;
        }
        let live = p.live();
        let srv: Vec<usize> = p.srv.keys().cloned().collect();
        for n in &srv {
            if p.srv[n].init == Init::Asked && !cx.rng.chance(slow, 4) {
                p.answer_init(cx, *n);
            }
        }
        if !srv.is_empty() && cx.rng.chance(1, 2) {
            let n = *cx.rng.pick(&srv);
            p.answer_hover(cx, n);
        }
        sent += 1;
        match cx.rng.below(30) {
            0..=3 => {
                if live.len() < 6 {
                    let path = p.a_path(cx);
                    if path.is_some() && p.views.values().any(|v| v.path == path && !v.closed) {
                        continue;
                    }
                    if path.is_some() && p.views.values().any(|v| v.path == path) {
                        p.sync(cx)?;
                    }
                    let n = cx.rng.below(30);
                    let t = doc(&mut cx.rng, n);
                    let i = p.open(cx, t, path);
                    let id = p.next_view - 1;
                    p.notify(cx, "new_buffer", json!({ "buffer_info": [i] }))?;
                    if cx.rng.chance(1, 12) {
                        p.close(cx, id)?;
                    }
                }
            }
            4..=14 if !live.is_empty() => {
                let id = *cx.rng.pick(&live);
                for _ in 0..1 + cx.rng.below(4) {
                    p.edit(cx, id, false)?;
                }
                if cx.rng.chance(1, 25) {
                    p.close(cx, id)?;
                }
            }
            15 if !live.is_empty() => {
                let id = *cx.rng.pick(&live);
                let path = match &p.views[&id].path {
                    Some(p) => p.clone(),
                    None => continue,
                };
                let open = p.has_doc(id);
                let w = p.views.get_mut(&id).unwrap();
                w.saves.1 += 1;
                w.saves.0 += open as u64;
                p.notify(cx, "did_save", json!({"view_id": format!("view-id-{}", id), "path": path}))?;
            }
            16..=19 if !live.is_empty() => {
                let id = *cx.rng.pick(&live);
                p.hover(cx, id)?;
                if cx.rng.chance(1, 12) {
                    p.close(cx, id)?;
                }
            }
            20 if live.len() > 1 => {
                let id = *cx.rng.pick(&live);
                p.close(cx, id)?;
            }
            21 | 22 if !srv.is_empty() => {
                let n = *cx.rng.pick(&srv);
                p.odd(cx, n);
            }
            23 if !srv.is_empty() && cx.rng.chance(1, 4) => {
                let n = *cx.rng.pick(&srv);
                p.kill(cx, n);
            }
            24 if !live.is_empty() => {
                let id = *cx.rng.pick(&live);
                p.notify(cx, "language_changed", json!({"view_id": format!("view-id-{}", id), "new_lang": "Rust"}))?;
            }
            25 if !srv.is_empty() => {
                let n = *cx.rng.pick(&srv);
                p.progress(cx, n)?;
            }
            26 if !live.is_empty() && !srv.is_empty() && cx.rng.chance(1, 5) => {
                // the server writes a lot and does not read
                let n = *cx.rng.pick(&srv);
                if p.srv[&n].up && !p.srv[&n].spoiled {
                    let v = live.iter().find(|v| p.views[*v].key == p.srv[&n].key).copied().unwrap_or(live[0]);
                    p.srv[&n].stall.store(true, Ordering::SeqCst);
                    for _ in 0..5 {
                        p.edit(cx, v, true)?;
                    }
                    let body = json!({"jsonrpc": "2.0", "method": "textDocument/publishDiagnostics", "params": {"uri": "x", "diagnostics": ["y".repeat(50_000)]}}).to_string();
                    for _ in 0..12 {
                        p.to_client(cx, n, &body);
                    }
                    cx.count("stalls", 1);
                    let b = p.request(cx, "collect_trace", json!({}))?;
                    let t = Instant::now();
                    while !p.answers.contains_key(&b) {
                        ensure!(t.elapsed() < WAIT, "plugin-blocked", "the plugin does not answer the core while a server writes and does not read");
                        p.pump(cx, Duration::from_millis(20))?;
                    }
                    p.srv[&n].stall.store(false, Ordering::SeqCst);
                }
            }
            _ => p.sync(cx)?,
        }
    }
    // everything still open is answered
    let t = Instant::now();
    loop {
        p.sync(cx)?;
        let srv: Vec<usize> = p.srv.keys().cloned().collect();
        let mut more = false;
        for n in srv {
            if p.srv[&n].init == Init::Asked && p.srv[&n].up && !p.srv[&n].spoiled {
                p.answer_init(cx, n);
                more = true;
            }
            while p.srv[&n].up && !p.srv[&n].hovers.is_empty() {
                p.answer_hover(cx, n);
                more = true;
            }
        }
        if !more {
            break;
        }
        ensure!(t.elapsed() < WAIT, "harness", "no end");
    }
    p.finish(cx)?;
    cx.key(cx.trace_hash(), sent > 8);
    Ok(())
}

pub fn prop() -> Prop {
    let mut p = Prop::new("C33", "a session with more than eight steps", vec![Suite { name: "session", f: session, quick: 4000, thorough: 40000 }]);
    p.must_observe = &["sessions", "servers", "documents_equal", "documents_closed", "changes_whole", "changes_incremental", "saves_told", "hovers_exact", "hovers_refused", "odd_messages", "servers_ended", "progress_shown", "stalls"];
    p
}
