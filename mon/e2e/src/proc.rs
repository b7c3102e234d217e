//! The core's process as a frontend holds it.
use crate::mirror::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

/// Generous: nothing here takes more than milliseconds.
pub const WAIT: Duration = Duration::from_secs(60);

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(cx: &Cx) -> Scratch {
        let base = std::env::var("MON_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let d = base.join(format!("c{}-{}-{}", std::process::id(), cx.seed, n));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d.canonicalize().unwrap())
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn bin(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

pub struct Core {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Option<String>>,
    next: u64,
    pub ended: bool,
    pub dir: PathBuf,
    /// everything the core told, in order
    pub told: Vec<Value>,
    answers: BTreeMap<u64, Value>,
    pub views: BTreeMap<String, Mirror>,
    pub styles: BTreeMap<i64, Value>,
    pub status: BTreeMap<(String, String), String>,
    pub pids: Vec<u32>,
    pub sent: u64,
}

impl Drop for Core {
    fn drop(&mut self) {
        self.stdin.take();
        let _ = self.child.kill();
        if std::env::var_os("MON_STDERR").is_some() {
            eprintln!("{}", self.stderr());
        }
        let _ = self.child.wait();
        for p in &self.pids {
            if alive(*p) && cmdline(*p).contains("plug") {
                let _ = Command::new("kill").arg("-9").arg(p.to_string()).stderr(Stdio::null()).status();
            }
        }
    }
}

/// A process of this number that has not ended.
pub fn alive(pid: u32) -> bool {
    match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Ok(s) => !matches!(s.rsplit(") ").next().and_then(|x| x.chars().next()), Some('Z') | Some('X') | None),
        Err(_) => false,
    }
}
fn cmdline(pid: u32) -> String {
    std::fs::read(format!("/proc/{}/cmdline", pid)).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default()
}

impl Core {
    pub fn start(cx: &mut Cx, dir: &Path, env: &[(&str, &str)]) -> Result<Core, Fail> {
        let _ = std::fs::create_dir_all(dir.join("home"));
        let err = std::fs::File::create(dir.join("stderr")).unwrap();
        let mut c = Command::new(bin("xi-core"));
        c.env("HOME", dir.join("home")).env("XDG_DATA_HOME", dir.join("home/data")).env("RUST_BACKTRACE", "0").env_remove("XI_LOG");
        for (k, v) in env {
            c.env(k, v);
        }
        let mut child = match c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(err).current_dir(dir).spawn() {
            Ok(c) => c,
            Err(e) => fail!("harness", "cannot start the core: {}", e),
        };
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            loop {
                let mut l = String::new();
                match r.read_line(&mut l) {
                    Ok(n) if n > 0 => {
                        if tx.send(Some(l)).is_err() {
                            return;
                        }
                    }
                    _ => {
                        let _ = tx.send(None);
                        return;
                    }
                }
            }
        });
        let stdin = child.stdin.take();
        cx.count("sessions", 1);
        Ok(Core { child, stdin, rx, next: 0, ended: false, dir: dir.to_owned(), told: Vec::new(), answers: BTreeMap::new(), views: BTreeMap::new(), styles: BTreeMap::new(), status: BTreeMap::new(), pids: Vec::new(), sent: 0 })
    }

    fn write(&mut self, v: &Value) -> Result<(), Fail> {
        self.sent += 1;
        let s = format!("{}\n", v);
        let r = match self.stdin.as_mut() {
            Some(i) => i.write_all(s.as_bytes()).and_then(|_| i.flush()),
            None => Ok(()),
        };
        if let Err(e) = r {
            return Err(self.died(&format!("the core no longer reads: {}", e)));
        }
        Ok(())
    }

    pub fn stderr(&self) -> String {
        std::fs::read_to_string(self.dir.join("stderr")).unwrap_or_default()
    }

    fn died(&mut self, what: &str) -> Fail {
        let e = self.stderr();
        let p: Vec<&str> = e.lines().filter(|l| l.contains("panicked") || l.contains("exited with error")).collect();
        let where_ = p.first().and_then(|l| l.split("panicked at ").nth(1)).unwrap_or("").split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
        let st = self.child.try_wait().ok().flatten();
        let tail: Vec<&str> = e.lines().rev().take(20).collect::<Vec<_>>().into_iter().rev().collect();
        Fail::new(format!("core-ended:{}", where_), format!("{} (status {:?}); {:?}", what, st, tail))
    }

    /// Takes in one message; false: nothing came in time.
    fn take(&mut self, cx: &mut Cx, d: Duration) -> Result<bool, Fail> {
        let l = match self.rx.recv_timeout(d) {
            Ok(Some(l)) => l,
            Ok(None) => {
                self.ended = true;
                if self.stdin.is_some() {
                    return Err(self.died("the core's output ended"));
                }
                return Ok(false);
            }
            Err(_) => return Ok(false),
        };
        let v: Value = match serde_json::from_str(&l) {
            Ok(v) => v,
            Err(e) => fail!("bad-json", "the core wrote {:?}: {}", short(&l), e),
        };
        cx.count("messages", 1);
        if v["method"].is_null() {
            let id = match v["id"].as_u64() {
                Some(i) => i,
                None => fail!("bad-answer", "answer without an id: {}", v),
            };
            ensure!(id < self.next, "bad-answer", "answer to a request never made: {}", v);
            ensure!(!self.answers.contains_key(&id), "answered-twice", "request {} answered a second time: {}", id, v);
            self.answers.insert(id, v);
            return Ok(true);
        }
        let m = v["method"].as_str().unwrap_or("").to_string();
        let p = &v["params"];
        let view = p["view_id"].as_str().unwrap_or("").to_string();
        match m.as_str() {
            "update" => {
                let mi = self.views.entry(view).or_insert_with(Mirror::new);
                mi.apply(&p["update"], &self.styles)?;
            }
            "def_style" => {
                self.styles.insert(p["id"].as_i64().unwrap_or(-1), p.clone());
            }
            "add_status_item" => {
                self.status.insert((view, p["key"].as_str().unwrap_or("").to_string()), p["value"].as_str().unwrap_or("").to_string());
            }
            "measure_width" => {
                let w: Vec<Value> = p.as_array().map(|a| a.iter().map(|x| json!(x["strings"].as_array().map(|s| s.iter().map(|t| t.as_str().unwrap_or("").chars().count() as f64).collect::<Vec<_>>()))).collect()).unwrap_or_default();
                let a = json!({"id": v["id"], "result": w});
                self.write(&a)?;
            }
            _ => (),
        }
        if cx.verbose && !matches!(m.as_str(), "def_style" | "theme_changed" | "available_themes" | "update_status_item") {
            cx.note(format!("   < {}", short(&v.to_string())));
        }
        if m != "update" {
            self.told.push(v);
        }
        Ok(true)
    }

    /// Waits until `f`; false when it does not come to hold.
    pub fn until<F: FnMut(&Core) -> bool>(&mut self, cx: &mut Cx, d: Duration, mut f: F) -> Result<bool, Fail> {
        let t = Instant::now();
        loop {
            if f(self) {
                return Ok(true);
            }
            let left = match d.checked_sub(t.elapsed()) {
                Some(x) => x,
                None => return Ok(false),
            };
            self.take(cx, left.min(Duration::from_millis(500)))?;
            if self.ended {
                return Ok(f(self));
            }
        }
    }

    pub fn send(&mut self, cx: &mut Cx, method: &str, params: Value) -> Result<u64, Fail> {
        cx.note(format!("{} {}", method, short(&params.to_string())));
        let id = self.next;
        self.next += 1;
        self.write(&json!({"id": id, "method": method, "params": params}))?;
        Ok(id)
    }
    pub fn answer(&mut self, cx: &mut Cx, id: u64) -> Result<Value, Fail> {
        if !self.until(cx, WAIT, |c| c.answers.contains_key(&id))? {
            let e = self.stderr();
            let tail: Vec<&str> = e.lines().rev().take(10).collect();
            fail!("no-answer", "request {} got no answer within {:?}; stderr {:?}", id, WAIT, tail);
        }
        Ok(self.answers[&id].clone())
    }
    pub fn request(&mut self, cx: &mut Cx, method: &str, params: Value) -> Result<Value, Fail> {
        let id = self.send(cx, method, params)?;
        self.answer(cx, id)
    }
    pub fn notify(&mut self, cx: &mut Cx, method: &str, params: Value) -> Result<(), Fail> {
        cx.note(format!("{} {}", method, short(&params.to_string())));
        self.write(&json!({"method": method, "params": params}))
    }
    pub fn edit(&mut self, cx: &mut Cx, view: &str, method: &str, params: Value) -> Result<(), Fail> {
        self.notify(cx, "edit", json!({"view_id": view, "method": method, "params": params}))
    }
    pub fn contents(&mut self, cx: &mut Cx, view: &str) -> Result<String, Fail> {
        let a = self.request(cx, "debug_get_contents", json!({"view_id": view}))?;
        match a["result"].as_str() {
            Some(s) => Ok(s.to_string()),
            None => fail!("contents-refused", "debug_get_contents of {}: {}", view, a),
        }
    }
    pub fn new_view(&mut self, cx: &mut Cx, path: Option<&Path>) -> Result<String, Fail> {
        let p = match path {
            Some(p) => json!({"file_path": p}),
            None => json!({}),
        };
        let a = self.request(cx, "new_view", p)?;
        match a["result"].as_str() {
            Some(s) => Ok(s.to_string()),
            None => fail!("new-view-refused", "new_view: {}", a),
        }
    }
    pub fn command(&mut self, cx: &mut Cx, view: &str, plugin: &str, method: &str, params: Value) -> Result<(), Fail> {
        self.notify(cx, "plugin", json!({"command": "plugin_rpc", "view_id": view, "receiver": plugin, "rpc": {"method": method, "params": params, "rpc_type": "notification"}}))
    }
    /// Waits for a status item.
    pub fn status(&mut self, cx: &mut Cx, view: &str, key: &str) -> Result<Option<Value>, Fail> {
        let k = (view.to_string(), key.to_string());
        if !self.until(cx, WAIT, |c| c.status.contains_key(&k))? {
            return Ok(None);
        }
        Ok(Some(serde_json::from_str(&self.status[&k]).unwrap_or(Value::Null)))
    }
    pub fn count_told(&self, method: &str, f: impl Fn(&Value) -> bool) -> usize {
        self.told.iter().filter(|v| v["method"] == method && f(&v["params"])).count()
    }

    /// The frontend goes: the core ends well, and with it all the plugins.
    pub fn close(mut self, cx: &mut Cx) -> Result<(), Fail> {
        cx.note("the frontend closes");
        self.stdin.take();
        let t = Instant::now();
        let st = loop {
            let _ = self.take(cx, Duration::from_millis(2))?;
            match self.child.try_wait() {
                Ok(Some(st)) => break st,
                _ => (),
            }
            if t.elapsed() > WAIT {
                fail!("core-does-not-end", "the core still runs {:?} after its input ended", WAIT);
            }
        };
        if !st.success() {
            return Err(self.died("the core ended badly"));
        }
        let e = self.stderr();
        for l in e.lines() {
            // the plugins write to the same stream
            ensure!(!(l.contains("panicked at") && !l.contains("plug.rs")), format!("panic:{}", l.split("panicked at ").nth(1).unwrap_or("").split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("")), "{}", l);
        }
        for &p in &self.pids.clone() {
            let t = Instant::now();
            while alive(p) {
                ensure!(t.elapsed() < WAIT, "plugin-left-behind", "the plugin process {} still runs {:?} after the core ended", p, WAIT);
                std::thread::sleep(Duration::from_millis(3));
            }
            cx.count("plugin_processes_ended", 1);
        }
        cx.count("requests_answered", self.answers.len() as u64);
        ensure!(self.answers.len() as u64 <= self.next, "answers", "{} answers to {} requests", self.answers.len(), self.next);
        Ok(())
    }
}

/// A plugin directory: manifest and an executable that is a script.
pub fn put_plugin(conf: &Path, name: &str, kind: &str, extra: &str) -> PathBuf {
    let d = conf.join("plugins").join(name);
    std::fs::create_dir_all(&d).unwrap();
    let script = format!("#!/bin/sh\nexec '{}' {} {}\n", bin("plug").display(), kind, name);
    std::fs::write(d.join("run"), script).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(d.join("run"), std::fs::Permissions::from_mode(0o755)).unwrap();
    let m = format!("name = \"{}\"\nversion = \"0.1\"\nexec_path = \"./run\"\n{}", name, extra);
    std::fs::write(d.join("manifest.toml"), m).unwrap();
    d
}

/// Runs a case that depends on the file watcher (crate notify) and on real time.
/// That crate now and then loses an event or locks itself up (its timer thread and its
/// event thread take two locks in opposite orders; its condition variable can miss a
/// wake-up), so a case fails only when it does so in each of several attempts.
pub fn attempts(cx: &mut Cx, secs: u64, f: fn(&mut Cx) -> Result<(), Fail>) -> Result<(), Fail> {
    let mut last = Ok(());
    for n in 0..3 {
        let mut c = cx.fork();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let r = match catch(|| f(&mut c)) {
                Ok(r) => r,
                Err((m, l)) => Err(Fail::new(format!("panic:{}", loc_file(&l)), format!("panic `{}` at {}", m, l))),
            };
            let _ = tx.send((r, c));
        });
        match rx.recv_timeout(std::time::Duration::from_secs(secs)) {
            Ok((Ok(()), c)) => {
                cx.join(c);
                cx.count("attempts_repeated", n);
                return Ok(());
            }
            Ok((r, c)) => {
                cx.join(c);
                last = r;
            }
            Err(_) => last = Err(Fail::new("no-progress", format!("no end within {} s", secs))),
        }
    }
    last
}
