//! Drives the real core through its message interface, playing the frontend:
//! an in-memory peer records what the core sends, owns the idle queue and the
//! timers (virtual time), and answers width requests; one line-cache mirror per
//! view applies the documented update protocol.
use crate::mirror::Mirror;
use monlib::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Instant;
use xi_core_lib::XiCore;
use xi_rpc::{Callback, Error, Handler, Peer, RemoteError, RpcCtx, RpcPeer};

pub type NotifOf = <XiCore as Handler>::Notification;
pub type ReqOf = <XiCore as Handler>::Request;

pub struct PeerSt {
    pub out: VecDeque<(String, Value)>,
    pub idle: VecDeque<usize>,
    pub timers: Vec<(Instant, usize)>,
    pub width: fn(&str) -> f64,
    pub width_reqs: u64,
    /// 1: width requests fail, 2..: malformed answers
    pub width_fail: u8,
}

#[derive(Clone)]
pub struct FakePeer(pub Arc<Mutex<PeerSt>>);

impl Peer for FakePeer {
    fn box_clone(&self) -> Box<dyn Peer> {
        Box::new(self.clone())
    }
    fn send_rpc_notification(&self, method: &str, params: &Value) {
        self.0.lock().unwrap().out.push_back((method.to_string(), params.clone()));
    }
    fn send_rpc_request_async(&self, method: &str, params: &Value, f: Box<dyn Callback>) {
        let r = self.send_rpc_request(method, params);
        f.call(r);
    }
    fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
        let mut st = self.0.lock().unwrap();
        if method == "measure_width" {
            st.width_reqs += 1;
            match st.width_fail {
                0 => {}
                1 => return Err(Error::PeerDisconnect),
                2 => return Ok(Value::Null),
                3 => return Ok(serde_json::json!([[]])),
                _ => return Ok(serde_json::json!([["x"]])),
            }
            let w = st.width;
            let v: Vec<Value> = params
                .as_array()
                .expect("measure_width params")
                .iter()
                .map(|r| Value::from(r["strings"].as_array().unwrap().iter().map(|s| w(s.as_str().unwrap())).collect::<Vec<f64>>()))
                .collect();
            return Ok(Value::from(v));
        }
        st.out.push_back((format!("request:{}", method), params.clone()));
        Err(Error::PeerDisconnect)
    }
    fn request_is_pending(&self) -> bool {
        false
    }
    fn schedule_idle(&self, token: usize) {
        self.0.lock().unwrap().idle.push_back(token);
    }
    fn schedule_timer(&self, after: Instant, token: usize) {
        self.0.lock().unwrap().timers.push((after, token));
    }
}

pub fn unit_width(s: &str) -> f64 {
    s.chars().map(|c| if (c as u32) < 0x80 { 1.0 } else { 2.0 }).sum()
}

pub struct Sess {
    pub core: XiCore,
    pub ctx: RpcCtx,
    pub st: Arc<Mutex<PeerSt>>,
    pub views: BTreeMap<String, Mirror>,
    pub styles: BTreeMap<i64, Value>,
    /// styles that were defined before the theme changed
    pub redefine: BTreeSet<i64>,
    pub alerts: Vec<String>,
    /// everything else the core said: (method, params)
    pub said: Vec<(String, Value)>,
    pub language: BTreeMap<String, String>,
    pub config: BTreeMap<String, serde_json::Map<String, Value>>,
    /// a frontend that follows scroll_to like a real one
    pub follow: bool,
    pub idle_runs: u64,
    pub sent: u64,
    pub updates: u64,
    /// order in which idle work is picked (0 = FIFO)
    pub trace: bool,
    /// written as $D in the trace
    pub hide: String,
    /// of files made by `open_text`; goes after the core
    dir: Option<Scratch>,
    files: usize,
}

fn fail_of(p: (String, String), what: &str) -> Fail {
    Fail::new(format!("panic:{}", loc_file(&p.1)), format!("panic `{}` at {} while handling {}", p.0, p.1, what))
}

impl Sess {
    pub fn bare() -> Sess {
        let st = Arc::new(Mutex::new(PeerSt {
            out: VecDeque::new(),
            idle: VecDeque::new(),
            timers: Vec::new(),
            width: unit_width,
            width_reqs: 0,
            width_fail: 0,
        }));
        let peer: RpcPeer = Box::new(FakePeer(st.clone()));
        Sess {
            core: XiCore::new(),
            ctx: RpcCtx::for_peer(peer),
            st,
            views: BTreeMap::new(),
            styles: BTreeMap::new(),
            redefine: BTreeSet::new(),
            alerts: Vec::new(),
            said: Vec::new(),
            language: BTreeMap::new(),
            config: BTreeMap::new(),
            follow: true,
            idle_runs: 0,
            sent: 0,
            updates: 0,
            trace: true,
            hide: String::new(),
            dir: None,
            files: 0,
        }
    }

    pub fn start(cx: &mut Cx) -> Result<Sess, Fail> {
        Sess::start_with(cx, None)
    }

    pub fn start_with(cx: &mut Cx, config_dir: Option<&Path>) -> Result<Sess, Fail> {
        let p = match config_dir {
            Some(d) => json!({ "config_dir": d.to_str().unwrap() }),
            None => json!({}),
        };
        Sess::start_params(cx, p)
    }

    pub fn start_params(cx: &mut Cx, p: Value) -> Result<Sess, Fail> {
        let mut s = Sess::bare();
        for attempt in 0.. {
            match s.notif(cx, "client_started", p.clone()) {
                // the machine has few file watchers; those of ended sessions go away shortly
                Err(f) if f.msg.contains("watcher should spawn") && attempt < 400 => std::thread::sleep(std::time::Duration::from_millis(50)),
                r => {
                    r?;
                    break;
                }
            }
        }
        Ok(s)
    }

    /// Deliver one notification exactly as the run loop would.
    pub fn notif(&mut self, cx: &mut Cx, method: &str, params: Value) -> Result<(), Fail> {
        let msg = json!({"method": method, "params": params});
        self.raw_notif(cx, msg)
    }

    pub fn raw_notif(&mut self, cx: &mut Cx, msg: Value) -> Result<(), Fail> {
        if self.trace {
            cx.note(self.hidden(format!("-> {}", brief(&msg))));
        }
        self.sent += 1;
        let (core, ctx) = (&mut self.core, &self.ctx);
        let r = catch(|| match serde_json::from_value::<NotifOf>(msg.clone()) {
            Ok(n) => {
                core.handle_notification(ctx, n);
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        });
        match r {
            Err(p) => return Err(fail_of(p, &brief(&msg))),
            Ok(Err(e)) => cx.note(format!("   (refused: {})", e)),
            Ok(Ok(())) => {}
        }
        self.drain(cx)
    }

    fn hidden(&self, t: String) -> String {
        if self.hide.is_empty() {
            t
        } else {
            t.replace(&self.hide, "$D")
        }
    }

    pub fn req(&mut self, cx: &mut Cx, method: &str, params: Value) -> Result<Result<Value, RemoteError>, Fail> {
        let msg = json!({"method": method, "params": params});
        self.sent += 1;
        let (core, ctx) = (&mut self.core, &self.ctx);
        let r = catch(|| match serde_json::from_value::<ReqOf>(msg.clone()) {
            Ok(n) => core.handle_request(ctx, n),
            Err(e) => Err(RemoteError::custom(-1, format!("parse: {}", e), None)),
        });
        match r {
            Err(p) => Err(fail_of(p, &brief(&msg))),
            Ok(r) => {
                if self.trace && method != "debug_get_contents" {
                    cx.note(self.hidden(format!("-> {} = {}", brief(&msg), short(&r))));
                }
                self.drain(cx)?;
                Ok(r)
            }
        }
    }

    pub fn new_view(&mut self, cx: &mut Cx, path: Option<&Path>) -> Result<String, Fail> {
        match self.try_view(cx, path)? {
            Ok(v) => Ok(v),
            Err(e) => Err(Fail::new("new-view-refused", format!("new_view refused: {:?}", e))),
        }
    }

    /// A view of a file with this text (Some) or, half of the time or where the text would
    /// not be read as it is, of an empty document (None).
    pub fn open_file_of(&mut self, cx: &mut Cx, r: &mut Rng, txt: &str) -> Result<Option<String>, Fail> {
        if txt.starts_with('\u{feff}') || !r.chance(2, 5) {
            return Ok(None);
        }
        if self.dir.is_none() {
            let d = Scratch::new(cx);
            self.hide = d.0.to_str().unwrap().to_string();
            self.dir = Some(d);
        }
        let p = self.dir.as_ref().unwrap().path(&format!("f{}.txt", self.files));
        self.files += 1;
        std::fs::write(&p, txt).unwrap();
        cx.count("opened_from_file", 1);
        if self.trace {
            cx.note(format!("   file f{}.txt: {:?}", self.files - 1, short(&txt)));
        }
        self.new_view(cx, Some(&p)).map(Some)
    }

    /// A view of a document with this text, from a file or typed in (then the caret is at its end).
    pub fn open_text(&mut self, cx: &mut Cx, r: &mut Rng, txt: &str) -> Result<(String, bool), Fail> {
        if let Some(v) = self.open_file_of(cx, r, txt)? {
            return Ok((v, true));
        }
        let v = self.new_view(cx, None)?;
        if !txt.is_empty() {
            self.do_edit(cx, &v, "insert", json!({ "chars": txt }))?;
        }
        Ok((v, false))
    }

    pub fn try_view(&mut self, cx: &mut Cx, path: Option<&Path>) -> Result<Result<String, RemoteError>, Fail> {
        let p = match path {
            Some(p) => json!({ "file_path": p.to_str().unwrap() }),
            None => json!({}),
        };
        match self.req(cx, "new_view", p)? {
            Ok(v) => {
                let id = v.as_str().map(String::from).ok_or_else(|| Fail::new("new-view-answer", format!("new_view answered {}", v)))?;
                self.views.entry(id.clone()).or_insert_with(Mirror::new);
                self.settle(cx)?;
                Ok(Ok(id))
            }
            Err(e) => Ok(Err(e)),
        }
    }

    pub fn edit(&mut self, cx: &mut Cx, view: &str, method: &str, params: Value) -> Result<(), Fail> {
        if method == "scroll" {
            // other values are refused
            if let (Some(m), Some(a), Some(b)) = (self.views.get_mut(view), params[0].as_i64(), params[1].as_i64()) {
                m.lag = false;
                m.window = (a.max(0) as usize, b.max(0) as usize);
            }
        }
        let p = if params.is_null() {
            json!({"view_id": view, "method": method})
        } else {
            json!({"view_id": view, "method": method, "params": params})
        };
        self.notif(cx, "edit", p)
    }

    /// Edit, let idle work finish.
    pub fn do_edit(&mut self, cx: &mut Cx, view: &str, method: &str, params: Value) -> Result<(), Fail> {
        self.edit(cx, view, method, params)?;
        self.settle(cx)
    }

    pub fn edit_req(&mut self, cx: &mut Cx, view: &str, method: &str) -> Result<Value, Fail> {
        let r = self.req(cx, "edit", json!({"view_id": view, "method": method, "params": {}}))?;
        match r {
            Ok(v) => Ok(v),
            Err(e) => Err(Fail::new("edit-request-refused", format!("{} refused: {:?}", method, e))),
        }
    }

    pub fn contents(&mut self, cx: &mut Cx, view: &str) -> Result<String, Fail> {
        match self.req(cx, "debug_get_contents", json!({ "view_id": view }))? {
            Ok(Value::String(s)) => Ok(s),
            x => Err(Fail::new("contents-refused", format!("debug_get_contents gave {:?}", x))),
        }
    }

    pub fn get_config(&mut self, cx: &mut Cx, view: &str) -> Result<Value, Fail> {
        match self.req(cx, "get_config", json!({ "view_id": view }))? {
            Ok(v) => Ok(v),
            x => Err(Fail::new("config-refused", format!("get_config gave {:?}", x))),
        }
    }

    pub fn set_config(&mut self, cx: &mut Cx, domain: Value, changes: Value) -> Result<(), Fail> {
        self.notif(cx, "modify_user_config", json!({"domain": domain, "changes": changes}))?;
        self.settle(cx)
    }

    pub fn close(&mut self, cx: &mut Cx, view: &str) -> Result<(), Fail> {
        self.notif(cx, "close_view", json!({ "view_id": view }))?;
        if let Some(m) = self.views.get_mut(view) {
            m.closed = true;
        }
        Ok(())
    }

    pub fn idle_once(&mut self, cx: &mut Cx) -> Result<bool, Fail> {
        let tok = {
            let mut st = self.st.lock().unwrap();
            if let Some(t) = st.idle.pop_front() {
                Some(t)
            } else if !st.timers.is_empty() {
                let i = (0..st.timers.len()).min_by_key(|i| st.timers[*i].0).unwrap();
                Some(st.timers.remove(i).1)
            } else {
                None
            }
        };
        let tok = match tok {
            Some(t) => t,
            None => return Ok(false),
        };
        self.idle_runs += 1;
        if self.trace {
            cx.note(format!("   idle {:#x}", tok));
        }
        let (core, ctx) = (&mut self.core, &self.ctx);
        catch(|| core.idle(ctx, tok)).map_err(|p| fail_of(p, &format!("idle token {:#x}", tok)))?;
        self.drain(cx)?;
        Ok(true)
    }

    /// Run idle work and timers until there is none left.
    pub fn settle(&mut self, cx: &mut Cx) -> Result<(), Fail> {
        for _ in 0..20_000 {
            if !self.idle_once(cx)? {
                return Ok(());
            }
        }
        Err(Fail::new("idle-never-quiescent", "20000 idle callbacks without quiescence"))
    }

    /// Take in what the core sent.
    pub fn drain(&mut self, cx: &mut Cx) -> Result<(), Fail> {
        loop {
            let (m, p) = match self.st.lock().unwrap().out.pop_front() {
                Some(x) => x,
                None => return Ok(()),
            };
            self.take(cx, &m, p)?;
        }
    }

    fn take(&mut self, cx: &mut Cx, m: &str, p: Value) -> Result<(), Fail> {
        if self.trace && std::env::var_os("MON_TRACE").is_some() {
            cx.note(format!("   <- {} {}", m, brief(&p)));
        }
        let view = p.get("view_id").and_then(|v| v.as_str()).map(String::from);
        if let Some(v) = &view {
            let known = self.views.get(v.as_str());
            ensure!(known.is_some(), "message-for-unknown-view", "core sent {} for {} which was never opened", m, v);
            ensure!(!known.unwrap().closed, "message-for-closed-view", "core sent {} for {} after it was closed", m, v);
        }
        match m {
            "update" => {
                self.updates += 1;
                let v = view.unwrap();
                let styles = &self.styles;
                let mir = self.views.get_mut(&v).unwrap();
                mir.apply(&p["update"], styles)?;
            }
            "scroll_to" => {
                let mir = self.views.get_mut(&view.unwrap()).unwrap();
                let l = p["line"].as_u64().unwrap_or(u64::MAX) as usize;
                let c = p["col"].as_u64().unwrap_or(u64::MAX) as usize;
                mir.scroll_to = Some((l, c));
                mir.scrolls += 1;
                // the core may have scrolled to intermediate positions too
                mir.lag |= mir.window.0 > 0 || l + 1000 >= mir.window.1;
                ensure!(l < mir.lines.len(), "scroll_to-out-of-range", "scroll_to line {} of {}", l, mir.lines.len());
            }
            "def_style" => {
                let id = p["id"].as_i64().unwrap_or(-1);
                // "the guarantee on id is that it is not currently in use in any lines in the view"
                if self.redefine.remove(&id) {
                    self.styles.remove(&id);
                }
                if let Some(old) = self.styles.get(&id) {
                    ensure!(*old == p, "style-id-redefined", "style id {} redefined: {} then {}", id, old, p);
                }
                self.styles.insert(id, p);
            }
            "theme_changed" => {
                // styles may be defined anew
                self.redefine = self.styles.keys().copied().collect();
                self.said.push((m.to_string(), p));
            }
            "language_changed" => {
                self.language.insert(view.unwrap(), p["language_id"].as_str().unwrap_or("").to_string());
            }
            "alert" => {
                self.alerts.push(p["msg"].as_str().unwrap_or("").to_string());
                self.said.push((m.to_string(), p));
            }
            "config_changed" => {
                let e = self.config.entry(view.unwrap()).or_default();
                if let Some(o) = p["changes"].as_object() {
                    for (k, v) in o {
                        e.insert(k.clone(), v.clone());
                    }
                }
                self.said.push((m.to_string(), p));
            }
            "find_status" => {
                let mir = self.views.get_mut(&view.unwrap()).unwrap();
                mir.take_find(&p["queries"])?;
            }
            "replace_status" => {
                let mir = self.views.get_mut(&view.unwrap()).unwrap();
                mir.replace = Some(p["status"].clone());
                mir.replace_sent += 1;
            }
            _ => self.said.push((m.to_string(), p)),
        }
        Ok(())
    }

    /// What a frontend does after scroll_to: bring the line into its window.
    pub fn follow_scroll(&mut self, cx: &mut Cx, view: &str) -> Result<(), Fail> {
        let (l, w) = match self.views.get(view) {
            Some(m) if m.scroll_to.is_some() => (m.scroll_to.unwrap().0, m.window),
            _ => return Ok(()),
        };
        self.views.get_mut(view).unwrap().scroll_to = None;
        let h = w.1.saturating_sub(w.0);
        if h == 0 || (l >= w.0 && l < w.1) {
            return Ok(());
        }
        let first = if l < w.0 { l } else { l + 1 - h };
        self.edit(cx, view, "scroll", json!([first, first + h]))?;
        self.settle(cx)
    }
}

pub fn brief(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 300 {
        let mut h = 300;
        while !s.is_char_boundary(h) {
            h -= 1;
        }
        format!("{}…[{} bytes]", &s[..h], s.len())
    } else {
        s
    }
}

/// A scratch directory of this case, removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(cx: &Cx) -> Scratch {
        let base = std::env::var("MON_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let d = base.join(format!("c{}-{}-{}", std::process::id(), cx.seed, n));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs a case that depends on the file watcher (crate notify) and on real time.
/// That crate now and then loses an event or locks itself up (its timer thread and its
/// event thread take two locks in opposite orders; its condition variable can miss a
/// wake-up), so a case fails only when it does so in each of several attempts.
pub fn attempts(cx: &mut Cx, secs: u64, f: fn(&mut Cx) -> Result<(), Fail>) -> Result<(), Fail> {
    let mut last = Ok(());
    for n in 0..3 {
        let mut c = cx.fork();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let r = match catch(|| f(&mut c)) {
                Ok(r) => r,
                Err((m, l)) => Err(Fail::new(format!("panic:{}", loc_file(&l)), format!("panic `{}` at {}", m, l))),
            };
            let _ = tx.send((r, c));
        });
        match rx.recv_timeout(std::time::Duration::from_secs(secs)) {
            Ok((Ok(()), c)) => {
                cx.join(c);
                cx.count("attempts_repeated", n);
                return Ok(());
            }
            Ok((r, c)) => {
                cx.join(c);
                last = r;
            }
            Err(_) => last = Err(Fail::new("no-progress", format!("no end within {} s", secs))),
        }
    }
    last
}
