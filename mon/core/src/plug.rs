//! Plays plugins: each keeps its own copy of every buffer from what the core sends.
use crate::drive::*;
use monlib::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Instant;
use xi_core_lib::WeakXiCore;
use xi_rpc::{Callback, Error, Handler, Peer, RemoteError, RpcCtx, RpcPeer};

pub struct PlugSt {
    pub out: VecDeque<(String, Value, Option<Box<dyn Callback>>)>,
    /// the other end is gone: what is sent cannot be delivered
    pub dead: bool,
}

#[derive(Clone)]
pub struct PlugPeer(pub Arc<Mutex<PlugSt>>);

impl Peer for PlugPeer {
    fn box_clone(&self) -> Box<dyn Peer> {
        Box::new(self.clone())
    }
    fn send_rpc_notification(&self, method: &str, params: &Value) {
        let mut st = self.0.lock().unwrap();
        if !st.dead {
            st.out.push_back((method.to_string(), params.clone(), None));
        }
    }
    fn send_rpc_request_async(&self, method: &str, params: &Value, f: Box<dyn Callback>) {
        let mut st = self.0.lock().unwrap();
        if st.dead {
            // as a peer does that finds the pipe closed
            drop(st);
            f.call(Err(Error::PeerDisconnect));
        } else {
            st.out.push_back((method.to_string(), params.clone(), Some(f)));
        }
    }
    fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
        let mut st = self.0.lock().unwrap();
        if st.dead {
            return Err(Error::PeerDisconnect);
        }
        st.out.push_back((format!("sync:{}", method), params.clone(), None));
        if method == "collect_trace" {
            return Ok(json!([]));
        }
        Err(Error::PeerDisconnect)
    }
    fn request_is_pending(&self) -> bool {
        false
    }
    fn schedule_idle(&self, _token: usize) {}
    fn schedule_timer(&self, _after: Instant, _token: usize) {}
}

#[derive(Clone, Debug)]
pub struct Rep {
    pub text: String,
    pub rev: u64,
    /// texts of the revisions the plugin was told of, since the one it acknowledged last
    pub revs: Vec<(u64, String)>,
    pub group: Option<u64>,
    pub config: Map<String, Value>,
    pub lang: String,
    pub path: Option<String>,
    pub saves: Vec<String>,
    pub updates: u64,
    /// the last update: edit type, author
    pub last: (String, String),
}

pub struct Plug {
    pub id: usize,
    pub name: String,
    pub st: Arc<Mutex<PlugSt>>,
    pub handler: WeakXiCore,
    pub ctx: RpcCtx,
    pub reps: BTreeMap<String, Rep>,
    pub closed: Vec<String>,
    pub initialized: bool,
    /// updates taken in but not acknowledged: view, rev, callback
    pub unacked: VecDeque<(String, u64, Box<dyn Callback>)>,
    pub alive: bool,
    pub shutdown: bool,
    /// commands, hovers and the like, in order
    pub asked: Vec<Value>,
    pub updates: u64,
    pub nodelta: u64,
    pub fetches: u64,
}

pub fn connect(cx: &mut Cx, s: &mut Sess, id: usize, name: &str) -> Result<Plug, Fail> {
    let st = Arc::new(Mutex::new(PlugSt { out: VecDeque::new(), dead: false }));
    let peer: RpcPeer = Box::new(PlugPeer(st.clone()));
    cx.note(format!("   plugin-{} {} connects", id, name));
    let core = &s.core;
    let p2 = peer.box_clone();
    let handler = catch(|| core.mon_plugin_connect(id, name, p2)).map_err(|p| Fail::new(format!("panic:{}", loc_file(&p.1)), format!("panic `{}` at {} while a plugin connects", p.0, p.1)))?;
    s.drain(cx)?;
    Ok(Plug {
        id,
        name: name.to_string(),
        st,
        handler,
        ctx: RpcCtx::for_peer(peer),
        reps: BTreeMap::new(),
        closed: Vec::new(),
        initialized: false,
        unacked: VecDeque::new(),
        alive: true,
        shutdown: false,
        asked: Vec::new(),
        updates: 0,
        nodelta: 0,
        fetches: 0,
    })
}

pub fn apply_delta(text: &str, d: &Value) -> Result<String, Fail> {
    let base = d["base_len"].as_u64().unwrap_or(u64::MAX) as usize;
    ensure_eq!(base, text.len(), "delta-base", "base_len of the delta and the length of the plugin's copy");
    let mut out = String::with_capacity(text.len());
    for el in d["els"].as_array().ok_or_else(|| Fail::new("delta-form", format!("delta {}", brief(d))))? {
        if let Some(t) = el["insert"].as_str() {
            out.push_str(t);
        } else if let Some(c) = el["copy"].as_array() {
            let (a, b) = (c[0].as_u64().unwrap_or(u64::MAX) as usize, c[1].as_u64().unwrap_or(u64::MAX) as usize);
            ensure!(a <= b && b <= text.len(), "delta-copy", "copy {}..{} of {} bytes", a, b, text.len());
            ensure!(text.is_char_boundary(a) && text.is_char_boundary(b), "delta-splits-char", "copy {}..{} splits a character of {:?}", a, b, short(&text));
            out.push_str(&text[a..b]);
        } else {
            fail!("delta-form", "element {}", brief(el));
        }
    }
    Ok(out)
}

/// Length of what a delta inserts.
fn nlines(t: &str) -> usize {
    t.matches('\n').count() + 1
}

impl Plug {
    pub fn tag(&self) -> String {
        format!("plugin-{}", self.id)
    }

    pub fn notify(&mut self, cx: &mut Cx, s: &mut Sess, view: &str, method: &str, mut params: Value) -> Result<(), Fail> {
        params["view_id"] = json!(view);
        params["plugin_id"] = json!(self.id);
        self.raw_notify(cx, s, json!({"method": method, "params": params}))
    }

    pub fn raw_notify(&mut self, cx: &mut Cx, s: &mut Sess, msg: Value) -> Result<(), Fail> {
        if s.trace {
            cx.note(format!("{} -> {}", self.tag(), brief(&msg)));
        }
        let (h, ctx) = (&mut self.handler, &self.ctx);
        let r = catch(|| match serde_json::from_value::<<WeakXiCore as Handler>::Notification>(msg.clone()) {
            Ok(n) => {
                h.handle_notification(ctx, n);
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        });
        match r {
            Err(p) => return Err(Fail::new(format!("panic:{}", loc_file(&p.1)), format!("panic `{}` at {} while handling {} of a plugin", p.0, p.1, brief(&msg)))),
            Ok(Err(e)) => cx.note(format!("   (refused: {})", e)),
            Ok(Ok(())) => {}
        }
        s.drain(cx)
    }

    pub fn request(&mut self, cx: &mut Cx, s: &mut Sess, view: &str, method: &str, mut params: Value) -> Result<Result<Value, RemoteError>, Fail> {
        params["view_id"] = json!(view);
        params["plugin_id"] = json!(self.id);
        let msg = json!({"method": method, "params": params});
        self.fetches += 1;
        let (h, ctx) = (&mut self.handler, &self.ctx);
        let r = catch(|| match serde_json::from_value::<<WeakXiCore as Handler>::Request>(msg.clone()) {
            Ok(n) => h.handle_request(ctx, n),
            Err(e) => Err(RemoteError::custom(-1, format!("parse: {}", e), None)),
        });
        match r {
            Err(p) => Err(Fail::new(format!("panic:{}", loc_file(&p.1)), format!("panic `{}` at {} while handling {} of a plugin", p.0, p.1, brief(&msg)))),
            Ok(r) => {
                if s.trace {
                    cx.note(format!("{} -> {} = {}", self.tag(), brief(&msg), short(&r)));
                }
                s.drain(cx)?;
                Ok(r)
            }
        }
    }

    /// A copy of the buffer at `rev`, by get_data requests.
    pub fn fetch(&mut self, cx: &mut Cx, s: &mut Sess, view: &str, rev: u64, len: usize, chunk: usize) -> Result<String, Fail> {
        let mut t = String::new();
        loop {
            let r = self.request(cx, s, view, "get_data", json!({"start": t.len(), "unit": "utf8", "max_size": chunk, "rev": rev}))?;
            let v = r.map_err(|e| Fail::new("get_data-refused", format!("get_data at {} of rev {} refused: {:?}", t.len(), rev, e)))?;
            ensure!(!v.is_null(), "get_data-null", "get_data at {} of {} bytes, rev {}: null", t.len(), len, rev);
            check_data(&v, &t)?;
            let c = v["chunk"].as_str().unwrap();
            ensure!(c.len() <= chunk, "get_data-too-much", "{} bytes answered for max_size {}", c.len(), chunk);
            t.push_str(c);
            if t.len() >= len {
                break;
            }
            ensure!(!c.is_empty(), "get_data-empty", "empty chunk at {} of {} bytes (max_size {})", t.len(), len, chunk);
        }
        ensure_eq!(t.len(), len, "get_data-length", "length fetched, length told");
        Ok(t)
    }

    fn take_buffer(&mut self, cx: &mut Cx, s: &mut Sess, r: &mut Rng, info: &Value) -> Result<(), Fail> {
        let views = info["views"].as_array().cloned().unwrap_or_default();
        ensure_eq!(views.len(), 1, "buffer-views", "views of a new buffer {}", brief(info));
        let view = views[0].as_str().unwrap_or("").to_string();
        ensure!(s.views.contains_key(&view), "buffer-unknown-view", "buffer for {}", view);
        ensure!(!self.closed.contains(&view), "buffer-for-closed-view", "new_buffer for {} after did_close", view);
        let rev = info["rev"].as_u64().unwrap_or(u64::MAX);
        let len = info["buf_size"].as_u64().unwrap_or(u64::MAX) as usize;
        if s.views[&view].closed {
            // closed meanwhile
            return Ok(());
        }
        let text = {
            let chunk = *r.pick(&[4, 5, 64, 1000, 1 << 20, 1 << 30]);
            let text = self.fetch(cx, s, &view, rev, len, if len > 20_000 { 1 << 20 } else { chunk })?;
            ensure_eq!(info["nb_lines"].as_u64(), Some(nlines(&text) as u64), "buffer-lines", "nb_lines of {}", brief(info));
            text
        };
        self.reps.insert(
            view,
            Rep {
                revs: vec![(rev, text.clone())],
                text,
                rev,
                group: None,
                config: info["config"].as_object().cloned().unwrap_or_default(),
                lang: info["syntax"].as_str().unwrap_or("").to_string(),
                path: info["path"].as_str().map(String::from),
                saves: Vec::new(),
                updates: 0,
                last: (String::new(), String::new()),
            },
        );
        Ok(())
    }

    /// Takes in up to `max` messages of the core.
    pub fn pump(&mut self, cx: &mut Cx, s: &mut Sess, r: &mut Rng, max: usize) -> Result<usize, Fail> {
        let mut n = 0;
        while n < max && self.alive {
            let (m, p, cb) = match self.st.lock().unwrap().out.pop_front() {
                Some(x) => x,
                None => break,
            };
            n += 1;
            if s.trace && std::env::var_os("MON_TRACE").is_some() {
                cx.note(format!("   {} <- {} {}", self.tag(), m, brief(&p)));
            }
            if m != "initialize" && m != "ping" && m != "tracing_config" {
                ensure!(self.initialized, "plugin-not-initialized", "{} before initialize", m);
            }
            let view = p["view_id"].as_str().map(String::from);
            if let Some(v) = &view {
                ensure!(!self.closed.contains(v), "plugin-told-of-closed", "{} for {} after did_close", m, v);
            }
            match m.as_str() {
                "initialize" => {
                    ensure!(!self.initialized, "plugin-initialized-twice", "second initialize");
                    self.initialized = true;
                    ensure_eq!(p["plugin_id"], json!(self.id), "plugin-id", "plugin_id");
                    for i in p["buffer_info"].as_array().cloned().unwrap_or_default() {
                        self.take_buffer(cx, s, r, &i)?;
                    }
                }
                "new_buffer" => {
                    for i in p["buffer_info"].as_array().cloned().unwrap_or_default() {
                        self.take_buffer(cx, s, r, &i)?;
                    }
                }
                "did_close" => {
                    let v = view.unwrap();
                    self.reps.remove(&v);
                    self.closed.push(v);
                }
                "did_save" => {
                    if let Some(rep) = self.reps.get_mut(&view.unwrap()) {
                        rep.saves.push(p["path"].as_str().unwrap_or("").to_string());
                        rep.path = p["path"].as_str().map(String::from);
                    }
                }
                "config_changed" => {
                    if let Some(rep) = self.reps.get_mut(&view.unwrap()) {
                        for (k, v) in p["changes"].as_object().cloned().unwrap_or_default() {
                            rep.config.insert(k, v);
                        }
                    }
                }
                "language_changed" => {
                    if let Some(rep) = self.reps.get_mut(&view.unwrap()) {
                        rep.lang = p["new_lang"].as_str().unwrap_or("").to_string();
                    }
                }
                "update" => {
                    let v = view.unwrap();
                    let cb = cb.ok_or_else(|| Fail::new("update-not-a-request", "update sent as a notification"))?;
                    self.updates += 1;
                    let rev = p["rev"].as_u64().unwrap_or(u64::MAX);
                    if self.reps.contains_key(&v) {
                        let len = p["new_len"].as_u64().unwrap_or(u64::MAX) as usize;
                        let text = if p["delta"].is_null() {
                            self.nodelta += 1;
                            let gone = s.views[&v].closed;
                            if gone {
                                String::new()
                            } else {
                                let t = self.fetch(cx, s, &v, rev, len, 1 << 20)?;
                                let old = &self.reps[&v].text;
                                ensure!(t.len() + old.len() > 10_000, "update-without-delta", "no delta for a change from {} to {} bytes", old.len(), t.len());
                                t
                            }
                        } else {
                            apply_delta(&self.reps[&v].text, &p["delta"])?
                        };
                        ensure_eq!(text.len(), if s.views[&v].closed && p["delta"].is_null() { text.len() } else { len }, "update-new-len", "length of the copy after the update, new_len");
                        if !(s.views[&v].closed && p["delta"].is_null()) {
                            ensure_eq!(p["new_line_count"].as_u64(), Some(nlines(&text) as u64), "update-line-count", "new_line_count");
                        }
                        let rep = self.reps.get_mut(&v).unwrap();
                        rep.text = text.clone();
                        rep.rev = rev;
                        rep.revs.push((rev, text));
                        rep.group = p["undo_group"].as_u64();
                        rep.updates += 1;
                        rep.last = (p["edit_type"].as_str().unwrap_or("?").to_string(), p["author"].as_str().unwrap_or("?").to_string());
                    }
                    self.unacked.push_back((v, rev, cb));
                }
                "shutdown" => self.shutdown = true,
                "custom_command" | "get_hover" | "tracing_config" => self.asked.push(json!({ m.as_str(): p })),
                _ => {}
            }
        }
        Ok(n)
    }

    /// Acknowledges up to `max` updates, oldest first.
    pub fn ack(&mut self, cx: &mut Cx, s: &mut Sess, max: usize) -> Result<(), Fail> {
        for _ in 0..max {
            let (v, rev, cb) = match self.unacked.pop_front() {
                Some(x) => x,
                None => break,
            };
            if s.trace && std::env::var_os("MON_TRACE").is_some() {
                cx.note(format!("   {} acknowledges {}", self.tag(), rev));
            }
            catch(|| cb.call(Ok(json!(1)))).map_err(|p| Fail::new(format!("panic:{}", loc_file(&p.1)), format!("panic `{}` at {} at an acknowledgement", p.0, p.1)))?;
            if let Some(rep) = self.reps.get_mut(&v) {
                if let Some(i) = rep.revs.iter().position(|x| x.0 == rev) {
                    rep.revs.drain(..i);
                }
            }
            s.drain(cx)?;
        }
        Ok(())
    }

    pub fn catch_up(&mut self, cx: &mut Cx, s: &mut Sess, r: &mut Rng) -> Result<(), Fail> {
        while self.pump(cx, s, r, 1000)? > 0 || !self.unacked.is_empty() {
            self.ack(cx, s, 1000)?;
        }
        Ok(())
    }

    /// The other end goes away: everything not delivered is lost, then the core notices.
    pub fn die(&mut self, cx: &mut Cx, s: &mut Sess, r: &mut Rng) -> Result<(), Fail> {
        cx.note(format!("   {} dies", self.tag()));
        self.alive = false;
        let mut pend: Vec<Box<dyn Callback>> = self.unacked.drain(..).map(|x| x.2).collect();
        {
            let mut st = self.st.lock().unwrap();
            st.dead = true;
            pend.extend(st.out.drain(..).filter_map(|x| x.2));
        }
        r.shuffle(&mut pend);
        for cb in pend {
            catch(|| cb.call(Err(Error::PeerDisconnect))).map_err(|p| Fail::new(format!("panic:{}", loc_file(&p.1)), format!("panic `{}` at {} when an update fails", p.0, p.1)))?;
        }
        s.drain(cx)
    }

    pub fn exit(&mut self, cx: &mut Cx, s: &mut Sess) -> Result<(), Fail> {
        cx.note(format!("   {} exits", self.tag()));
        let core = &s.core;
        let id = self.id;
        catch(|| core.mon_plugin_exit(id)).map_err(|p| Fail::new(format!("panic:{}", loc_file(&p.1)), format!("panic `{}` at {} when a plugin exits", p.0, p.1)))?;
        s.drain(cx)
    }
}

/// An answer to get_data whose chunk should begin where `before` ends.
pub fn check_data(v: &Value, before: &str) -> Result<(), Fail> {
    ensure!(v["chunk"].is_string(), "get_data-form", "answer {}", brief(v));
    let line = before.matches('\n').count();
    let col = before.len() - before.rfind('\n').map_or(0, |i| i + 1);
    ensure_eq!(v["offset"].as_u64(), Some(before.len() as u64), "get_data-offset", "offset");
    ensure_eq!(v["first_line"].as_u64(), Some(line as u64), "get_data-line", "first_line at {}", before.len());
    ensure_eq!(v["first_line_offset"].as_u64(), Some(col as u64), "get_data-line-offset", "first_line_offset at {}", before.len());
    Ok(())
}

/// A get_data request at random, compared with the plugin's copy of that revision.
pub fn random_read(cx: &mut Cx, s: &mut Sess, r: &mut Rng, p: &mut Plug, view: &str) -> Result<(), Fail> {
    let (rev, text) = match p.reps.get(view) {
        Some(rep) => r.pick(&rep.revs).clone(),
        None => return Ok(()),
    };
    if s.views[view].closed {
        return Ok(());
    }
    let max = *r.pick(&[4, 5, 7, 16, 100, 5000, 1 << 20, 1 << 40, usize::MAX >> 1]);
    let (req, at) = if r.bool() {
        let o = match r.below(6) {
            0 => text.len() + 1 + r.below(5),
            1 => text.len(),
            _ => r.below(text.len() + 1),
        };
        (json!({"start": o, "unit": "utf8", "max_size": max, "rev": rev}), if o > text.len() { None } else { Some(text::floor_boundary(&text, o)) })
    } else {
        let n = nlines(&text);
        let l = match r.below(6) {
            0 => n + 1 + r.below(5),
            1 => n,
            _ => r.below(n),
        };
        let at = if l > n {
            None
        } else if l == n {
            Some(text.len())
        } else if l == 0 {
            Some(0)
        } else {
            Some(text.match_indices('\n').nth(l - 1).unwrap().0 + 1)
        };
        (json!({"start": l, "unit": "line", "max_size": max, "rev": rev}), at)
    };
    let ans = p.request(cx, s, view, "get_data", req.clone())?;
    let ans = ans.map_err(|e| Fail::new("get_data-refused", format!("{} refused: {:?}", req, e)))?;
    match at {
        None => ensure!(ans.is_null(), "get_data-beyond", "{} on {} bytes: {}", req, text.len(), brief(&ans)),
        Some(a) => {
            ensure!(!ans.is_null(), "get_data-null", "{} on {} bytes in {} lines: null", req, text.len(), nlines(&text));
            check_data(&ans, &text[..a])?;
            let c = ans["chunk"].as_str().unwrap();
            ensure!(text[a..].starts_with(c), "get_data-text", "{}: {:?} instead of {:?}", req, short(&c), short(&&text[a..]));
            ensure!(c.len() <= max, "get_data-too-much", "{}: {} bytes", req, c.len());
            // as much as fits
            let room = (a + max.min(1 << 20)).min(text.len());
            ensure_eq!(a + c.len(), text::floor_boundary(&text, room), "get_data-short", "end of the chunk for {}", req);
        }
    }
    Ok(())
}
