//! C32: documents, replies and processes while plugins are real processes that come and go.
use crate::mirror::line_starts;
use crate::proc::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

struct Doc {
    text: String,
    path: Option<std::path::PathBuf>,
}

struct S {
    core: Core,
    docs: BTreeMap<String, Doc>,
    /// plugins that take commands: running?
    plugins: BTreeMap<String, bool>,
    pid: BTreeMap<String, u32>,
    tok: u64,
    files: u64,
}

fn gesture(text: &str, at: usize, ty: Value) -> (&'static str, Value) {
    let st = line_starts(text);
    let line = st.iter().rposition(|&s| s <= at).unwrap();
    ("gesture", json!({"line": line, "col": at - st[line], "ty": ty}))
}

/// One edit as gestures and commands whose meaning is beyond dispute.
fn simple_edit(r: &mut Rng, text: &mut String, only_insert: bool) -> Vec<(&'static str, Value)> {
    let at = text::pos(r, text);
    let mut out = vec![gesture(text, at, json!({"select": {"granularity": "point", "multi": false}}))];
    let k = if only_insert { r.below(3) } else { r.below(7) };
    match k {
        0 | 1 => {
            let n = 1 + r.below(6);
            let s: String = (0..n).map(|_| *r.pick(&["a", "b", "é", "🎉", " ", "x1", "word", "語"])).collect();
            out.push(("insert", json!({ "chars": s })));
            text.insert_str(at, &s);
        }
        2 => {
            let s = *r.pick(&["l1\nl2\n", "\n", "tail\n", "\n\n"]);
            out.push(("insert", json!({ "chars": s })));
            text.insert_str(at, s);
        }
        3 => {
            if text[..at].ends_with(|c: char| c.is_ascii_alphanumeric() || c == '\n') {
                out.push(("delete_backward", json!([])));
                text.remove(at - 1);
            }
        }
        4 => {
            // a newline; lines here are never indented
            let ls = text[..at].rfind('\n').map(|x| x + 1).unwrap_or(0);
            if !text[ls..at].starts_with(' ') {
                out.push(("insert_newline", json!([])));
                text.insert(at, '\n');
            }
        }
        5 => {
            // a range replaced
            let b = text::floor_boundary(text, at + r.below(20));
            if b > at {
                out.push(gesture(text, b, json!({"select_extend": {"granularity": "point"}})));
                let s = *r.pick(&["R", "rep\nlaced", "日本"]);
                out.push(("insert", json!({ "chars": s })));
                text.replace_range(at..b, s);
            }
        }
        _ => {
            let a = text.rfind('\n').map(|x| x + 1).unwrap_or(0);
            let s = "end of text";
            out.clear();
            out.push(gesture(text, a, json!({"select": {"granularity": "point", "multi": false}})));
            out.push(("insert", json!({ "chars": s })));
            text.insert_str(a, s);
        }
    }
    out
}

impl S {
    fn token(&mut self) -> String {
        self.tok += 1;
        format!("t{}", self.tok)
    }

    /// What `plugin` says of `view`; asks again while the plugin may still be starting.
    fn report(&mut self, cx: &mut Cx, view: &str, plugin: &str) -> Result<Value, Fail> {
        let t = Instant::now();
        loop {
            let tok = self.token();
            self.core.command(cx, view, plugin, "report", json!({ "token": tok }))?;
            let k = (view.to_string(), format!("r-{}", tok));
            let known = self.plugins.get(plugin) == Some(&true) && self.pid.contains_key(plugin);
            let d = if known { WAIT } else { Duration::from_millis(200) };
            if self.core.until(cx, d, |c| c.status.contains_key(&k))? {
                let v: Value = serde_json::from_str(&self.core.status[&k]).unwrap_or(Value::Null);
                cx.count("reports", 1);
                if let Some(p) = v["pid"].as_u64() {
                    self.pid.insert(plugin.to_string(), p as u32);
                    if !self.core.pids.contains(&(p as u32)) {
                        self.core.pids.push(p as u32);
                    }
                }
                return Ok(v);
            }
            let e = self.core.stderr();
            let tail: Vec<&str> = e.lines().rev().take(8).collect();
            ensure!(t.elapsed() < WAIT && !known, "plugin-silent", "plugin {} does not answer for {} within {:?}; stderr {:?}", plugin, view, t.elapsed(), tail);
        }
    }

    /// Documents, replicas and the frontend's lines agree.
    fn check(&mut self, cx: &mut Cx) -> Result<(), Fail> {
        for v in self.docs.keys().cloned().collect::<Vec<_>>() {
            let got = self.core.contents(cx, &v)?;
            ensure_eq!(got, self.docs[&v].text, "document", "contents of {}", v);
            for p in self.plugins.iter().filter(|p| *p.1).map(|p| p.0.clone()).collect::<Vec<_>>() {
                let r = self.report(cx, &v, &p)?;
                let d = &self.docs[&v];
                ensure!(r["error"].is_null(), "replica-error", "{} cannot read {}: {}", p, v, r);
                ensure!(r["hash"] == json!(format!("{:x}", hash_str(&d.text))) && r["len"] == json!(d.text.len()) && r["size"] == json!(d.text.len()), "replica", "{} sees {} as {}; the document has {} bytes: {:?}", p, v, r, d.text.len(), short(&d.text));
                ensure!(r["bad"] == json!([]), "replica-lines", "{} of {}: {}", p, v, r["bad"]);
                ensure!(r["path"] == json!(d.path), "replica-path", "{} has the path {} for {}, want {:?}", p, r["path"], v, d.path);
                cx.count("replicas_equal", 1);
            }
            let text = self.docs[&v].text.clone();
            let st = line_starts(&text);
            let fits = |c: &Core| match c.views.get(&v) {
                None => false,
                Some(m) => m.lines.len() == st.len() && m.lines.iter().enumerate().all(|(i, l)| l.as_ref().map_or(true, |l| l.text == text[st[i]..st.get(i + 1).copied().unwrap_or(text.len())])),
            };
            if !self.core.until(cx, WAIT, |c| fits(c))? {
                let m = self.core.views.get(&v).map(|m| m.lines.iter().map(|l| l.as_ref().map(|l| l.text.clone())).collect::<Vec<_>>());
                fail!("view-stale", "the lines of {} shown stay {:?}, the document is {:?}", v, short(&m), short(&text));
            }
            cx.count("views_equal", 1);
            cx.state(hash_str(&text));
        }
        // each report was asked for once
        let mut n: BTreeMap<String, u32> = BTreeMap::new();
        for x in self.core.told.iter().filter(|x| x["method"] == "add_status_item") {
            if let Some(k) = x["params"]["key"].as_str().filter(|k| k.starts_with("r-")) {
                *n.entry(k.to_string()).or_default() += 1;
            }
        }
        ensure!(n.values().all(|x| *x == 1), "plugin-twice", "a plugin answered twice: {:?}", n.iter().filter(|x| *x.1 > 1).next());
        Ok(())
    }

    fn any_view(&mut self, cx: &mut Cx) -> String {
        let k: Vec<String> = self.docs.keys().cloned().collect();
        cx.rng.pick(&k).clone()
    }
    fn any_plugin(&mut self, cx: &mut Cx, running: bool) -> Option<String> {
        let k: Vec<String> = self.plugins.iter().filter(|p| *p.1 == running).map(|p| p.0.clone()).collect();
        if k.is_empty() {
            None
        } else {
            Some(cx.rng.pick(&k).clone())
        }
    }

    fn burst(&mut self, cx: &mut Cx, n: usize, only_insert: bool) -> Result<(), Fail> {
        for _ in 0..n {
            let v = self.any_view(cx);
            let mut r = cx.rng.clone();
            let d = self.docs.get_mut(&v).unwrap();
            let es = simple_edit(&mut r, &mut d.text, only_insert);
            cx.rng = r;
            for (m, p) in es {
                self.core.edit(cx, &v, m, p)?;
            }
            cx.count("edits", 1);
        }
        Ok(())
    }

    /// Plugins and user edit at once: nothing is lost, nothing is doubled.
    fn together(&mut self, cx: &mut Cx) -> Result<(), Fail> {
        let mut marks: Vec<(String, String)> = Vec::new();
        let mut toks = Vec::new();
        for _ in 0..1 + cx.rng.below(5) {
            if let Some(p) = self.any_plugin(cx, true) {
                let v = self.any_view(cx);
                self.report(cx, &v, &p)?;
                let tok = self.token();
                let mark = std::char::from_u32(0xE000 + self.tok as u32 % 6000).unwrap().to_string();
                let at = cx.rng.below(1000);
                self.core.command(cx, &v, &p, "edit", json!({"token": tok, "text": mark, "at": at}))?;
                marks.push((v.clone(), mark));
                toks.push((v, tok));
                let n = cx.rng.below(4);
                self.burst(cx, n, true)?;
            }
        }
        for (v, t) in toks {
            let k = (v.clone(), format!("r-{}", t));
            let ok = self.core.until(cx, WAIT, |c| c.status.contains_key(&k))?;
            ensure!(ok, "plugin-silent", "a plugin told to edit {} does not answer", v);
        }
        for v in self.docs.keys().cloned().collect::<Vec<_>>() {
            let got = self.core.contents(cx, &v)?;
            let mut rest = got.clone();
            for (w, m) in &marks {
                let n = got.matches(m.as_str()).count();
                let want = if *w == v { 1 } else { 0 };
                ensure!(n == want, "plugin-edit", "the plugin's {:?} for {} is {} times in {}: {:?}", m, w, n, v, short(&got));
                rest = rest.replace(m.as_str(), "");
            }
            // the user's insertions are each in one piece or another, in their order
            let (mut a, mut b): (Vec<char>, Vec<char>) = (rest.chars().collect(), self.docs[&v].text.chars().collect());
            if a != b {
                // gestures named places of a text the plugin had changed meanwhile: then only
                // the amount of text can be compared
                a.sort();
                b.sort();
            }
            ensure!(a == b, "edit-lost", "{}: after edits of user and plugins the document is {:?}; without the plugins' {:?} is expected", v, short(&got), short(&self.docs[&v].text));
            self.docs.get_mut(&v).unwrap().text = got;
            cx.count("concurrent_rounds", 1);
        }
        Ok(())
    }

    fn end_plugin(&mut self, cx: &mut Cx, p: &str) -> Result<(), Fail> {
        let v = self.any_view(cx);
        self.report(cx, &v, p)?;
        let before: BTreeMap<String, usize> = self.docs.keys().map(|w| (w.clone(), self.core.count_told("plugin_stopped", |x| x["view_id"] == json!(w) && x["plugin"] == json!(p)))).collect();
        let how = cx.rng.below(6);
        if cx.rng.chance(1, 2) {
            self.burst(cx, 3, false)?;
        }
        match how {
            0 => {
                let c = cx.rng.below(3);
                self.core.command(cx, &v, p, "exit", json!({ "code": c }))?
            }
            1 => self.core.command(cx, &v, p, "abort", json!({}))?,
            2 => self.core.command(cx, &v, p, "panic", json!({}))?,
            3 => {
                let b = *cx.rng.pick(&["garbage\n", "{\"method\":\n", "\u{0}\u{1}\n", "[]\n", "{\"id\":\"x\"}\n"]);
                self.core.command(cx, &v, p, "say", json!({ "bytes": b }))?;
                // what the core makes of it is its choice; the plugin goes afterwards
                self.core.command(cx, &v, p, "exit", json!({"code": 0}))?;
            }
            4 => {
                cx.note(format!("kill -9 {}", p));
                let _ = std::process::Command::new("kill").arg("-9").arg(self.pid[p].to_string()).status();
            }
            _ => self.core.notify(cx, "plugin", json!({"command": "stop", "view_id": v, "plugin_name": p}))?,
        }
        cx.count(&format!("ended.{}", ["exit", "abort", "panic", "garbage", "kill", "stop"][how]), 1);
        self.plugins.insert(p.to_string(), false);
        self.pid.remove(p);
        self.burst(cx, 3, false)?;
        for (w, n) in before {
            let t = Instant::now();
            let mut ok = false;
            while !ok && t.elapsed() < WAIT {
                ok = self.core.until(cx, Duration::from_millis(500), |c| c.count_told("plugin_stopped", |x| x["view_id"] == json!(w) && x["plugin"] == json!(p)) > n)?;
                if !ok && how == 2 {
                    // a plugin whose main thread panicked ends when it next reads a message
                    self.core.command(cx, &w, p, "nothing", json!({}))?;
                }
            }
            ensure!(ok, "plugin-stopped-untold", "{} ended, but {} was not told", p, w);
        }
        Ok(())
    }

    fn open(&mut self, cx: &mut Cx, path: Option<std::path::PathBuf>) -> Result<(), Fail> {
        let v = self.core.new_view(cx, path.as_deref())?;
        ensure!(!self.docs.contains_key(&v), "view-id-twice", "{} is given to a second view", v);
        let text = path.as_ref().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        // a file that is not there yet is no path of the document before it is saved
        let path = path.filter(|p| p.exists());
        // plugins are told of the view when it is set up
        let ok = self.core.until(cx, WAIT, |c| c.count_told("language_changed", |x| x["view_id"] == json!(v)) > 0)?;
        ensure!(ok, "view-not-set-up", "{} is never set up", v);
        self.docs.insert(v.clone(), Doc { text, path });
        self.core.edit(cx, &v, "scroll", json!([0, 200]))?;
        Ok(())
    }

    fn save(&mut self, cx: &mut Cx) -> Result<(), Fail> {
        let v = self.any_view(cx);
        let p = match self.docs[&v].path.clone() {
            Some(p) if cx.rng.chance(2, 3) => p,
            _ => {
                self.files += 1;
                self.core.dir.join(format!("file{}.{}", self.files, cx.rng.pick(&["txt", "rs", "none"])))
            }
        };
        self.core.notify(cx, "save", json!({"view_id": v, "file_path": p}))?;
        self.docs.get_mut(&v).unwrap().path = Some(p.clone());
        let text = self.core.contents(cx, &v)?;
        ensure_eq!(text, self.docs[&v].text, "document", "contents of {} when saved", v);
        let on = std::fs::read_to_string(&p).unwrap_or_else(|e| format!("unreadable: {}", e));
        ensure_eq!(on, text, "file", "the saved file {:?}", p);
        cx.count("saves", 1);
        Ok(())
    }
}

fn start(cx: &mut Cx, dir: &Scratch) -> Result<S, Fail> {
    let conf = dir.path("conf");
    std::fs::create_dir_all(conf.join("plugins")).unwrap();
    std::fs::write(conf.join("preferences.xiconfig"), "auto_indent = false\nautodetect_whitespace = false\nsave_with_newline = false\nsurrounding_pairs = []\n").unwrap();
    let mut plugins = BTreeMap::new();
    let n = 1 + cx.rng.below(3);
    for i in 0..n {
        let name = format!("p{}", i);
        put_plugin(&conf, &name, if cx.rng.bool() { "state" } else { "chunk" }, "");
        plugins.insert(name, true);
    }
    match cx.rng.below(8) {
        0 => {
            put_plugin(&conf, "dead", "die", "");
        }
        1 => {
            put_plugin(&conf, "mute", "mute", "");
        }
        2 => {
            put_plugin(&conf, "nonsense", "nonsense", "");
        }
        3 => {
            std::fs::remove_file(put_plugin(&conf, "gone", "state", "").join("run")).unwrap();
        }
        4 => {
            let d = put_plugin(&conf, "plain", "state", "");
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(d.join("run"), std::fs::Permissions::from_mode(0o644)).unwrap();
        }
        5 => {
            let d = put_plugin(&conf, "odd", "state", "");
            let m = *cx.rng.pick(&["", "name = \"odd\"\n", "name = 3\nversion=1\nexec_path=2", "[[[", "name=\"odd\"\nversion=\"1\"\nexec_path=\"./nowhere/at/all\"\n", "name=\"odd\"\nversion=\"1\"\nexec_path=\"\"\n", "name=\"odd\"\nversion=\"1\"\nexec_path=\"/\"\n"]);
            std::fs::write(d.join("manifest.toml"), m).unwrap();
        }
        6 => {
            let d = put_plugin(&conf, "odd", "state", "[[languages]]\nname=\"Odd\"\nextensions=[\"odd\"]\nscope=\"source.odd\"\n");
            let m = *cx.rng.pick(&["", "tab_size = \"x\"\n", "tab_size = 3\n", "[[[", "unknown = 1\n"]);
            std::fs::write(d.join("Odd.toml"), m).unwrap();
            std::fs::remove_file(d.join("run")).unwrap();
            std::fs::write(d.join("run"), "").unwrap();
        }
        _ => (),
    }
    let mut core = Core::start(cx, &dir.0, &[])?;
    core.notify(cx, "client_started", json!({"config_dir": conf, "client_extras_dir": null}))?;
    Ok(S { core, docs: BTreeMap::new(), plugins, pid: BTreeMap::new(), tok: 0, files: 0 })
}

fn session(cx: &mut Cx) -> Result<(), Fail> {
    let dir = Scratch::new(cx);
    let mut s = start(cx, &dir)?;
    let f0 = dir.path("first.odd");
    std::fs::write(&f0, "from a file\nwith lines\n\nand é 🎉\n").unwrap();
    s.open(cx, Some(f0))?;
    if cx.rng.bool() {
        s.open(cx, None)?;
    }
    let n = 3 + cx.rng.below(if cx.thorough { 30 } else { 12 });
    for _ in 0..n {
        match cx.rng.below(14) {
            0..=3 => {
                let k = 1 + cx.rng.below(8);
                s.burst(cx, k, false)?
            }
            4 | 5 => {
                s.check(cx)?;
                s.together(cx)?
            }
            6 => s.check(cx)?,
            7 => s.save(cx)?,
            8 => {
                if let Some(p) = s.any_plugin(cx, true) {
                    s.end_plugin(cx, &p)?
                }
            }
            9 => {
                if let Some(p) = s.any_plugin(cx, false) {
                    let v = s.any_view(cx);
                    s.core.notify(cx, "plugin", json!({"command": "start", "view_id": v, "plugin_name": p}))?;
                    s.plugins.insert(p.clone(), true);
                    let k = cx.rng.below(4);
                    s.burst(cx, k, false)?;
                    cx.count("restarts", 1);
                }
            }
            10 => {
                if s.docs.len() < 4 {
                    let p = if cx.rng.bool() {
                        s.files += 1;
                        let p = s.core.dir.join(format!("file{}.rs", s.files));
                        if cx.rng.bool() {
                            std::fs::write(&p, "some\ntext in it\n").unwrap();
                        }
                        Some(p)
                    } else {
                        None
                    };
                    s.open(cx, p)?
                }
            }
            11 => {
                if s.docs.len() > 1 {
                    let v = s.any_view(cx);
                    s.core.notify(cx, "close_view", json!({ "view_id": v }))?;
                    s.docs.remove(&v);
                    cx.count("closed", 1);
                }
            }
            12 => {
                // a busy plugin does not hold up the editor
                if let Some(p) = s.any_plugin(cx, true) {
                    let v = s.any_view(cx);
                    let (m, a) = match cx.rng.below(3) {
                        0 => ("sleep", json!({"ms": 20 + cx.rng.below(200)})),
                        1 => ("flood", json!({"n": 50 + cx.rng.below(500)})),
                        _ => ("fetch", json!({"n": 5 + cx.rng.below(30)})),
                    };
                    s.core.command(cx, &v, &p, m, a)?;
                    s.burst(cx, 5, false)?;
                    let got = s.core.contents(cx, &v)?;
                    ensure_eq!(got, s.docs[&v].text, "document", "contents of {} while {} is busy", v, p);
                }
            }
            _ => {
                // commands for things that do not exist
                let v = s.any_view(cx);
                match cx.rng.below(3) {
                    0 => s.core.command(cx, &v, "nobody", "report", json!({"token": "x"}))?,
                    1 => s.core.notify(cx, "plugin", json!({"command": "start", "view_id": v, "plugin_name": "nobody"}))?,
                    _ => s.core.notify(cx, "plugin", json!({"command": "stop", "view_id": v, "plugin_name": "nobody"}))?,
                }
            }
        }
    }
    s.check(cx)?;
    cx.count("plugins_running_at_end", s.plugins.values().filter(|x| **x).count() as u64);
    let sent = s.core.sent;
    if cx.rng.chance(1, 4) {
        s.burst(cx, 5, false)?;
    }
    s.core.close(cx)?;
    cx.key(cx.trace_hash(), sent > 8);
    Ok(())
}

/// Plugins are installed, removed and renamed, started and stopped twice, while the core runs.
fn folders(cx: &mut Cx) -> Result<(), Fail> {
    attempts(cx, 100, folders_once)
}

const SOON: Duration = Duration::from_secs(6);

struct Folders {
    s: S,
    dir: std::path::PathBuf,
    /// name -> folder
    at: BTreeMap<String, String>,
    n: u32,
}

impl Folders {
    fn plugins(&self) -> std::path::PathBuf {
        self.dir.join("conf/plugins")
    }
    /// The last list of plugins each view was told.
    fn listed(&self) -> bool {
        let want: std::collections::BTreeSet<String> = self.at.keys().cloned().collect();
        self.s.docs.keys().all(|v| {
            let l = self.s.core.told.iter().rev().find(|x| x["method"] == "available_plugins" && x["params"]["view_id"] == json!(v));
            let got: std::collections::BTreeSet<String> = l.and_then(|l| l["params"]["plugins"].as_array().cloned()).unwrap_or_default().iter().map(|x| x["name"].as_str().unwrap_or("?").to_string()).collect();
            got == want
        })
    }
    fn await_list(&mut self, cx: &mut Cx, what: &str) -> Result<(), Fail> {
        let t = Instant::now();
        while !self.listed() {
            let at = self.at.clone();
            ensure!(t.elapsed() < SOON, "plugins-list", "{}: the views were not told of {:?}", what, at.keys());
            self.s.core.until(cx, Duration::from_millis(50), |_| false)?;
        }
        // what else the watcher has to say
        self.s.core.until(cx, Duration::from_millis(150), |_| false)?;
        ensure!(self.listed(), "plugins-list", "{}: the list told is not {:?}", what, self.at.keys());
        Ok(())
    }
    fn await_report(&mut self, cx: &mut Cx, p: &str, what: &str) -> Result<(), Fail> {
        let t = Instant::now();
        let v = self.s.any_view(cx);
        loop {
            let tok = self.s.token();
            self.s.core.command(cx, &v, p, "report", json!({ "token": tok }))?;
            let k = (v.clone(), format!("r-{}", tok));
            if self.s.core.until(cx, Duration::from_millis(300), |c| c.status.contains_key(&k))? {
                let x: Value = serde_json::from_str(&self.s.core.status[&k]).unwrap_or(Value::Null);
                if let Some(pid) = x["pid"].as_u64() {
                    self.s.pid.insert(p.to_string(), pid as u32);
                    if !self.s.core.pids.contains(&(pid as u32)) {
                        self.s.core.pids.push(pid as u32);
                    }
                }
                return Ok(());
            }
            ensure!(t.elapsed() < SOON, "plugin-not-started", "{} does not run after it was {}", p, what);
        }
    }
    fn make(&mut self, cx: &mut Cx, name: &str, folder: &str) -> &'static str {
        let conf = self.dir.join("conf");
        self.n += 1;
        let stage = self.dir.join(format!("stage{}", self.n));
        let kind = if cx.rng.bool() { "state" } else { "chunk" };
        let d = put_plugin(&stage, name, kind, "");
        if cx.rng.bool() {
            std::fs::create_dir_all(d.join("bin")).unwrap();
            std::fs::rename(d.join("run"), d.join("bin/run")).unwrap();
            std::fs::write(d.join("manifest.toml"), format!("name = \"{}\"\nversion = \"0.1\"\nexec_path = \"./bin/run\"\n", name)).unwrap();
        }
        let to = conf.join("plugins").join(folder);
        if cx.rng.bool() {
            std::fs::rename(&d, &to).unwrap();
            "moved in"
        } else {
            let _ = std::process::Command::new("cp").arg("-a").arg(&d).arg(&to).status();
            "copied in"
        }
    }
    fn stopped(&self, p: &str) -> BTreeMap<String, usize> {
        self.s.docs.keys().map(|w| (w.clone(), self.s.core.count_told("plugin_stopped", |x| x["view_id"] == json!(w) && x["plugin"] == json!(p)))).collect()
    }
    fn await_stopped(&mut self, cx: &mut Cx, p: &str, before: &BTreeMap<String, usize>, what: &str) -> Result<(), Fail> {
        for (w, n) in before {
            let ok = self.s.core.until(cx, SOON, |c| c.count_told("plugin_stopped", |x| x["view_id"] == json!(w) && x["plugin"] == json!(p)) > *n)?;
            ensure!(ok, "plugin-stopped-untold", "{} was {}, but {} was not told of its end", p, what, w);
        }
        Ok(())
    }
}

fn folders_once(cx: &mut Cx) -> Result<(), Fail> {
    let dir = Scratch::new(cx);
    let conf = dir.path("conf");
    std::fs::create_dir_all(conf.join("plugins")).unwrap();
    std::fs::write(conf.join("preferences.xiconfig"), "auto_indent = false\nautodetect_whitespace = false\nsave_with_newline = false\nsurrounding_pairs = []\n").unwrap();
    let names = ["p", "p0", "p0x", "q", "q.r"];
    let mut at = BTreeMap::new();
    let mut plugins = BTreeMap::new();
    for n in &names {
        if cx.rng.chance(1, 3) {
            put_plugin(&conf, n, "state", "");
            at.insert(n.to_string(), n.to_string());
            plugins.insert(n.to_string(), true);
        }
    }
    let mut core = Core::start(cx, &dir.0, &[])?;
    core.notify(cx, "client_started", json!({"config_dir": conf, "client_extras_dir": null}))?;
    let s = S { core, docs: BTreeMap::new(), plugins, pid: BTreeMap::new(), tok: 0, files: 0 };
    let mut f = Folders { s, dir: dir.0.clone(), at, n: 0 };
    f.s.open(cx, None)?;
    if cx.rng.bool() {
        f.s.open(cx, None)?;
    }
    for p in f.at.keys().cloned().collect::<Vec<_>>() {
        f.await_report(cx, &p, "there from the start")?;
    }
    let n = 3 + cx.rng.below(if cx.thorough { 10 } else { 5 });
    for _ in 0..n {
        let name = names[cx.rng.below(names.len())];
        let here = f.at.get(name).cloned();
        let run = f.s.plugins.get(name) == Some(&true);
        let v = f.s.any_view(cx);
        match (cx.rng.below(9), here) {
            (0, None) | (1, None) | (2, None) => {
                let folder = if f.plugins().join(name).exists() { format!("{}-2", name) } else { name.to_string() };
                let how = f.make(cx, name, &folder);
                cx.note(format!("{} {}", name, how));
                f.at.insert(name.to_string(), folder);
                f.s.plugins.insert(name.to_string(), true);
                f.await_list(cx, how)?;
                f.await_report(cx, name, how)?;
                cx.count("installed", 1);
            }
            (0, Some(d)) | (1, Some(d)) => {
                let before = f.stopped(name);
                cx.note(format!("{} removed", name));
                std::fs::remove_dir_all(f.plugins().join(d)).unwrap();
                f.at.remove(name);
                f.s.plugins.remove(name);
                f.s.pid.remove(name);
                if run {
                    f.await_stopped(cx, name, &before, "removed")?;
                }
                f.await_list(cx, "removed")?;
                cx.count("removed", 1);
            }
            (2, Some(d)) => {
                // under another folder name: stopped and started
                let before = f.stopped(name);
                f.n += 1;
                let to = format!("{}-{}", name, f.n);
                cx.note(format!("{} renamed to {}", d, to));
                std::fs::rename(f.plugins().join(&d), f.plugins().join(&to)).unwrap();
                f.at.insert(name.to_string(), to);
                f.s.plugins.insert(name.to_string(), true);
                f.s.pid.remove(name);
                if run {
                    f.await_stopped(cx, name, &before, "renamed")?;
                }
                f.await_list(cx, "renamed")?;
                f.await_report(cx, name, "renamed")?;
                cx.count("renamed", 1);
            }
            (3, Some(d)) => {
                // things in its folder
                use std::os::unix::ffi::OsStringExt;
                let odd = [b"notes".to_vec(), b"r".to_vec(), b"ru".to_vec(), b"b".to_vec(), b"x\xff".to_vec()];
                let q = f.plugins().join(&d).join(std::ffi::OsString::from_vec(cx.rng.pick(&odd).clone()));
                cx.note(format!("{:?} comes and goes", q.file_name().unwrap()));
                std::fs::write(&q, "x").unwrap();
                f.s.core.until(cx, Duration::from_millis(130), |_| false)?;
                std::fs::remove_file(&q).unwrap();
                f.s.core.until(cx, Duration::from_millis(200), |_| false)?;
            }
            (3, None) | (4, None) => {
                // a folder that is no plugin
                let q = f.plugins().join(name);
                if q.exists() {
                    continue;
                }
                cx.note(format!("empty folder {} comes and goes", name));
                std::fs::create_dir(&q).unwrap();
                if cx.rng.bool() {
                    std::fs::write(q.join("manifest.toml"), *cx.rng.pick(&["", "name = \"p0\"", "[[", "name = \"z\"\nversion = \"1\"\nexec_path = \"./nothing\"\n"])).unwrap();
                }
                f.s.core.until(cx, Duration::from_millis(150), |_| false)?;
                std::fs::remove_dir_all(&q).unwrap();
                f.s.core.until(cx, Duration::from_millis(200), |_| false)?;
                cx.count("other_folders", 1);
            }
            (4, Some(_)) | (5, Some(_)) => {
                // the user is impatient
                let start = json!({"command": "start", "view_id": v, "plugin_name": name});
                let stop = json!({"command": "stop", "view_id": v, "plugin_name": name});
                let mut on = run;
                let before = f.stopped(name);
                for _ in 0..2 + cx.rng.below(3) {
                    on = cx.rng.chance(3, 5);
                    f.s.core.notify(cx, "plugin", if on { start.clone() } else { stop.clone() })?;
                    if cx.rng.chance(1, 4) {
                        f.s.core.until(cx, Duration::from_millis(20), |_| false)?;
                    }
                }
                f.s.plugins.insert(name.to_string(), on);
                f.s.pid.remove(name);
                if on {
                    f.await_report(cx, name, "started")?;
                } else {
                    if run {
                        f.await_stopped(cx, name, &before, "stopped")?;
                    }
                    f.s.core.until(cx, Duration::from_millis(100), |_| false)?;
                    let tok = f.s.token();
                    f.s.core.command(cx, &v, name, "report", json!({ "token": tok }))?;
                    let k = (v.clone(), format!("r-{}", tok));
                    ensure!(!f.s.core.until(cx, Duration::from_millis(100), |c| c.status.contains_key(&k))?, "stopped-plugin-runs", "{} answers although it was stopped last", name);
                }
                cx.count("impatient", 1);
            }
            (6, _) => f.s.together(cx)?,
            _ => {
                let k = 1 + cx.rng.below(5);
                f.s.burst(cx, k, false)?
            }
        }
        f.s.check(cx)?;
    }
    f.s.core.until(cx, Duration::from_millis(150), |_| false)?;
    f.s.check(cx)?;
    f.s.core.close(cx)?;
    cx.key(cx.trace_hash(), cx.counter("installed") + cx.counter("removed") + cx.counter("renamed") > 0);
    Ok(())
}

pub fn prop() -> Prop {
    let mut p = Prop::new("C32", "a session with more than eight messages to the core", vec![
        Suite { name: "folders", f: folders, quick: 120, thorough: 3000 },
        Suite { name: "session", f: session, quick: 1500, thorough: 40000 }]);
    p.must_observe = &["sessions", "edits", "reports", "replicas_equal", "views_equal", "saves", "restarts", "ended.kill", "ended.stop", "concurrent_rounds", "plugin_processes_ended"];
    p
}
