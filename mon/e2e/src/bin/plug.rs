//! A plugin process whose behaviour the monitor commands.
use serde_json::{json, Value};
use std::io::Write;
use std::path::Path;
use xi_core_lib::plugin_rpc::ScopeSpan;
use xi_core_lib::{ConfigTable, LanguageId};
use xi_plugin_lib::{mainloop, Cache, ChunkCache, CoreProxy, Plugin, StateCache, View};
use xi_rope::delta::Builder;
use xi_rope::{Interval, Rope};

struct Plug<C> {
    name: String,
    updates: u64,
    idles: u64,
    saves: u64,
    closed: u64,
    opened: u64,
    languages: u64,
    frontier: usize,
    _c: std::marker::PhantomData<C>,
}

fn hash(s: &str) -> String {
    format!("{:x}", monlib::hash_str(s))
}

impl<C: Cache> Plugin for Plug<C> {
    type Cache = C;
    fn initialize(&mut self, _core: CoreProxy) {}
    fn new_view(&mut self, view: &mut View<C>) {
        self.opened += 1;
        view.schedule_idle();
    }
    fn did_close(&mut self, _view: &View<C>) {
        self.closed += 1;
    }
    fn did_save(&mut self, view: &mut View<C>, old: Option<&Path>) {
        self.saves += 1;
        let v = json!({ "old": old, "new": view.get_path() });
        view.add_status_item(&format!("s-{}-{}", self.name, self.saves), &v.to_string(), "left");
    }
    fn config_changed(&mut self, _view: &mut View<C>, _changes: &ConfigTable) {}
    fn language_changed(&mut self, _view: &mut View<C>, _old: LanguageId) {
        self.languages += 1;
    }
    fn update(&mut self, view: &mut View<C>, _d: Option<&xi_rope::RopeDelta>, _t: String, _a: String) {
        self.updates += 1;
        if self.updates % 3 == 0 {
            let _ = view.get_line(0).map(|l| l.len());
        }
        view.schedule_idle();
    }
    fn idle(&mut self, view: &mut View<C>) {
        self.idles += 1;
        // some background work that reads the document and colours it
        self.frontier += 1;
        let n = self.frontier % 7;
        if let Ok(l) = view.get_line(n).map(|l| l.trim_end_matches('\n').len()) {
            if let Ok(o) = view.offset_of_line(n) {
                if l > 0 {
                    if std::env::var_os("PLUG_LOG").is_some() {
                        eprintln!("plug spans: line {} at {} len {} rev {} frontier {}", n, o, l, view.rev, self.frontier);
                    }
                    view.add_scopes(&[vec!["keyword.control".into()], vec!["string.quoted".into()]]);
                    view.update_spans(o, l, &[ScopeSpan { start: 0, end: l, scope_id: (self.frontier % 2) as u32 }]);
                }
            }
            if n != 0 && !view.request_is_pending() {
                view.schedule_idle();
            }
        }
    }
    fn custom_command(&mut self, view: &mut View<C>, method: &str, p: Value) {
        match method {
            "report" => {
                let tok = p["token"].as_str().unwrap();
                let doc = view.get_document();
                let len = view.get_buf_size();
                let mut o = json!({
                    "pid": std::process::id(), "size": len, "rev": view.rev,
                    "path": view.get_path(), "language": view.get_language_id().as_ref(),
                    "tab_size": view.get_config().tab_size, "config": serde_json::to_value(view.get_config()).unwrap_or(Value::Null),
                    "updates": self.updates, "opened": self.opened, "closed": self.closed, "languages": self.languages,
                });
                match doc {
                    Ok(d) => {
                        o["hash"] = json!(hash(&d));
                        o["len"] = json!(d.len());
                        let n = d.matches('\n').count();
                        // lines, offsets and line numbers must agree with the whole
                        let starts: Vec<usize> = std::iter::once(0).chain(d.match_indices('\n').map(|x| x.0 + 1)).collect();
                        let mut bad = Vec::new();
                        for k in 0..4 {
                            let i = (k * 7 + self.updates as usize) % (n + 1);
                            let want = &d[starts[i]..starts.get(i + 1).copied().unwrap_or(d.len())];
                            match view.get_line(i) {
                                Ok(l) if l == want => (),
                                Ok(l) => bad.push(format!("line {} {:?} want {:?}", i, l, want)),
                                Err(e) => {
                                    if !want.is_empty() {
                                        bad.push(format!("line {} error {:?}", i, e))
                                    }
                                }
                            }
                            match view.offset_of_line(i) {
                                Ok(x) if x == starts[i] => (),
                                e => bad.push(format!("offset of line {}: {:?} want {}", i, e, starts[i])),
                            }
                            match view.line_of_offset(starts[i]) {
                                Ok(x) if x == i => (),
                                e => bad.push(format!("line of offset {}: {:?} want {}", starts[i], e, i)),
                            }
                        }
                        o["bad"] = json!(bad);
                    }
                    Err(e) => o["error"] = json!(format!("{:?}", e)),
                }
                view.add_status_item(&format!("r-{}", tok), &o.to_string(), "left");
            }
            "edit" => {
                let text = p["text"].as_str().unwrap();
                let tok = p["token"].as_str().unwrap();
                if let Ok(d) = view.get_document() {
                    let mut at = p["at"].as_u64().unwrap() as usize % (d.len() + 1);
                    while !d.is_char_boundary(at) {
                        at -= 1;
                    }
                    let mut b = Builder::new(d.len());
                    b.replace(Interval::new(at, at), Rope::from(text));
                    view.edit(b.build(), 1, false, true, self.name.clone());
                }
                view.add_status_item(&format!("r-{}", tok), "{}", "left");
            }
            "exit" => std::process::exit(p["code"].as_i64().unwrap_or(0) as i32),
            "abort" => unsafe { libc_abort() },
            "panic" => panic!("as told"),
            "say" => {
                let out = std::io::stdout();
                let mut out = out.lock();
                let _ = out.write_all(p["bytes"].as_str().unwrap().as_bytes());
                let _ = out.flush();
            }
            "sleep" => std::thread::sleep(std::time::Duration::from_millis(p["ms"].as_u64().unwrap())),
            "flood" => {
                for i in 0..p["n"].as_u64().unwrap() {
                    view.update_status_item("flood", &i.to_string());
                }
            }
            "fetch" => {
                for _ in 0..p["n"].as_u64().unwrap() {
                    view.get_cache().clear();
                    let _ = view.get_document().map(|s| s.len());
                }
                view.add_status_item("fetched", "1", "left");
            }
            _ => (),
        }
    }
}

unsafe fn libc_abort() -> ! {
    std::process::abort()
}

fn run<C: Cache>(name: String) {
    let mut p = Plug::<C> { name, updates: 0, idles: 0, saves: 0, closed: 0, opened: 0, languages: 0, frontier: 0, _c: std::marker::PhantomData };
    if let Err(e) = mainloop(&mut p) {
        eprintln!("plugin ended: {:?}", e);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var_os("PLUG_TRACE").is_some() {
        xi_trace::enable_tracing();
    }
    match a[1].as_str() {
        "state" => run::<StateCache<u64>>(a[2].clone()),
        "chunk" => run::<ChunkCache>(a[2].clone()),
        "die" => std::process::exit(3),
        "mute" => {
            // reads everything, says nothing
            let mut b = [0u8; 65536];
            use std::io::Read;
            while let Ok(n) = std::io::stdin().read(&mut b) {
                if n == 0 {
                    break;
                }
            }
        }
        "nonsense" => {
            let _ = std::io::stdout().write_all(b"this is no json\n").and_then(|_| std::io::stdout().flush());
            std::thread::sleep(std::time::Duration::from_millis(200));
        }
        _ => (),
    }
}
