//! C34: the files of the configuration directory - settings and themes - are in effect.
use crate::drive::*;
use crate::r_config::*;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// Runs idle work until `ok` holds (or its failure is final).
fn until(cx: &mut Cx, s: &mut Sess, ms: u64, ok: &mut dyn FnMut(&mut Cx, &mut Sess) -> Result<(), Fail>) -> Result<(), Fail> {
    let end = Instant::now() + Duration::from_millis(ms);
    loop {
        s.settle(cx)?;
        match ok(cx, s) {
            Ok(()) => return Ok(()),
            Err(e) if Instant::now() > end || e.sig.starts_with("panic") => return Err(e),
            Err(_) => std::thread::sleep(Duration::from_millis(10)),
        }
    }
}

/// Lets the watcher say all it has to say.
fn quiet(cx: &mut Cx, s: &mut Sess, ms: u64) -> Result<(), Fail> {
    let end = Instant::now() + Duration::from_millis(ms);
    while Instant::now() < end {
        s.settle(cx)?;
        std::thread::sleep(Duration::from_millis(15));
    }
    s.settle(cx)
}

/// How a file comes to have new contents. Gives a word for it.
fn put(r: &mut Rng, p: &Path, b: &[u8], n: usize) -> &'static str {
    // times of files are coarse
    std::thread::sleep(Duration::from_millis(12));
    match r.below(4) {
        0 | 1 => {
            std::fs::write(p, b).unwrap();
            "written"
        }
        2 => {
            // as editors do
            let q = p.parent().unwrap().join(format!("tmp{}.swp", n));
            std::fs::write(&q, b).unwrap();
            if r.bool() {
                std::thread::sleep(Duration::from_millis(130));
            }
            std::fs::rename(&q, p).unwrap();
            "replaced"
        }
        _ => {
            let _ = std::fs::remove_file(p);
            std::fs::write(p, b).unwrap();
            "removed and written"
        }
    }
}

fn touch(p: &Path) {
    let f = std::fs::OpenOptions::new().append(true).open(p).unwrap();
    f.set_modified(std::time::SystemTime::now()).unwrap();
}

// ---- settings ----

/// What a file says: settings, or nothing that can be used.
#[derive(Clone, Debug)]
enum Content {
    Good(Table),
    Bad,
}

fn content(r: &mut Rng) -> (Content, String) {
    match r.below(8) {
        0 => (Content::Bad, r.pick(&["tab_size = ", "= 3\n", "[a\n", "tab_size = 3\ntab_size = 4\n", "\u{1}"]).to_string()),
        1 => {
            let (k, v) = invalid(r);
            let mut t = Table::new();
            for _ in 0..r.below(3) {
                let (k, v) = setting(r);
                t.insert(k, v);
            }
            t.insert(k, v);
            (Content::Bad, toml(&t))
        }
        _ => {
            let mut t = Table::new();
            for _ in 0..r.below(5) {
                let (k, v) = setting(r);
                t.insert(k, v);
            }
            let mut x = toml(&t);
            if r.chance(1, 4) {
                x = format!("# é\n\n{}", x);
            }
            (Content::Good(t), x)
        }
    }
}

fn domain<'a>(m: &'a mut Model, name: &str) -> &'a mut Table {
    match name {
        "preferences" => &mut m.general,
        l => m.lang.entry(l.to_string()).or_default(),
    }
}

fn settings(cx: &mut Cx) -> Result<(), Fail> {
    attempts(cx, 60, settings_once)
}

fn settings_once(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let dir = Scratch::new(cx);
    let conf = dir.path("conf");
    let mut m = Model { general: Table::new(), lang_def: BTreeMap::new(), lang: BTreeMap::new(), views: vec![] };
    m.lang_def = write_langs(&mut r, &dir.path("extras"));
    let names: Vec<&str> = std::iter::once("preferences").chain(LANGS.iter().map(|l| l.0)).collect();
    let path = |n: &str| conf.join(format!("{}.xiconfig", n));
    let mut disk: BTreeMap<String, Content> = BTreeMap::new();
    if r.chance(1, 5) {
        std::fs::create_dir_all(dir.path("real")).unwrap();
        std::os::unix::fs::symlink(dir.path("real"), &conf).unwrap();
    }
    // what is there before the core starts
    let made = r.chance(5, 6);
    if made {
        std::fs::create_dir_all(&conf).unwrap();
        for n in &names {
            if r.chance(1, 3) {
                let (c, t) = content(&mut r);
                std::fs::write(path(n), t).unwrap();
                if let Content::Good(t) = &c {
                    *domain(&mut m, n) = t.clone();
                }
                disk.insert(n.to_string(), c);
            }
        }
    }
    let mut s = Sess::start_params(cx, json!({"config_dir": conf.to_str().unwrap(), "client_extras_dir": dir.path("extras").to_str().unwrap()}))?;
    s.hide = dir.0.to_str().unwrap().to_string();
    let bad = matches!(disk.get("preferences"), Some(Content::Bad));
    s.settle(cx)?;
    ensure_eq!(!s.alerts.is_empty(), bad, "conf-start-alert", "whether an alert was raised at the start ({:?})", s.alerts);
    for i in 0..2 + r.below(3) {
        let p = dir.path(&format!("f{}.{}", i, r.pick(&["al", "be", "ga", "dn", "txt"])));
        let id = s.new_view(cx, Some(&p))?;
        let lang = lang_of(p.to_str().unwrap());
        m.views.push(View { id, detected_lang: lang.clone(), lang, sys: Table::new(), user: Table::new(), hints: Table::new(), ready: false });
    }
    s.settle(cx)?;
    m.ready();
    check_config(cx, &mut s, &m)?;
    let n = 3 + r.below(if cx.thorough { 14 } else { 6 });
    for k in 0..n {
        let name = *r.pick(&names);
        let p = path(name);
        let here = disk.contains_key(name);
        let alerts = s.alerts.len();
        let mut alert = Some(false);
        let what;
        match r.below(14) {
            0..=5 => {
                let (c, t) = content(&mut r);
                what = put(&mut r, &p, t.as_bytes(), k);
                match &c {
                    Content::Good(t) => *domain(&mut m, name) = t.clone(),
                    // a file that cannot be used changes nothing; gone for a moment, it may
                    // have taken its settings with it
                    Content::Bad => {
                        alert = Some(true);
                        if what == "removed and written" && here {
                            quiet(cx, &mut s, 300)?;
                            let keep = domain(&mut m, name).clone();
                            if check_config(cx, &mut s, &m).is_err() {
                                domain(&mut m, name).clear();
                                if check_config(cx, &mut s, &m).is_err() {
                                    *domain(&mut m, name) = keep;
                                }
                            }
                        }
                    }
                }
                disk.insert(name.to_string(), c);
            }
            6 | 7 if here => {
                what = "removed";
                std::fs::remove_file(&p).unwrap();
                disk.remove(name);
                domain(&mut m, name).clear();
            }
            8 if here => {
                what = "renamed away";
                let to = r.pick(&["old.bak", "x.toml"]).to_string();
                std::fs::rename(&p, conf.join(to)).unwrap();
                disk.remove(name);
                domain(&mut m, name).clear();
                alert = None;
            }
            9 if here => {
                let to = *r.pick(&names);
                if to == name {
                    continue;
                }
                what = "renamed";
                cx.note(format!("   to {}", to));
                std::fs::rename(&p, path(to)).unwrap();
                let c = disk.remove(name).unwrap();
                domain(&mut m, name).clear();
                match &c {
                    Content::Good(t) => *domain(&mut m, to) = t.clone(),
                    Content::Bad => alert = Some(true),
                }
                disk.insert(to.to_string(), c);
            }
            10 if here => {
                what = "touched";
                touch(&p);
                match &disk[name] {
                    Content::Good(t) => *domain(&mut m, name) = t.clone(),
                    Content::Bad => alert = None,
                }
            }
            11 => {
                what = "other files";
                let q = conf.join(*r.pick(&["Unknown.xiconfig", "preferences.txt", "notes", "prefs\u{e9}.xiconfig"]));
                std::fs::write(&q, "tab_size = 1\n").unwrap();
                if r.bool() {
                    quiet(cx, &mut s, 130)?;
                    std::fs::remove_file(&q).unwrap();
                }
                alert = None;
            }
            12 => {
                what = "set by the frontend";
                let dom = match name {
                    "preferences" => json!("general"),
                    l => json!({ "language": l }),
                };
                let cur = domain(&mut m, name);
                let (t, bad) = update(&mut r, cur);
                s.notif(cx, "modify_user_config", json!({"domain": dom, "changes": t}))?;
                alert = Some(bad);
                if !bad {
                    apply(domain(&mut m, name), &t);
                }
            }
            _ if !m.views.is_empty() => {
                what = "new view";
                let q = dir.path(&format!("n{}.{}", k, r.pick(&["al", "be", "ga", "dn", "txt"])));
                let id = s.new_view(cx, Some(&q))?;
                let lang = lang_of(q.to_str().unwrap());
                m.views.push(View { id, detected_lang: lang.clone(), lang, sys: Table::new(), user: Table::new(), hints: Table::new(), ready: true });
            }
            _ => continue,
        }
        cx.note(format!("   {} {}", name, what));
        let mm = &m;
        let (mut got, want) = (false, alert);
        until(cx, &mut s, 3_000, &mut |cx, s| {
            check_config(cx, s, mm)?;
            got = s.alerts.len() > alerts;
            ensure!(want != Some(true) || got, "conf-no-alert", "{} {}: no alert", name, what);
            Ok(())
        })?;
        quiet(cx, &mut s, 170)?;
        check_config(cx, &mut s, &m)?;
        ensure!(want != Some(false) || s.alerts.len() == alerts, "conf-alert", "{} {}: {:?}", name, what, s.alerts.last());
        cx.count("file_changes", 1);
        cx.count(&format!("conf_{}", what.replace(' ', "_")), 1);
    }
    for v in &m.views {
        check_any_view(cx, &mut s, &v.id)?;
    }
    cx.key(cx.trace_hash(), cx.counter("file_changes") > 1);
    Ok(())
}

// ---- themes ----

fn theme_text(n: u32, broken: bool) -> String {
    if broken {
        return ["<plist>", "", "not a theme", "<?xml version=\"1.0\"?><plist version=\"1.0\"><dict></dict></plist>"][n as usize % 4].to_string();
    }
    format!(
        r##"<?xml version="1.0" encoding="UTF-8"?>
<plist version="1.0"><dict><key>name</key><string>N</string><key>settings</key><array>
<dict><key>settings</key><dict><key>background</key><string>#{:06x}</string><key>foreground</key><string>#123456</string></dict></dict>
<dict><key>name</key><string>K</string><key>scope</key><string>keyword</string><key>settings</key><dict><key>foreground</key><string>#ff0000</string></dict></dict>
</array></dict></plist>
"##,
        n
    )
}

#[derive(Clone, Debug, PartialEq)]
struct File {
    n: u32,
    bad: bool,
}

struct Themes {
    dir: PathBuf,
    /// name -> (where, contents)
    files: BTreeMap<String, (PathBuf, File)>,
    defaults: BTreeMap<String, Value>,
    /// the theme in effect, and its file's last usable contents, if it has one
    cur: String,
    cur_n: Option<u32>,
    n: u32,
}

fn bg(v: &Value) -> Option<u32> {
    let c = &v["background"];
    Some((c["r"].as_u64()? << 16 | c["g"].as_u64()? << 8 | c["b"].as_u64()?) as u32)
}

impl Themes {
    fn fresh(&mut self, r: &mut Rng) -> File {
        self.n += 1;
        File { n: self.n, bad: r.chance(1, 6) }
    }
    /// The theme the frontend was last told of.
    fn check(&self, cx: &mut Cx, s: &Sess) -> Result<(), Fail> {
        let last = |m: &str| s.said.iter().rev().find(|x| x.0 == m).map(|x| x.1.clone());
        if let Some(t) = last("available_themes") {
            let l: Vec<String> = t["themes"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
            let got: BTreeSet<String> = l.iter().cloned().collect();
            let want: BTreeSet<String> = self.files.keys().chain(self.defaults.keys()).cloned().collect();
            ensure_eq!(got, want, "themes-list", "themes the frontend was told of");
            ensure!(l.len() == got.len(), "themes-twice", "a theme is listed twice: {:?}", l);
        }
        if let Some(t) = last("theme_changed") {
            ensure_eq!(t["name"].as_str().unwrap_or(""), self.cur, "theme-name", "theme in effect");
            match self.cur_n {
                Some(n) => ensure!(bg(&t["theme"]) == Some(n), "theme-content", "{} in effect has background {:x?}, its file says {:x}", self.cur, bg(&t["theme"]), n),
                None => {
                    // a file named like a default theme may or may not take its place
                    let d = self.defaults.get(&self.cur).filter(|_| !self.files.contains_key(&self.cur));
                    if let Some(d) = d {
                        ensure_eq!(bg(&t["theme"]), bg(d), "theme-content", "background of the default theme {} in effect", self.cur);
                    }
                }
            }
        }
        cx.count("themes_compared", 1);
        Ok(())
    }
    fn gone(&mut self, name: &str) {
        self.files.remove(name);
        if self.cur == name {
            self.cur = "InspiredGitHub".into();
            self.cur_n = None;
        }
    }
    fn came(&mut self, name: &str, p: PathBuf, f: File) {
        if self.cur == name && !f.bad && !self.defaults.contains_key(name) {
            self.cur_n = Some(f.n);
        }
        self.files.insert(name.to_string(), (p, f));
    }
}

fn start(cx: &mut Cx, conf: &Path, hide: &str) -> Result<Sess, Fail> {
    let mut s = Sess::start_params(cx, json!({"config_dir": conf.to_str().unwrap()}))?;
    s.hide = hide.to_string();
    s.settle(cx)?;
    Ok(s)
}

fn themes(cx: &mut Cx) -> Result<(), Fail> {
    attempts(cx, 60, themes_once)
}

fn themes_once(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let dir = Scratch::new(cx);
    let conf = dir.path("conf");
    if r.chance(1, 4) {
        std::fs::create_dir_all(dir.path("real")).unwrap();
        std::os::unix::fs::symlink(dir.path("real"), &conf).unwrap();
    }
    let td = conf.join("themes");
    let mut t = Themes { dir: td.clone(), files: BTreeMap::new(), defaults: BTreeMap::new(), cur: "InspiredGitHub".into(), cur_n: None, n: 0x100 * (1 + r.below(0xffff) as u32) };
    for (k, v) in syntect::highlighting::ThemeSet::load_defaults().themes {
        t.defaults.insert(k, serde_json::to_value(&v.settings).unwrap());
    }
    let mut names = vec!["A", "B.dark", "B.light", "Sol\u{e9} x", "C"];
    if r.chance(1, 3) {
        names.extend(["InspiredGitHub", "Solarized (light)"].iter());
    }
    let place = |r: &mut Rng, n: &str| td.join(if r.chance(1, 5) { "sub" } else { "" }).join(format!("{}.tmTheme", n));
    if r.chance(3, 4) {
        std::fs::create_dir_all(td.join("sub")).unwrap();
        for n in &names {
            if r.chance(1, 2) {
                let (p, f) = (place(&mut r, n), t.fresh(&mut r));
                std::fs::write(&p, theme_text(f.n, f.bad)).unwrap();
                t.came(n, p, f);
            }
        }
    }
    let hide = dir.0.to_str().unwrap().to_string();
    let mut s = start(cx, &conf, &hide)?;
    let (id, _) = s.open_text(cx, &mut r, "fn x() {}\n")?;
    let mut id = id;
    s.settle(cx)?;
    let sub = td.join("sub").is_dir();
    t.check(cx, &s)?;
    let n = 6 + r.below(if cx.thorough { 24 } else { 12 });
    for k in 0..n {
        let name = names[r.below(names.len())];
        let here = t.files.get(name).cloned();
        let what;
        let mut real = true;
        match r.below(18) {
            0..=3 => {
                let f = t.fresh(&mut r);
                let p = match &here {
                    Some((p, _)) => p.clone(),
                    None if sub => place(&mut r, name),
                    None => td.join(format!("{}.tmTheme", name)),
                };
                let text = theme_text(f.n, f.bad);
                what = put(&mut r, &p, text.as_bytes(), k);
                if what == "removed and written" && here.is_some() && t.cur == name && f.bad {
                    // was gone for a moment
                    quiet(cx, &mut s, 300)?;
                    if let Some(x) = s.said.iter().rev().find(|x| x.0 == "theme_changed") {
                        if x.1["name"] != json!(name) {
                            t.gone(name);
                        }
                    }
                } else if what == "removed and written" && here.is_some() && t.cur == name {
                    quiet(cx, &mut s, 300)?;
                    if let Some(x) = s.said.iter().rev().find(|x| x.0 == "theme_changed") {
                        if x.1["name"] != json!(name) {
                            t.gone(name);
                        }
                    }
                }
                t.came(name, p, f);
            }
            4 if here.is_some() => {
                what = "removed";
                std::fs::remove_file(&here.unwrap().0).unwrap();
                t.gone(name);
            }
            5 if here.is_some() => {
                what = "renamed away";
                let (p, _) = here.unwrap();
                std::fs::rename(&p, p.with_file_name(format!("{}.bak", name))).unwrap();
                t.gone(name);
            }
            6 if here.is_some() => {
                let to = names[r.below(names.len())];
                if to == name || t.files.get(to).map_or(false, |x| x.0.parent() != here.as_ref().unwrap().0.parent()) {
                    continue;
                }
                what = "renamed";
                cx.note(format!("   to {}", to));
                let (p, f) = here.unwrap();
                let q = p.with_file_name(format!("{}.tmTheme", to));
                std::fs::rename(&p, &q).unwrap();
                t.gone(name);
                t.came(to, q, f);
            }
            7 if here.is_some() => {
                what = "touched";
                touch(&here.unwrap().0);
            }
            8 if here.is_none() && td.join(format!("{}.bak", name)).exists() => {
                what = "renamed back";
                // its contents
                let q = td.join(format!("{}.tmTheme", name));
                let b = std::fs::read_to_string(td.join(format!("{}.bak", name))).unwrap();
                let n = b.split('#').nth(1).and_then(|x| u32::from_str_radix(&x[..6], 16).ok());
                std::fs::rename(td.join(format!("{}.bak", name)), &q).unwrap();
                t.came(name, q, File { n: n.unwrap_or(0), bad: n.is_none() });
            }
            9 => {
                what = "other files";
                let q = td.join(*r.pick(&["A.txt", "C.tmdump", "notes", "B.dark", "A"]));
                std::fs::write(&q, "x").unwrap();
                quiet(cx, &mut s, 130)?;
                if r.bool() {
                    std::fs::rename(&q, td.join("A.y")).unwrap();
                } else {
                    std::fs::remove_file(&q).unwrap();
                }
            }
            10 => {
                what = "restart";
                drop(s);
                // while no core runs
                for n in &names {
                    if r.chance(1, 3) {
                        if let Some((p, _)) = t.files.get(*n).cloned() {
                            std::thread::sleep(Duration::from_millis(12));
                            if r.bool() {
                                let f = t.fresh(&mut r);
                                std::fs::write(&p, theme_text(f.n, f.bad)).unwrap();
                                t.files.insert(n.to_string(), (p, f));
                            } else {
                                std::fs::remove_file(&p).unwrap();
                                t.files.remove(*n);
                            }
                        }
                    }
                }
                t.cur = "InspiredGitHub".into();
                t.cur_n = None;
                s = start(cx, &conf, &hide)?;
                id = s.open_text(cx, &mut r, "fn x() {}\n")?.0;
            }
            _ => {
                what = "set";
                real = false;
                let pick = match r.below(6) {
                    0 => r.pick(&["InspiredGitHub", "base16-ocean.dark", "Solarized (light)"]).to_string(),
                    1 => r.pick(&["Unknown", "", "../A", "cache"]).to_string(),
                    _ => name.to_string(),
                };
                cx.note(format!("   set_theme {}", pick));
                let said = s.said.iter().filter(|x| x.0 == "theme_changed").count();
                s.notif(cx, "set_theme", json!({ "theme_name": pick }))?;
                s.settle(cx)?;
                let told = s.said.iter().filter(|x| x.0 == "theme_changed").count() - said;
                match t.files.get(&pick) {
                    _ if t.defaults.contains_key(&pick) => {
                        t.cur = pick;
                        t.cur_n = None;
                    }
                    // naming the theme in effect changes nothing
                    Some(_) if t.cur == pick => {}
                    Some((_, f)) if !f.bad => {
                        t.cur_n = Some(f.n);
                        t.cur = pick;
                    }
                    // unusable: the theme in effect stays
                    Some((_, f)) if told > 0 => {
                        // what it was when it could be used
                        let _ = f;
                        t.cur_n = s.said.iter().rev().find(|x| x.0 == "theme_changed").and_then(|x| bg(&x.1["theme"]));
                        ensure!(t.cur_n.is_some(), "theme-changed-for-nothing", "{:?}", s.said.last());
                        t.cur = pick;
                    }
                    Some(_) | None if t.cur != pick => ensure!(told == 0, "theme-changed-for-nothing", "set_theme {:?} changed the theme: {:?}", pick, s.said.last()),
                    _ => {}
                }
            }
        }
        cx.note(format!("   {} {}", name, what));
        let tt = &t;
        until(cx, &mut s, 3_000, &mut |cx, s| tt.check(cx, s))?;
        if real {
            quiet(cx, &mut s, 170)?;
            t.check(cx, &s)?;
            cx.count("file_changes", 1);
        }
        cx.count(&format!("theme_{}", what.replace(' ', "_")), 1);
    }
    check_any_view(cx, &mut s, &id)?;
    cx.key(cx.trace_hash(), cx.counter("file_changes") > 1);
    let _ = &t.dir;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C34",
        "a session in which files of the configuration directory changed",
        vec![
            Suite { name: "settings", f: settings, quick: 250, thorough: 3000 },
            Suite { name: "themes", f: themes, quick: 300, thorough: 3000 },
        ],
    )]
}
