//! Settings: layered, validated, and known to the frontend.
use crate::drive::*;
use crate::mirror::line_starts;
use crate::sync::*;
use monlib::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub type Table = Map<String, Value>;

pub fn table(v: Value) -> Table {
    v.as_object().cloned().unwrap_or_default()
}

fn defaults() -> Table {
    table(json!({
        "tab_size": 4, "translate_tabs_to_spaces": true, "use_tab_stops": true, "plugin_search_path": [],
        "font_face": "InconsolataGo", "font_size": 14, "line_ending": "\n", "auto_indent": true,
        "scroll_past_end": false, "wrap_width": 0, "word_wrap": false, "autodetect_whitespace": true,
        "surrounding_pairs": [["\"", "\""], ["'", "'"], ["{", "}"], ["[", "]"]], "save_with_newline": true,
    }))
}

pub fn setting(r: &mut Rng) -> (String, Value) {
    let k = *r.pick(&["tab_size", "translate_tabs_to_spaces", "use_tab_stops", "font_face", "font_size", "line_ending", "auto_indent", "scroll_past_end", "wrap_width", "autodetect_whitespace", "surrounding_pairs", "save_with_newline", "tab_size", "translate_tabs_to_spaces", "line_ending"]);
    let v = match k {
        "tab_size" => json!(1 + r.below(9)),
        "font_face" => json!(*r.pick(&["A", "B C", "é"])),
        "font_size" => json!(8 + r.below(10)),
        "line_ending" => json!(*r.pick(&["\n", "\r\n"])),
        "wrap_width" => json!(*r.pick(&[0, 20, 40])),
        "surrounding_pairs" => r.pick(&[json!([]), json!([["(", ")"]]), json!([["<", ">"], ["{", "}"]])]).clone(),
        _ => json!(r.bool()),
    };
    (k.to_string(), v)
}

pub fn invalid(r: &mut Rng) -> (String, Value) {
    let l = [
        ("tab_size", json!(0)),
        ("tab_size", json!(-1)),
        ("tab_size", json!("4")),
        ("tab_size", json!(1.5)),
        ("translate_tabs_to_spaces", json!("yes")),
        ("wrap_width", json!(-1)),
        ("font_size", json!("big")),
        ("surrounding_pairs", json!([["("]])),
        ("surrounding_pairs", json!("()")),
        ("line_ending", json!(10)),
        ("save_with_newline", json!(1)),
        ("font_face", json!([])),
    ];
    let (k, v) = r.pick(&l).clone();
    (k.to_string(), v)
}

pub fn update(r: &mut Rng, cur: &Table) -> (Table, bool) {
    let mut t = Table::new();
    for _ in 0..1 + r.below(4) {
        let (k, v) = setting(r);
        if r.chance(1, 4) {
            t.insert(k, Value::Null);
        } else {
            t.insert(k, v);
        }
    }
    if r.chance(1, 4) {
        // delete something that is set
        if let Some(k) = cur.keys().next() {
            t.insert(k.clone(), Value::Null);
        }
    }
    let bad = r.chance(1, 5);
    if bad {
        let (k, v) = invalid(r);
        t.insert(k, v);
    }
    (t, bad)
}

pub fn apply(cur: &mut Table, t: &Table) {
    for (k, v) in t {
        if v.is_null() {
            cur.remove(k);
        } else {
            cur.insert(k.clone(), v.clone());
        }
    }
}

pub struct View {
    pub id: String,
    pub lang: String,
    pub detected_lang: String,
    pub sys: Table,
    pub user: Table,
    /// file-given hints, used when the view is set up
    pub hints: Table,
    pub ready: bool,
}

pub struct Model {
    pub general: Table,
    /// defaults of languages, and what the user set
    pub lang_def: BTreeMap<String, Table>,
    pub lang: BTreeMap<String, Table>,
    pub views: Vec<View>,
}

impl Model {
    fn effective(&self, v: &View) -> Table {
        let mut t = defaults();
        apply(&mut t, &self.general);
        if let Some(d) = self.lang_def.get(&v.lang) {
            apply(&mut t, d);
            if let Some(u) = self.lang.get(&v.lang) {
                apply(&mut t, u);
            }
        }
        apply(&mut t, &v.sys);
        apply(&mut t, &v.user);
        t
    }
    pub fn ready(&mut self) {
        for i in 0..self.views.len() {
            if self.views[i].ready {
                continue;
            }
            let auto = self.effective(&self.views[i])["autodetect_whitespace"] == json!(true);
            let v = &mut self.views[i];
            v.ready = true;
            if auto {
                v.sys = v.hints.clone();
            }
        }
    }
}

/// A file whose whitespace style is clear, and what it tells.
fn file(r: &mut Rng) -> (String, Table) {
    let mut hints = Table::new();
    let eol = if r.chance(1, 3) { "\r\n" } else { "\n" };
    let ind = r.below(5);
    let n = *r.pick(&[2, 3, 4, 5, 8]);
    let mut t = String::new();
    let lines = r.below(8);
    let mut any = false;
    for i in 0..lines {
        let depth = r.below(4);
        let lead = match ind {
            0 => String::new(),
            1 => "\t".repeat(depth),
            2 | 3 => " ".repeat(n * depth),
            _ => {
                if i % 2 == 0 {
                    "\t".repeat(depth)
                } else {
                    " ".repeat(n * depth)
                }
            }
        };
        any |= !lead.is_empty();
        t.push_str(&lead);
        t.push_str(r.pick(&["x", "fn é() {", "}", "日本", "a\tb", "a  b"]));
        t.push_str(eol);
    }
    if ind == 2 || ind == 3 {
        t.push_str(&" ".repeat(n));
        t.push_str("y");
        t.push_str(eol);
        any = true;
    }
    if t.contains(eol) {
        hints.insert("line_ending".into(), json!(eol));
    }
    match ind {
        1 if any => {
            hints.insert("translate_tabs_to_spaces".into(), json!(false));
        }
        2 | 3 => {
            hints.insert("translate_tabs_to_spaces".into(), json!(true));
            hints.insert("tab_size".into(), json!(n));
        }
        4 => {
            // tabs and spaces: nothing to tell; one kind only by chance
            let tabs = t.lines().any(|l| l.starts_with('\t'));
            let spaces: Vec<usize> = t.lines().map(|l| l.len() - l.trim_start_matches(' ').len()).filter(|k| *k > 0).collect();
            if tabs && spaces.is_empty() {
                hints.insert("translate_tabs_to_spaces".into(), json!(false));
            } else if !tabs && !spaces.is_empty() {
                // the greatest common divisor of what was used
                let g = spaces.iter().fold(0usize, |a, b| gcd(a, *b));
                hints.insert("translate_tabs_to_spaces".into(), json!(true));
                hints.insert("tab_size".into(), json!(g));
            }
        }
        _ => {}
    }
    (t, hints)
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub const LANGS: &[(&str, &str)] = &[("Alpha", "al"), ("Beta", "be"), ("Gamma Ray", "ga"), ("Dot.Net", "dn")];

pub fn lang_of(path: &str) -> String {
    let ext = path.rsplit('.').next().unwrap_or("");
    LANGS.iter().find(|l| l.1 == ext).map_or("Plain Text", |l| l.0).to_string()
}

/// A plugin directory that defines the languages (its program does not exist).
pub fn write_langs(r: &mut Rng, dir: &Path) -> BTreeMap<String, Table> {
    std::fs::create_dir_all(dir.join("langs")).unwrap();
    let mut m = String::from("name = \"langs\"\nversion = \"0.0.1\"\nexec_path = \"/nonexistent/langs\"\nactivations = [\"autorun\"]\n");
    let mut out = BTreeMap::new();
    for (name, ext) in LANGS {
        m.push_str(&format!("\n[[languages]]\nname = \"{}\"\nextensions = [\"{}\"]\nscope = \"source.{}\"\n", name, ext, ext));
        let mut t = Table::new();
        if r.bool() {
            t.insert("tab_size".into(), json!(1 + r.below(8)));
            t.insert("translate_tabs_to_spaces".into(), json!(r.bool()));
            std::fs::write(dir.join("langs").join(format!("{}.toml", name)), toml(&t)).unwrap();
        }
        out.insert(name.to_string(), t);
    }
    std::fs::write(dir.join("langs/manifest.toml"), m).unwrap();
    out
}

pub fn toml(t: &Table) -> String {
    t.iter().map(|(k, v)| format!("{} = {}\n", k, v)).collect()
}

pub fn check_config(cx: &mut Cx, s: &mut Sess, m: &Model) -> Result<(), Fail> {
    for v in &m.views {
        let want = m.effective(v);
        let got = table(s.get_config(cx, &v.id)?);
        ensure_eq!(got, want, "config-wrong", "settings of {} ({})", v.id, v.lang);
        let shown = s.config.get(&v.id).cloned().unwrap_or_default();
        for (k, x) in &got {
            ensure!(shown.get(k) == Some(x), "config-frontend-stale", "{} of {} is {}, the frontend was told {:?}", k, v.id, x, shown.get(k));
        }
        ensure_eq!(s.language.get(&v.id).cloned().unwrap_or_default(), v.lang.clone(), "config-language", "language the frontend was told for {}", v.id);
        cx.count("configs_compared", 1);
        cx.state(hash_str(&Value::from(got).to_string()));
    }
    Ok(())
}

/// The editing commands follow the settings shown.
fn check_effect(cx: &mut Cx, s: &mut Sess, m: &Model, i: usize) -> Result<(), Fail> {
    let v = &m.views[i];
    let c = m.effective(v);
    let before = s.contents(cx, &v.id)?;
    s.do_edit(cx, &v.id, "move_to_end_of_document", Value::Null)?;
    s.do_edit(cx, &v.id, "insert_newline", Value::Null)?;
    let t = s.contents(cx, &v.id)?;
    let eol = c["line_ending"].as_str().unwrap();
    let lead = match t.strip_prefix(before.as_str()).and_then(|x| x.strip_prefix(eol)) {
        Some(l) => l,
        None => return Err(Fail::new("config-newline-effect", format!("insert_newline at the end of {:?} with line_ending {:?} gave {:?}", short(&before), eol, short(&t)))),
    };
    ensure!(lead.chars().all(|c| c == ' ' || c == '\t') && (lead.is_empty() || c["auto_indent"] == json!(true)), "config-indent-effect", "insert_newline with auto_indent {} added {:?}", c["auto_indent"], lead);
    s.do_edit(cx, &v.id, "insert_tab", Value::Null)?;
    let t2 = s.contents(cx, &v.id)?;
    let want = if c["translate_tabs_to_spaces"] == json!(true) {
        let n = c["tab_size"].as_u64().unwrap() as usize;
        " ".repeat(n - lead.len() % n)
    } else {
        "\t".into()
    };
    ensure_eq!(t2, format!("{}{}", t, want), "config-tab-effect", "insert_tab with tab_size {} translate {}", c["tab_size"], c["translate_tabs_to_spaces"]);
    cx.count("effects_compared", 2);
    Ok(())
}

fn layers(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let dir = Scratch::new(cx);
    let lang_def = write_langs(&mut r, &dir.path("extras"));
    let mut s = Sess::start_params(cx, json!({"client_extras_dir": dir.path("extras").to_str().unwrap()}))?;
    s.hide = dir.0.to_str().unwrap().to_string();
    let mut m = Model { general: Table::new(), lang_def, lang: BTreeMap::new(), views: vec![] };
    let n = 6 + r.below(if cx.thorough { 50 } else { 24 });
    let mut files = 0;
    let (mut invalids, mut effects) = (0, 0);
    for _ in 0..n {
        let alerts = s.alerts.len();
        let mut want_alert = false;
        match r.below(12) {
            0 | 1 | 2 if m.views.len() < 5 => {
                let (p, hints) = if r.chance(1, 4) {
                    (None, Table::new())
                } else {
                    let (t, h) = file(&mut r);
                    let f = dir.path(&format!("f{}.{}", files, r.pick(&["al", "be", "ga", "dn", "txt", "none"])));
                    files += 1;
                    let h = if r.chance(1, 8) {
                        Table::new() // not there: an empty buffer
                    } else {
                        std::fs::write(&f, &t).unwrap();
                        h
                    };
                    (Some(f), h)
                };
                let q = match &p {
                    Some(f) => json!({"file_path": f.to_str().unwrap()}),
                    None => json!({}),
                };
                let id = match s.req(cx, "new_view", q)? {
                    Ok(v) => v.as_str().unwrap().to_string(),
                    Err(e) => return Err(Fail::new("new-view-refused", format!("{:?}", e))),
                };
                s.views.insert(id.clone(), crate::mirror::Mirror::new());
                let lang = p.as_ref().map_or("Plain Text".into(), |f| lang_of(f.to_str().unwrap()));
                m.views.push(View { id, detected_lang: lang.clone(), lang, sys: Table::new(), user: Table::new(), hints, ready: false });
            }
            3 | 4 => {
                let (t, bad) = update(&mut r, &m.general);
                s.notif(cx, "modify_user_config", json!({"domain": "general", "changes": t}))?;
                want_alert = bad;
                if !bad {
                    apply(&mut m.general, &t);
                }
            }
            5 | 6 => {
                let l = r.pick(LANGS).0;
                let cur = m.lang.entry(l.to_string()).or_default();
                let (t, bad) = update(&mut r, cur);
                let mut dom = Table::new();
                dom.insert(r.pick(&["syntax", "language"]).to_string(), json!(l));
                s.notif(cx, "modify_user_config", json!({"domain": dom, "changes": t}))?;
                want_alert = bad;
                if !bad {
                    apply(cur, &t);
                }
            }
            7 | 8 if !m.views.is_empty() => {
                let i = r.below(m.views.len());
                let (t, bad) = update(&mut r, &m.views[i].user);
                s.notif(cx, "modify_user_config", json!({"domain": {"user_override": m.views[i].id}, "changes": t}))?;
                want_alert = bad;
                if !bad {
                    apply(&mut m.views[i].user, &t);
                }
            }
            9 if !m.views.is_empty() => {
                let i = r.below(m.views.len());
                let l = *r.pick(&["Alpha", "Beta", "Gamma Ray", "Dot.Net", "Plain Text", "Unknown"]);
                s.notif(cx, "set_language", json!({"view_id": m.views[i].id, "language_id": l}))?;
                m.views[i].lang = l.to_string();
                m.views[i].detected_lang = String::new();
            }
            10 if !m.views.is_empty() => {
                // saving under another name: the language follows, unless it was chosen
                let i = r.below(m.views.len());
                let f = dir.path(&format!("s{}.{}", files, r.pick(&["al", "be", "ga", "dn", "txt", "none"])));
                files += 1;
                s.notif(cx, "save", json!({"view_id": m.views[i].id, "file_path": f.to_str().unwrap()}))?;
                if !m.views[i].detected_lang.is_empty() {
                    m.views[i].lang = lang_of(f.to_str().unwrap());
                    m.views[i].detected_lang = m.views[i].lang.clone();
                }
            }
            11 if m.views.len() > 1 => {
                let i = r.below(m.views.len());
                let v = m.views.remove(i);
                s.close(cx, &v.id)?;
            }
            _ => continue,
        }
        ensure_eq!(s.alerts.len() > alerts, want_alert, "config-alert", "whether an alert was raised ({:?})", s.alerts.last());
        invalids += want_alert as u64;
        if r.chance(3, 4) {
            s.settle(cx)?;
            m.ready();
            check_config(cx, &mut s, &m)?;
            if !m.views.is_empty() && r.chance(1, 3) {
                let i = r.below(m.views.len());
                check_effect(cx, &mut s, &m, i)?;
                effects += 1;
            }
        }
    }
    s.settle(cx)?;
    m.ready();
    check_config(cx, &mut s, &m)?;
    for v in &m.views {
        check_any_view(cx, &mut s, &v.id)?;
    }
    cx.count("invalid_refused", invalids);
    cx.key(cx.trace_hash(), effects > 0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new("C24", "a session in which edits were compared with the settings", vec![Suite { name: "layers", f: layers, quick: 6000, thorough: 120000 }])]
}
