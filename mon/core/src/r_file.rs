//! Files: what is saved is the text, what is loaded is the file, changes outside are seen.
use crate::drive::*;
use monlib::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// Lets the watcher's events arrive until `done` or the time is over.
fn wait(cx: &mut Cx, s: &mut Sess, ms: u64, mut done: impl FnMut(&mut Cx, &mut Sess) -> Result<bool, Fail>) -> Result<bool, Fail> {
    let t = Instant::now();
    loop {
        s.settle(cx)?;
        if done(cx, s)? {
            return Ok(true);
        }
        if t.elapsed() > Duration::from_millis(ms) {
            return Ok(false);
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}


const BOM: &str = "\u{feff}";

struct Doc {
    id: String,
    path: Option<PathBuf>,
    bom: bool,
    /// text when the buffer last was the same as its file
    saved: String,
    pristine: bool,
    /// the file changed under it in a way that was not taken in
    conflict: bool,
    /// edits so far; many once one was undone: the saved state may be out of reach then
    edits: usize,
}

struct Disk {
    dir: Scratch,
    files: BTreeMap<PathBuf, Vec<u8>>,
    mode: BTreeMap<PathBuf, u32>,
    n: usize,
}

impl Disk {
    fn new(cx: &Cx) -> Disk {
        let dir = Scratch::new(cx);
        std::fs::create_dir_all(dir.path("sub")).unwrap();
        Disk { dir, files: BTreeMap::new(), mode: BTreeMap::new(), n: 0 }
    }
    fn fresh(&mut self, r: &mut Rng) -> PathBuf {
        self.n += 1;
        let name = match r.below(6) {
            0 => format!("noext{}", self.n),
            1 => format!(".hidden{}", self.n),
            2 => format!("two.dots{}.txt", self.n),
            3 => format!("sub/é {}.md", self.n),
            _ => format!("f{}.txt", self.n),
        };
        self.dir.path(&name)
    }
    fn put(&mut self, p: &Path, b: &[u8]) {
        std::fs::write(p, b).unwrap();
        self.files.insert(p.to_path_buf(), b.to_vec());
    }
    fn chmod(&mut self, p: &Path, m: u32) {
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
        self.mode.insert(p.to_path_buf(), m);
    }
    /// Every file there is, is as it should be, and no other is there.
    fn check(&self, cx: &mut Cx, what: &str) -> Result<(), Fail> {
        let mut seen = 0;
        for d in &[self.dir.0.clone(), self.dir.path("sub")] {
            for e in std::fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                if p.is_dir() || p.extension().map_or(false, |e| e == "swp") {
                    continue; // what a failed save leaves behind
                }
                let name = p.strip_prefix(&self.dir.0).unwrap().display().to_string();
                let got = std::fs::read(&p).unwrap();
                let want = self.files.get(&p);
                ensure!(want.is_some(), "file-stray", "after {}: {} appeared", what, name);
                let want = want.unwrap();
                ensure!(got == *want, "file-contents", "after {}: {} holds {:?}, should hold {:?}", what, name, short(&String::from_utf8_lossy(&got)), short(&String::from_utf8_lossy(want)));
                if let Some(m) = self.mode.get(&p) {
                    let got = std::fs::metadata(&p).unwrap().permissions().mode() & 0o7777;
                    ensure!(got == *m, "file-mode", "after {}: {} has mode {:o}, should be {:o}", what, name, got, m);
                }
                seen += 1;
            }
        }
        ensure_eq!(seen, self.files.len(), "file-gone", "files after {}", what);
        cx.count("files_compared", seen as u64);
        Ok(())
    }
}

fn body(r: &mut Rng) -> String {
    let mut t = match r.below(10) {
        0 => String::new(),
        1 => text::any(r, 6000),
        2 => {
            let l = text::any(r, 30).replace('\n', " ");
            (0..r.below(3000)).map(|i| format!("{} {}\n", l, i)).collect()
        }
        _ => text::any(r, 200),
    };
    match r.below(6) {
        0 => t = t.replace("\r\n", "\n").replace('\n', "\r\n"),
        1 => {
            while t.ends_with('\n') || t.ends_with('\r') {
                t.pop();
            }
        }
        2 => t.push('\n'),
        _ => {}
    }
    // a mark of order would be taken for that of the file
    t.trim_start_matches('\u{feff}').to_string()
}

fn bytes_of(r: &mut Rng, t: &str) -> (Vec<u8>, bool) {
    let bom = r.chance(1, 4);
    let mut b = Vec::new();
    if bom {
        b.extend_from_slice(BOM.as_bytes());
    }
    b.extend_from_slice(t.as_bytes());
    (b, bom)
}

fn not_utf8(r: &mut Rng) -> Vec<u8> {
    let mut b = text::any(r, 60).into_bytes();
    let at = r.below(b.len() + 1);
    let bad: &[u8] = r.pick(&[&[0xffu8, 0xfe][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf8, 0x88], &[0xc0, 0x80], &[0x80]]);
    // not between the bytes of a character and not made good by what follows
    b.insert(at, b'|');
    for (i, x) in bad.iter().enumerate() {
        b.insert(at + i, *x);
    }
    if std::str::from_utf8(&b).is_ok() {
        b = vec![0xff];
    }
    b
}

fn edit(cx: &mut Cx, s: &mut Sess, r: &mut Rng, id: &str) -> Result<usize, Fail> {
    let m = *r.pick(&["insert", "insert", "insert", "delete_backward", "delete_forward", "insert_newline", "undo", "redo", "undo", "move_to_end_of_document", "move_right", "select_all", "uppercase", "duplicate_line", "move_to_beginning_of_document", "delete_word_backward"]);
    let p = if m == "insert" { json!({"chars": if r.chance(1, 20) { text::any(r, 4000) } else { crate::ops::word(r) }}) } else { Value::Null };
    s.do_edit(cx, id, m, p)?;
    Ok(if m == "undo" || m == "redo" { 1000 } else { 1 })
}

/// What the flag says must be so.
fn check_pristine(cx: &mut Cx, s: &mut Sess, d: &Doc, t: &str) -> Result<bool, Fail> {
    let p = s.views[&d.id].pristine;
    ensure!(!p || t == d.saved, "pristine-but-changed", "{} is shown as unchanged, but {:?} is not what was saved or loaded, {:?}", d.id, short(&t), short(&d.saved));
    cx.count(if p { "pristine_seen" } else { "changed_seen" }, 1);
    Ok(p)
}

/// The bytes a save of `t` may write.
fn saved_forms(t: &str, c: &Value) -> Vec<String> {
    let eol = c["line_ending"].as_str().unwrap();
    if t.is_empty() || c["save_with_newline"] != json!(true) || t.ends_with(eol) {
        return vec![t.to_string()];
    }
    let with = format!("{}{}", t, eol);
    if t.ends_with('\n') {
        // ends in a line ending, if not of the kind configured
        return vec![with, t.to_string()];
    }
    vec![with]
}

/// A save that must succeed: to `path`.
fn save_ok(cx: &mut Cx, s: &mut Sess, disk: &mut Disk, d: &mut Doc, path: &Path) -> Result<(), Fail> {
    let t = s.contents(cx, &d.id)?;
    let c = s.get_config(cx, &d.id)?;
    let alerts = s.alerts.len();
    s.notif(cx, "save", json!({"view_id": d.id, "file_path": path.to_str().unwrap()}))?;
    s.settle(cx)?;
    ensure!(s.alerts.len() == alerts, "save-refused", "save failed: {:?}", s.alerts.last());
    let got = std::fs::read(path).map_err(|e| Fail::new("save-no-file", format!("after save: {}", e)))?;
    let same = d.path.as_deref() == Some(path);
    let mut want: Vec<Vec<u8>> = Vec::new();
    for f in saved_forms(&t, &c) {
        let with: Vec<u8> = [BOM.as_bytes(), f.as_bytes()].concat();
        if d.bom {
            want.push(with);
        }
        if !d.bom || !same {
            want.push(f.into_bytes());
        }
    }
    ensure!(want.contains(&got), "save-contents", "the text {:?} was saved as {:?} (byte order mark {}, {} {})", short(&t), short(&String::from_utf8_lossy(&got)), d.bom, c["line_ending"], c["save_with_newline"]);
    if !same {
        d.bom = d.bom && got.starts_with(BOM.as_bytes()) && !t.starts_with(BOM);
        d.path = Some(path.to_path_buf());
        disk.mode.remove(path);
    }
    disk.files.insert(path.to_path_buf(), got);
    d.saved = t;
    d.conflict = false;
    ensure!(s.views[&d.id].pristine, "saved-not-pristine", "{} is shown as changed right after a save", d.id);
    let now = s.contents(cx, &d.id)?;
    ensure!(now == d.saved, "save-changed-buffer", "the save changed the buffer");
    d.pristine = true;
    cx.count("saves", 1);
    Ok(())
}

/// A save that must fail: says so and changes nothing.
fn save_fails(cx: &mut Cx, s: &mut Sess, d: &Doc, path: &Path, why: &str) -> Result<(), Fail> {
    let t = s.contents(cx, &d.id)?;
    let p = s.views[&d.id].pristine;
    let alerts = s.alerts.len();
    s.notif(cx, "save", json!({"view_id": d.id, "file_path": path.to_str().unwrap()}))?;
    ensure!(s.alerts.len() > alerts, "save-failed-silently", "a save to a path that {} was not reported", why);
    let now = s.contents(cx, &d.id)?;
    ensure!(now == t, "failed-save-changed-buffer", "the failed save changed the buffer");
    ensure!(s.views[&d.id].pristine == p, "failed-save-pristine", "the failed save changed the pristine flag from {}", p);
    cx.count("failed_saves", 1);
    Ok(())
}

fn open(cx: &mut Cx, s: &mut Sess, r: &mut Rng, disk: &mut Disk) -> Result<Option<Doc>, Fail> {
    let p = disk.fresh(r);
    match r.below(10) {
        0 => {
            // not text
            let b = not_utf8(r);
            disk.put(&p, &b);
            let v = s.try_view(cx, Some(&p))?;
            ensure!(v.is_err(), "bad-utf8-opened", "a file that is not UTF-8 was opened");
            cx.count("refused_files", 1);
            Ok(None)
        }
        1 => {
            let v = s.try_view(cx, Some(&disk.dir.path("sub")))?;
            ensure!(v.is_err(), "directory-opened", "a directory was opened");
            Ok(None)
        }
        2 => {
            let id = s.new_view(cx, Some(&p))?;
            Ok(Some(Doc { id, path: Some(p), bom: false, saved: String::new(), pristine: true, conflict: false, edits: 0 }))
        }
        3 => {
            let id = s.new_view(cx, None)?;
            Ok(Some(Doc { id, path: None, bom: false, saved: String::new(), pristine: true, conflict: false, edits: 0 }))
        }
        _ => {
            let t = body(r);
            let (b, bom) = bytes_of(r, &t);
            disk.put(&p, &b);
            if r.bool() {
                disk.chmod(&p, *r.pick(&[0o644, 0o600, 0o755, 0o640, 0o664, 0o444]));
            }
            let id = s.new_view(cx, Some(&p))?;
            let got = s.contents(cx, &id)?;
            ensure!(got == t, "load-contents", "a file of {:?} (byte order mark {}) was opened as {:?}", short(&t), bom, short(&got));
            cx.count("files_opened", 1);
            Ok(Some(Doc { id, path: Some(p), bom, saved: t, pristine: true, conflict: false, edits: 0 }))
        }
    }
}

fn save(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut disk = Disk::new(cx);
    let mut s = Sess::start(cx)?;
    s.hide = disk.dir.0.to_str().unwrap().to_string();
    let mut docs: Vec<Doc> = vec![];
    let n = 8 + r.below(if cx.thorough { 80 } else { 30 });
    for _ in 0..n {
        let what;
        if docs.is_empty() || (docs.len() < 4 && r.chance(1, 8)) {
            what = "open";
            if let Some(d) = open(cx, &mut s, &mut r, &mut disk)? {
                docs.push(d);
            }
        } else {
            let i = r.below(docs.len());
            let taken: Vec<PathBuf> = docs.iter().filter_map(|d| d.path.clone()).collect();
            let id = docs[i].id.clone();
            match r.below(20) {
                0..=7 => {
                    what = "edit";
                    docs[i].edits += edit(cx, &mut s, &mut r, &id)?;
                }
                8 | 9 => {
                    what = "edit and undo";
                    let p = s.views[&id].pristine;
                    let t = s.contents(cx, &id)?;
                    s.do_edit(cx, &id, "move_to_end_of_document", Value::Null)?;
                    s.do_edit(cx, &id, "insert_newline", Value::Null)?;
                    ensure!(s.contents(cx, &id)? != t && !s.views[&id].pristine, "changed-but-pristine", "{} is shown as unchanged after a newline", id);
                    s.do_edit(cx, &id, "undo", Value::Null)?;
                    ensure!(s.contents(cx, &id)? == t, "undo-not-exact", "undoing a newline");
                    docs[i].edits += 1;
                    ensure!(s.views[&id].pristine == p || docs[i].edits > 15, "undo-not-pristine", "{}: pristine {} before an edit and its undo, {} after", id, p, !p);
                    cx.count("edits_taken_back", (docs[i].edits <= 15) as u64);
                    docs[i].edits += 1000;
                }
                10..=12 => {
                    what = "save";
                    let path = docs[i].path.clone();
                    if let Some(p) = path {
                        save_ok(cx, &mut s, &mut disk, &mut docs[i], &p)?;
                    }
                }
                13 => {
                    what = "save as";
                    let p = disk.fresh(&mut r);
                    if r.chance(1, 4) {
                        let t = body(&mut r);
                        disk.put(&p, t.as_bytes());
                    }
                    save_ok(cx, &mut s, &mut disk, &mut docs[i], &p)?;
                }
                14 => {
                    what = "save into a directory that is not there";
                    let p = disk.dir.path("nowhere/x.txt");
                    save_fails(cx, &mut s, &docs[i], &p, "lies in no directory")?;
                }
                15 => {
                    what = "save over a directory";
                    let p = disk.dir.path("sub");
                    save_fails(cx, &mut s, &docs[i], &p, "is a directory")?;
                }
                16 => {
                    // the disk is full: what is there stays there
                    what = "save to a full disk";
                    let t = s.contents(cx, &id)?;
                    let p = docs[i].path.clone();
                    if let Some(p) = p {
                        if p.exists() && !t.is_empty() {
                            let mut tmp = p.as_os_str().to_os_string();
                            tmp.push(".swp");
                            let _ = std::fs::remove_file(&tmp);
                            std::os::unix::fs::symlink("/dev/full", &tmp).unwrap();
                            // where the new file is written is its own affair
                            let alerts = s.alerts.len();
                            s.notif(cx, "save", json!({"view_id": id, "file_path": p.to_str().unwrap()}))?;
                            s.settle(cx)?;
                            let _ = std::fs::remove_file(&tmp);
                            if s.alerts.len() > alerts {
                                ensure!(s.contents(cx, &id)? == t, "failed-save-changed-buffer", "the failed save changed the buffer");
                                ensure!(s.views[&id].pristine == docs[i].pristine, "failed-save-pristine", "pristine changed by a failed save");
                                cx.count("full_disks", 1);
                            } else {
                                ensure!(std::fs::symlink_metadata(&p).unwrap().is_file(), "save-lost", "a save over a full disk left no file");
                                save_ok(cx, &mut s, &mut disk, &mut docs[i], &p)?;
                            }
                        }
                    }
                }
                17 => {
                    what = "settings";
                    let c = match r.below(4) {
                        0 => json!({"save_with_newline": r.bool()}),
                        1 => json!({"line_ending": r.pick(&["\n", "\r\n"])}),
                        2 => json!({"save_with_newline": Value::Null, "line_ending": Value::Null}),
                        _ => json!({"autodetect_whitespace": r.bool()}),
                    };
                    let dom = if r.bool() { json!("general") } else { json!({ "user_override": id }) };
                    s.set_config(cx, dom, c)?;
                }
                18 => {
                    what = "close";
                    s.close(cx, &id)?;
                    docs.remove(i);
                    s.settle(cx)?;
                }
                _ => {
                    // a closed file is opened again
                    what = "reopen";
                    let free: Vec<PathBuf> = disk.files.keys().filter(|p| !taken.contains(p)).cloned().collect();
                    if !free.is_empty() && docs.len() < 4 {
                        let p = r.pick(&free).clone();
                        let b = disk.files[&p].clone();
                        let v = s.try_view(cx, Some(&p))?;
                        match (std::str::from_utf8(&b), v) {
                            (Ok(t), Ok(id)) => {
                                let bom = t.starts_with(BOM);
                                let t = if bom { &t[BOM.len()..] } else { t };
                                let got = s.contents(cx, &id)?;
                                ensure!(got == t, "load-contents", "a file of {:?} was opened as {:?}", short(&t), short(&got));
                                docs.push(Doc { id, path: Some(p.clone()), bom, saved: t.to_string(), pristine: true, conflict: false, edits: 0 });
                                cx.count("reopened", 1);
                            }
                            (Err(_), Err(_)) => {}
                            (a, b) => return Err(Fail::new("open-result", format!("a file (UTF-8: {}) opened: {:?}", a.is_ok(), b))),
                        }
                    }
                }
            }
        }
        disk.check(cx, what)?;
        for d in &mut docs {
            let t = s.contents(cx, &d.id)?;
            d.pristine = check_pristine(cx, &mut s, d, &t)?;
        }
    }
    cx.key(cx.trace_hash(), cx.counter("saves") > 0);
    Ok(())
}

/// Nobody ever sees half a file while it is saved.
fn whole(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let dir = Scratch::new(cx);
    let p = dir.path("big.txt");
    let line = format!("{}\n", text::any(&mut r, 80).replace(|c| c == '\n' || c == '\r' || c == '\u{feff}', " "));
    let n = 20_000 + r.below(200_000);
    let mut t = line.repeat(n / line.len() + 1);
    std::fs::write(&p, &t).unwrap();
    let mut s = Sess::start(cx)?;
    s.hide = dir.0.to_str().unwrap().to_string();
    let v = s.new_view(cx, Some(&p))?;
    for round in 0..3 {
        s.do_edit(cx, &v, if round == 1 { "move_to_end_of_document" } else { "move_to_beginning_of_document" }, Value::Null)?;
        s.do_edit(cx, &v, "insert", json!({"chars": format!("{}\n", round)}))?;
        let new = s.contents(cx, &v)?;
        let stop = Arc::new(AtomicBool::new(false));
        let (h, p2, old2, new2) = (stop.clone(), p.clone(), t.clone().into_bytes(), new.clone().into_bytes());
        let th = std::thread::spawn(move || {
            let (mut olds, mut news) = (0u64, 0u64);
            loop {
                let last = h.load(Ordering::SeqCst);
                match std::fs::read(&p2) {
                    Ok(b) if b == old2 => olds += 1,
                    Ok(b) if b == new2 => news += 1,
                    Ok(b) => return Err(format!("the file held {} bytes, neither the old text ({}) nor the new ({})", b.len(), old2.len(), new2.len())),
                    Err(e) => return Err(format!("the file was not there: {}", e)),
                }
                if last {
                    return Ok((olds, news));
                }
            }
        });
        std::thread::sleep(Duration::from_micros(r.below(1500) as u64));
        let res = s.notif(cx, "save", json!({"view_id": v, "file_path": p.to_str().unwrap()}));
        stop.store(true, Ordering::SeqCst);
        let seen = th.join().unwrap();
        res?;
        match seen {
            Ok((o, n)) => {
                ensure!(n > 0, "save-contents", "after the save the file does not hold the new text");
                cx.count("reads_during_saves", o + n);
            }
            Err(e) => return Err(Fail::new("save-not-atomic", e)),
        }
        ensure!(s.alerts.is_empty(), "save-refused", "{:?}", s.alerts);
        t = new;
    }
    cx.key(cx.trace_hash(), true);
    Ok(())
}

/// Changes made to open files by others.
fn outside(cx: &mut Cx) -> Result<(), Fail> {
    attempts(cx, 25, outside_once)
}

fn outside_once(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let mut disk = Disk::new(cx);
    let mut s = Sess::start(cx)?;
    s.hide = disk.dir.0.to_str().unwrap().to_string();
    let mut docs: Vec<Doc> = vec![];
    for _ in 0..1 + r.below(3) {
        let p = disk.fresh(&mut r);
        let t = body(&mut r);
        let (b, bom) = bytes_of(&mut r, &t);
        disk.put(&p, &b);
        let id = s.new_view(cx, Some(&p))?;
        docs.push(Doc { id, path: Some(p), bom, saved: t, pristine: true, conflict: false, edits: 0 });
    }
    let n = 4 + r.below(if cx.thorough { 16 } else { 8 });
    for _ in 0..n {
        let i = r.below(docs.len());
        let id = docs[i].id.clone();
        let p = docs[i].path.clone().unwrap();
        let what;
        match r.below(10) {
            0 | 1 => {
                what = "edit";
                for _ in 0..1 + r.below(3) {
                    edit(cx, &mut s, &mut r, &id)?;
                }
            }
            2 | 3 => {
                what = "save";
                if docs[i].conflict {
                    save_fails(cx, &mut s, &docs[i], &p, "changed on disk")?;
                } else {
                    save_ok(cx, &mut s, &mut disk, &mut docs[i], &p)?;
                }
            }
            4 if docs[i].conflict || r.chance(1, 3) => {
                what = "save as";
                let q = disk.fresh(&mut r);
                save_ok(cx, &mut s, &mut disk, &mut docs[i], &q)?;
            }
            _ => {
                let mut t = body(&mut r);
                disk.n += 1;
                t.push_str(&format!("#{}", disk.n));
                if r.bool() {
                    t.push('\n');
                }
                let (b, bom) = bytes_of(&mut r, &t);
                // times of files are coarse
                std::thread::sleep(Duration::from_millis(25));
                let how = r.below(3);
                match how {
                    0 => disk.put(&p, &b),
                    1 => {
                        let q = disk.dir.path("other.swp");
                        std::fs::write(&q, &b).unwrap();
                        std::fs::rename(&q, &p).unwrap();
                        disk.files.insert(p.clone(), b.clone());
                    }
                    _ => {
                        std::fs::remove_file(&p).unwrap();
                        disk.put(&p, &b);
                    }
                }
                what = *["overwritten", "replaced", "removed and written"].get(how).unwrap();
                cx.note(format!("   {} {}", id, what));
                if r.chance(1, 3) {
                    // at once, before anything is noticed
                    let now = s.contents(cx, &id)?;
                    save_fails(cx, &mut s, &docs[i], &p, "changed on disk")?;
                    cx.count("early_saves", 1);
                    ensure!(s.contents(cx, &id)? == now || docs[i].pristine, "outside-change-lost-text", "a change of the file replaced unsaved text");
                }
                if docs[i].pristine {
                    let (id2, t2) = (id.clone(), t.clone());
                    let ok = wait(cx, &mut s, 4_000, |cx, s| Ok(s.contents(cx, &id2)? == t2 && s.views[&id2].pristine))?;
                    ensure!(ok, "outside-change-unseen", "{} was {} with {:?}; the unchanged buffer still holds {:?} (pristine {})", id, what, short(&t), short(&s.contents(cx, &id)?), s.views[&id].pristine);
                    docs[i].saved = t;
                    docs[i].bom = bom;
                    docs[i].conflict = false;
                    cx.count("reloads", 1);
                } else {
                    let now = s.contents(cx, &id)?;
                    wait(cx, &mut s, 160, |_, _| Ok(false))?;
                    ensure!(s.contents(cx, &id)? == now, "outside-change-lost-text", "a change of the file replaced unsaved text");
                    ensure!(!s.views[&id].pristine, "outside-change-pristine", "{} counts as unchanged", id);
                    docs[i].conflict = true;
                    cx.count("conflicts", 1);
                }
            }
        }
        disk.check(cx, what)?;
        for d in &mut docs {
            let t = s.contents(cx, &d.id)?;
            d.pristine = if d.conflict { s.views[&d.id].pristine } else { check_pristine(cx, &mut s, d, &t)? };
        }
    }
    for d in &docs {
        // reloading and undo scroll; the frontend says where it is
        s.do_edit(cx, &d.id, "scroll", json!([0, 10]))?;
        crate::sync::check_view(cx, &mut s, &d.id)?;
    }
    cx.key(cx.trace_hash(), cx.counter("reloads") + cx.counter("conflicts") > 0);
    Ok(())
}

/// A file reached by several paths, through links to it and to its directory, by several views.
fn paths(cx: &mut Cx) -> Result<(), Fail> {
    attempts(cx, 25, paths_once)
}

struct Seer {
    id: String,
    path: PathBuf,
    text: String,
    pristine: bool,
    conflict: bool,
    /// what its text was in the file: a newline may have been added
    saved_as: String,
}

fn paths_once(cx: &mut Cx) -> Result<(), Fail> {
    let mut r = cx.rng.clone();
    let dir = Scratch::new(cx);
    std::fs::create_dir_all(dir.path("real/deep")).unwrap();
    std::os::unix::fs::symlink(dir.path("real"), dir.path("dirlink")).unwrap();
    std::os::unix::fs::symlink("real/deep", dir.path("reldir")).unwrap();
    let real = dir.path("real/deep/f.txt");
    let bom = r.chance(1, 3);
    let bytes = |t: &str| -> Vec<u8> { [if bom { BOM.as_bytes() } else { b"" }, t.as_bytes()].concat() };
    let mut disk = body(&mut r);
    if disk.is_empty() {
        disk.push('x');
    }
    std::fs::write(&real, bytes(&disk)).unwrap();
    let mode = *r.pick(&[0o644, 0o600, 0o755]);
    std::fs::set_permissions(&real, std::fs::Permissions::from_mode(mode)).unwrap();
    std::os::unix::fs::symlink("real/deep/f.txt", dir.path("rellink.txt")).unwrap();
    std::os::unix::fs::symlink(&real, dir.path("real/abslink")).unwrap();
    std::os::unix::fs::symlink(dir.path("rellink.txt"), dir.path("link2")).unwrap();
    let ways = ["real/deep/f.txt", "dirlink/deep/f.txt", "reldir/f.txt", "rellink.txt", "real/abslink", "link2", "real/deep/../deep/f.txt"];
    let links = ["rellink.txt", "real/abslink", "link2"];
    let mut s = Sess::start(cx)?;
    s.hide = dir.0.to_str().unwrap().to_string();
    let mut seers: Vec<Seer> = vec![];
    let n = 4 + r.below(if cx.thorough { 14 } else { 7 });
    for k in 0..n {
        let what = if seers.is_empty() { 0 } else { r.below(10) };
        match what {
            0 if seers.len() < 4 => {
                let path = dir.path(*r.pick(&ways));
                let id = s.new_view(cx, Some(&path))?;
                let got = s.contents(cx, &id)?;
                ensure!(got == disk, "load-contents", "a file of {:?} was opened as {:?}", short(&disk), short(&got));
                seers.push(Seer { id, path, saved_as: got.clone(), text: got, pristine: true, conflict: false });
            }
            1 if seers.len() > 1 || r.chance(1, 4) => {
                let i = r.below(seers.len());
                let v = seers.remove(i);
                s.close(cx, &v.id)?;
                cx.count("closed", 1);
            }
            2 | 3 => {
                let i = r.below(seers.len());
                let v = &mut seers[i];
                s.do_edit(cx, &v.id, "insert", json!({ "chars": format!("<{}>", k) }))?;
                v.text = s.contents(cx, &v.id)?;
                v.pristine = false;
            }
            4 | 5 | 6 => {
                let i = r.below(seers.len());
                let (id, path) = (seers[i].id.clone(), seers[i].path.clone());
                if seers[i].pristine {
                    s.do_edit(cx, &id, "insert", json!({ "chars": format!("[{}]", k) }))?;
                    seers[i].text = s.contents(cx, &id)?;
                    seers[i].pristine = false;
                }
                let alerts = s.alerts.len();
                std::thread::sleep(Duration::from_millis(25));
                let c = s.get_config(cx, &id)?;
                s.notif(cx, "save", json!({"view_id": id, "file_path": path.to_str().unwrap()}))?;
                let refused = s.alerts.len() > alerts;
                ensure!(refused == seers[i].conflict, if refused { "save-refused" } else { "outside-change-overwritten" }, "a save through {} of a buffer whose file {} was {}", path.strip_prefix(&dir.0).unwrap().display(), if seers[i].conflict { "has changed outside" } else { "has not changed" }, if refused { "refused" } else { "done" });
                if !refused {
                    let got = std::fs::read(&path).map_err(|e| Fail::new("save-no-file", format!("after save: {}", e)))?;
                    let t = seers[i].text.clone();
                    let forms = saved_forms(&t, &c);
                    let form = forms.iter().find(|f| bytes(f) == got);
                    ensure!(form.is_some(), "save-contents", "the text {:?} was saved as {:?}", short(&t), short(&String::from_utf8_lossy(&got)));
                    disk = form.unwrap().to_string();
                    seers[i].pristine = true;
                    seers[i].saved_as = disk.clone();
                    cx.count("saves", 1);
                    for (j, v) in seers.iter_mut().enumerate() {
                        v.conflict |= j != i && !v.pristine;
                    }
                }
            }
            _ => {
                let mut t = body(&mut r);
                t.push_str(&format!("#{}", k));
                std::thread::sleep(Duration::from_millis(25));
                match r.below(3) {
                    0 => std::fs::write(dir.path(*r.pick(&ways)), bytes(&t)).unwrap(),
                    1 => {
                        let q = dir.path("real/other.swp");
                        std::fs::write(&q, bytes(&t)).unwrap();
                        std::fs::set_permissions(&q, std::fs::Permissions::from_mode(mode)).unwrap();
                        std::fs::rename(&q, &real).unwrap();
                    }
                    _ => {
                        std::fs::remove_file(&real).unwrap();
                        if r.bool() {
                            let before: Vec<(String, String)> = seers.iter().map(|v| (v.id.clone(), v.text.clone())).collect();
                            wait(cx, &mut s, 250, |cx, s| {
                                for (id, t) in &before {
                                    let c = s.contents(cx, id)?;
                                    ensure!(c == *t, "removed-file-lost-text", "the file of a buffer was removed by others, and {:?} became {:?}", short(t), short(&c));
                                }
                                Ok(false)
                            })?;
                            cx.count("gone_for_long", 1);
                        }
                        let by_name: Vec<usize> = (0..seers.len()).filter(|i| !seers[*i].path.is_symlink()).collect();
                        if r.chance(1, 3) && !by_name.is_empty() {
                            // it is saved from here instead
                            let i = *r.pick(&by_name);
                            let (id, path) = (seers[i].id.clone(), seers[i].path.clone());
                            s.do_edit(cx, &id, "insert", json!({ "chars": format!("{{{}}}", k) }))?;
                            seers[i].text = s.contents(cx, &id)?;
                            let c = s.get_config(cx, &id)?;
                            s.notif(cx, "save", json!({"view_id": id, "file_path": path.to_str().unwrap()}))?;
                            let got = std::fs::read(&path).map_err(|e| Fail::new("save-no-file", format!("after save: {}", e)))?;
                            let forms = saved_forms(&seers[i].text, &c);
                            let form = forms.iter().find(|f| bytes(f) == got);
                            ensure!(form.is_some(), "save-contents", "the text {:?} was saved as {:?}", short(&seers[i].text), short(&String::from_utf8_lossy(&got)));
                            t = form.unwrap().to_string();
                            seers[i].pristine = true;
                            seers[i].conflict = false;
                            seers[i].saved_as = t.clone();
                            cx.count("saved_again", 1);
                        } else {
                            std::fs::write(&real, bytes(&t)).unwrap();
                            std::fs::set_permissions(&real, std::fs::Permissions::from_mode(mode)).unwrap();
                        }
                    }
                }
                disk = t;
                seers.iter_mut().for_each(|v| v.conflict |= !v.pristine);
                cx.count("outside_changes", 1);
            }
        }
        // every view that had no changes of its own shows the file
        let shown: Vec<(String, String)> = seers.iter().filter(|v| v.pristine).map(|v| (v.id.clone(), if v.saved_as == disk { v.text.clone() } else { disk.clone() })).collect();
        let ok = wait(cx, &mut s, 4_000, |cx, s| {
            for (id, t) in &shown {
                let c = s.contents(cx, id)?;
                if !s.views[id].pristine || c != *t {
                    return Ok(false);
                }
            }
            Ok(true)
        })?;
        ensure!(ok, "outside-change-unseen", "after {}: a view without changes shows {:?}, its file holds {:?}", what, seers.iter().filter(|v| v.pristine).map(|v| (v.path.strip_prefix(&dir.0).unwrap().display().to_string(), short(&s.contents(cx, &v.id).unwrap_or_default()))).collect::<Vec<_>>(), short(&disk));
        for v in &mut seers {
            let c = s.contents(cx, &v.id)?;
            if v.pristine {
                cx.count(if c == v.text { "kept" } else { "reloads" }, 1);
                if c != v.text {
                    v.saved_as = c.clone();
                }
                v.text = c;
            } else {
                ensure!(c == v.text, "outside-change-lost-text", "unsaved text {:?} became {:?}", short(&v.text), short(&c));
            }
        }
        for l in &links {
            ensure!(std::fs::symlink_metadata(dir.path(l)).unwrap().file_type().is_symlink(), "link-replaced", "{} is no link any more", l);
        }
        let m = std::fs::metadata(&real).unwrap().permissions().mode() & 0o7777;
        ensure!(m == mode, "file-mode", "the file has mode {:o}, should be {:o}", m, mode);
        let got = std::fs::read(&real).unwrap();
        ensure!(got == bytes(&disk), "file-contents", "the file holds {:?}, should hold {:?}", short(&String::from_utf8_lossy(&got)), short(&disk));
    }
    cx.key(cx.trace_hash(), cx.counter("reloads") > 0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C25",
        "a session with a successful save, or an outside change that was taken in or kept out",
        vec![
            Suite { name: "save", f: save, quick: 4000, thorough: 80000 },
            Suite { name: "whole", f: whole, quick: 60, thorough: 1500 },
            Suite { name: "outside", f: outside, quick: 400, thorough: 6000 },
            Suite { name: "paths", f: paths, quick: 250, thorough: 4000 },
        ],
    )]
}
