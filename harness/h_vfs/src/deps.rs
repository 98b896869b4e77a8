//! C12: histories of loading, registering dependencies, file system events and in-memory edits on
//! the real Vfs over a scratch directory, against a model of who depends on what.
use common::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::{Arc, Mutex, MutexGuard};
use vfs::*;

#[allow(unused)]
mod inv {
    include!(concat!(env!("OUT_DIR"), "/inv.rs"));
    pub use FileIndex as Ix;
}

#[derive(Default)]
struct Log {
    called: Vec<u32>,
    dropped: Vec<u32>,
    notified: Vec<String>,
    next_uid: u32,
}
static LOG: Mutex<Log> = Mutex::new(Log { called: vec![], dropped: vec![], notified: vec![], next_uid: 0 });
fn log() -> MutexGuard<'static, Log> {
    LOG.lock().unwrap_or_else(|e| e.into_inner())
}

struct F {
    uid: u32,
    code: Box<str>,
}
impl F {
    fn new(code: Box<str>) -> F {
        let mut l = log();
        l.next_uid += 1;
        F { uid: l.next_uid, code }
    }
}
impl Drop for F {
    fn drop(&mut self) {
        log().dropped.push(self.uid)
    }
}
impl VfsFile for F {
    type Artifacts = Box<str>;
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) -> Box<str> {
        self.code.clone()
    }
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {
        log().called.push(self.uid)
    }
}

struct H(SimpleLocalFS);
impl VfsHandler for H {
    fn read_and_watch_file(&self, path: &PathWithScheme) -> Option<String> {
        self.0.read_and_watch_file(path)
    }
    fn notify_receiver(&self) -> Option<&crossbeam_channel::Receiver<NotifyEvent>> {
        None
    }
    fn on_invalidated_in_memory_file(&self, path: PathWithScheme) {
        log().notified.push(path.path().to_string())
    }
    fn read_and_watch_dir(&self, w: &[Arc<Workspace>], path: &str, parent: Parent) -> Entries {
        self.0.read_and_watch_dir(w, path, parent)
    }
    fn read_and_watch_entry(&self, w: &[Arc<Workspace>], path: &str, parent: Parent, name: &str) -> Option<DirectoryEntry> {
        self.0.read_and_watch_entry(w, path, parent, name)
    }
    fn is_unnecessary_invalidation(&self, path: &AbsPath, e: Option<&DirectoryEntry>) -> bool {
        self.0.is_unnecessary_invalidation(path, e)
    }
}

const PATHS: [&str; 9] = ["a.py", "b.py", "c.py", "d/x.py", "d/y.py", "d/e/z.py", "m", "m/k.py", "n/q.py"];
const DIRS: [&str; 4] = ["d", "d/e", "m", "n"];

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Load(usize, bool),
    Index(usize),
    /// (target, by, through the missing-entry callback)
    Dep(usize, usize, bool),
    Write(usize, u8),
    Delete(usize),
    DeleteDir(usize, bool),
    Touch(usize),
    Store(usize, u8),
    Close(usize),
    /// A directory with files in it is moved here: one event
    MoveIn(usize, u8),
    /// The database is built anew after a panic; (a workspace inside the other)
    Recover,
    /// Only first: on disk before anything looks
    Pre(usize, u8),
    /// Only first: a nested workspace
    Nested(usize),
}
use Op::*;

/// Contents that differ in one character, in blanks, line ends, case or length only
const TEXTS: [&str; 12] = ["# 0", "# 1", "# 2", "# 0\n", "# 0 ", "# 0\r\n", "# 0\n\n", " # 0", "", "\n", "# O", "# 0\u{feff}"];
fn text(c: u8) -> &'static str {
    TEXTS[c as usize % TEXTS.len()]
}
fn some_text(g: &mut Rng) -> u8 {
    if g.chance(1, 2) { g.below(3) as u8 } else { g.below(TEXTS.len()) as u8 }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Bound {
    Yes,
    Maybe,
    No,
}
struct MFile {
    path: String,
    uid: Option<u32>,
    code: String,
    bound: Bound,
}
#[derive(Default)]
struct Model {
    files: BTreeMap<u32, MFile>,
    /// path -> index that registered there -> certainly still registered
    regs: BTreeMap<String, BTreeMap<u32, bool>>,
    db: BTreeSet<String>,
    mem: BTreeMap<String, u32>,
}
struct Sys {
    vfs: Vfs<F>,
    root: String,
    nested: Vec<&'static str>,
    leftover: bool,
    m: Model,
}
fn under(p: &str, dir: &str) -> bool {
    p == dir || p.strip_prefix(dir).is_some_and(|r| r.starts_with('/'))
}

struct Expect {
    must: BTreeSet<u32>,
    may: BTreeSet<u32>,
    must_db: bool,
    may_db: bool,
}
impl Model {
    /// Everything that depends on the roots; (path, certainly changed).
    fn closure(&mut self, roots: &[(String, bool)]) -> Expect {
        let mut e = Expect { must: BTreeSet::new(), may: BTreeSet::new(), must_db: false, may_db: false };
        let mut drained = vec![];
        for certain in [true, false] {
            let mut todo: Vec<String> = roots.iter().filter(|r| r.1 || !certain).map(|r| r.0.clone()).collect();
            let mut seen: BTreeSet<String> = BTreeSet::new();
            while let Some(p) = todo.pop() {
                if !seen.insert(p.clone()) {
                    continue;
                }
                if self.db.contains(&p) {
                    if certain {
                        e.must_db = true
                    }
                    e.may_db = true;
                }
                for (&d, &sure) in self.regs.get(&p).into_iter().flatten() {
                    if certain && !sure {
                        continue;
                    }
                    if certain { e.must.insert(d) } else { e.may.insert(d) };
                    let f = &self.files[&d];
                    if f.bound == Bound::Yes || (f.bound == Bound::Maybe && !certain) {
                        todo.push(f.path.clone());
                    }
                }
            }
            drained.push(seen);
        }
        // what was reached is drained: for sure on the certain pass, perhaps on the other
        for p in &drained[1] {
            if let Some(r) = self.regs.get_mut(p) {
                if drained[0].contains(p) {
                    r.retain(|_, sure| !*sure);
                }
                r.values_mut().for_each(|s| *s = false);
            }
        }
        e
    }
    fn index_at(&self, p: &str) -> Option<u32> {
        self.files.iter().find(|(_, f)| f.path == p && f.bound == Bound::Yes).map(|(i, _)| *i)
    }
}

impl Sys {
    fn new(root: &str, nested: Vec<&'static str>) -> Sys {
        Sys { vfs: Self::fresh(root, &nested), root: root.to_string(), nested, leftover: false, m: Model::default() }
    }
    fn fresh(root: &str, nested: &[&'static str]) -> Vfs<F> {
        let h = H(SimpleLocalFS::without_watcher());
        let mut w = WorkspacesBuilder::new(&h);
        for d in nested {
            w.add(h.normalize_unchecked_abs_path(&format!("{root}/{d}")), WorkspaceKind::TypeChecking);
        }
        w.add(h.normalize_unchecked_abs_path(root), WorkspaceKind::TypeChecking);
        let ws: Workspaces = w.into();
        Vfs::new(Box::new(h), ws)
    }
    /// What is found in the tree is what is on disk or open.
    fn listing(&self) -> Result<(), String> {
        for p in PATHS {
            let file = matches!(self.entry(p), Some(DirOrFile::File(_)));
            let want = self.m.mem.contains_key(p) || self.disk(p).is_some();
            if file != want {
                return Err(format!("{p} is {}found in the tree although it is {}on disk or open", if file { "" } else { "not " }, if want { "" } else { "not " }));
            }
        }
        Ok(())
    }
    fn abs(&self, p: &str) -> String {
        format!("{}/{p}", self.root)
    }
    fn pws(&self, p: &str) -> PathWithScheme {
        PathWithScheme::with_file_scheme(self.vfs.handler.normalize_unchecked_abs_path(&self.abs(p)))
    }
    fn disk(&self, p: &str) -> Option<String> {
        std::fs::read_to_string(self.abs(p)).ok()
    }
    fn is_dir(&self, p: &str) -> bool {
        Path::new(&self.abs(p)).is_dir()
    }
    fn entry(&self, p: &str) -> Option<DirOrFile> {
        self.vfs.search_path(true, &self.pws(p))
    }
    fn in_mem_below(&self, p: &str) -> bool {
        self.m.mem.keys().any(|k| under(k, p) && k != p)
    }
    /// runs events on the real thing, and compares what was called with what had to be
    fn settle(&mut self, result: InvalidationResult, e: Expect, changed: &[(String, bool)]) -> Result<bool, String> {
        let (called, dropped, notified) = {
            let mut l = log();
            (std::mem::take(&mut l.called), std::mem::take(&mut l.dropped), std::mem::take(&mut l.notified))
        };
        let db = result == InvalidationResult::InvalidatedDb;
        if e.must_db && !db {
            return Err("a file that invalidates everything changed, but not everything was invalidated".into());
        }
        if db && !e.may_db {
            return Err("everything was invalidated although nothing reached requires that".into());
        }
        let uid_idx: BTreeMap<u32, u32> = self.m.files.iter().filter_map(|(i, f)| Some((f.uid?, *i))).collect();
        for u in &called {
            if let Some(i) = uid_idx.get(u) {
                let own = changed.iter().any(|(p, _)| under(&self.m.files[i].path, p));
                if !e.may.contains(i) && !own {
                    return Err(format!("{} was invalidated although it does not depend on the change", self.m.files[i].path));
                }
            }
        }
        if db {
            for p in self.m.mem.keys() {
                if !notified.contains(&self.abs(p)) {
                    return Err(format!("everything was invalidated, but not reported for the open file {p}"));
                }
            }
            return Ok(false);
        }
        for i in &e.must {
            let f = &self.m.files[i];
            if let Some(u) = f.uid {
                if !called.contains(&u) && !dropped.contains(&u) {
                    return Err(format!("{} depends on the change, but was not invalidated", f.path));
                }
                if self.m.mem.get(&f.path) == Some(i) && !notified.contains(&self.abs(&f.path)) {
                    return Err(format!("{} depends on the change and is open, but was not reported", f.path));
                }
            }
        }
        for u in &dropped {
            if let Some(i) = uid_idx.get(u) {
                let f = self.m.files.get_mut(i).unwrap();
                if !changed.iter().any(|(p, _)| under(&f.path, p)) {
                    return Err(format!("{} was unloaded although it did not change", f.path));
                }
                f.uid = None;
            }
        }
        // nothing stale is served
        let idx: Vec<u32> = self.m.files.keys().copied().collect();
        for i in idx {
            let now = self.vfs.file(FileIndex(i)).map(|f| (f.uid, f.code.to_string()));
            let path = self.m.files[&i].path.clone();
            if let Some((u, c)) = &now {
                if !self.m.mem.contains_key(&path) && changed.iter().any(|(p, _)| under(&path, p)) && self.disk(&path).as_deref() != Some(c) {
                    return Err(format!("{path} still has its old contents after the change was reported"));
                }
                let _ = u;
            }
            let f = self.m.files.get_mut(&i).unwrap();
            match now {
                Some((u, c)) => {
                    f.uid = Some(u);
                    f.code = c;
                }
                None => f.uid = None,
            }
        }
        Ok(true)
    }
    /// A change on disk below `p` was made by `act`; tells the Vfs.
    fn event(&mut self, events: &[String], act: impl FnOnce(&Sys)) -> Result<bool, String> {
        // what exists now, and after
        let mut all: BTreeSet<String> = self.m.regs.keys().cloned().collect();
        all.extend(self.m.files.values().map(|f| f.path.clone()));
        all.extend(self.m.db.iter().cloned());
        let state = |s: &Sys| -> BTreeMap<String, (bool, Option<String>)> { all.iter().map(|p| (p.clone(), (s.is_dir(p), s.disk(p)))).collect() };
        let before = state(self);
        act(self);
        let after = state(self);
        let mut roots: Vec<(String, bool)> = vec![];
        for p in &all {
            if !events.iter().any(|e| under(p, e)) {
                continue;
            }
            let whole = events.iter().any(|e| p != e && under(p, e) && !self.is_dir(e));
            if self.m.mem.contains_key(p) && !whole {
                continue;
            }
            let (b, a) = (&before[p], &after[p]);
            let idx = self.m.index_at(p);
            let loaded = idx.and_then(|i| self.m.files[&i].uid).is_some();
            let existence = (b.0, b.1.is_some()) != (a.0, a.1.is_some());
            let certain = existence && !self.m.mem.contains_key(p) || loaded && !self.m.mem.contains_key(p) && a.1.as_deref() != Some(self.m.files[&idx.unwrap()].code.as_str());
            let unchanged_loaded = !existence && loaded && !certain && !self.m.mem.contains_key(p) && !whole;
            if !unchanged_loaded {
                roots.push((p.clone(), certain));
            }
        }
        let e = self.m.closure(&roots);
        let mut res = InvalidationResult::InvalidatedFiles;
        for ev in events {
            let a = self.vfs.handler.unchecked_abs_path(&self.abs(ev));
            res |= self.vfs.invalidate_path(true, &a);
            if res == InvalidationResult::InvalidatedDb {
                break;
            }
        }
        if !self.settle(res, e, &roots)? {
            return Ok(false);
        }
        for (p, certain) in &roots {
            for f in self.m.files.values_mut().filter(|f| f.path == *p) {
                if !self.m.mem.contains_key(p) && f.bound != Bound::No {
                    f.bound = if *certain || f.uid.is_none() && f.bound == Bound::Yes && !certain && false { Bound::No } else { Bound::Maybe };
                }
            }
            if *certain {
                self.m.db.remove(p);
            }
        }
        Ok(true)
    }
    fn step(&mut self, op: &Op) -> Result<bool, String> {
        match *op {
            Load(p, db) => {
                let p = PATHS[p];
                let Some(DirOrFile::File(entry)) = self.entry(p) else { return Ok(true) };
                let had = entry.get_file_index();
                let db = db && had.is_none();
                let Some(i) = self.vfs.ensure_file_for_file_entry(entry, db, |_, c| F::new(c)) else {
                    return Ok(true);
                };
                let f = self.vfs.file(i).unwrap();
                let (uid, code) = (f.uid, f.code.to_string());
                if !self.m.mem.contains_key(p) && self.disk(p).as_deref() != Some(&code) {
                    return Err(format!("{p} loaded with contents that are not on disk"));
                }
                if let Some(old) = self.m.files.get(&i.0) {
                    if old.path != p {
                        return Err(format!("{p} and {} share a file index", old.path));
                    }
                } else {
                    // a new index: whatever had one before lost it
                    for f in self.m.files.values_mut().filter(|f| f.path == p) {
                        f.bound = Bound::No;
                    }
                }
                self.m.files.insert(i.0, MFile { path: p.into(), uid: Some(uid), code, bound: Bound::Yes });
                if db {
                    self.m.db.insert(p.into());
                }
                Ok(true)
            }
            Index(p) => {
                let p = PATHS[p];
                let Some(DirOrFile::File(entry)) = self.entry(p) else { return Ok(true) };
                let i = self.vfs.ensure_file_index(&entry);
                if !self.m.files.contains_key(&i.0) {
                    for f in self.m.files.values_mut().filter(|f| f.path == p) {
                        f.bound = Bound::No;
                    }
                    self.m.files.insert(i.0, MFile { path: p.into(), uid: None, code: String::new(), bound: Bound::Yes });
                } else if self.m.files[&i.0].path != p {
                    return Err(format!("{p} has the file index of {}", self.m.files[&i.0].path));
                } else {
                    self.m.files.get_mut(&i.0).unwrap().bound = Bound::Yes;
                }
                Ok(true)
            }
            Dep(t, by, cb) => {
                let Some(by) = self.m.index_at(PATHS[by]) else { return Ok(true) };
                if self.m.files[&by].uid.is_none() {
                    return Ok(true);
                }
                let i = FileIndex(by);
                // component by component, as import resolution does
                let parts: Vec<&str> = PATHS[t].split('/').collect();
                let mut cur = String::new();
                for (k, name) in parts.iter().enumerate() {
                    let path = if k == 0 { name.to_string() } else { format!("{cur}/{name}") };
                    match self.entry(&path) {
                        Some(DirOrFile::Dir(_)) => {
                            cur = path;
                            continue;
                        }
                        Some(DirOrFile::File(f)) if k + 1 == parts.len() && !cb => f.add_invalidation(i),
                        Some(DirOrFile::File(_)) if k + 1 != parts.len() => return Ok(true),
                        _ => {
                            if k == 0 {
                                let ws = self.vfs.workspaces.expect_last();
                                ws.entries.add_missing_entry_callback(i)(name);
                            } else {
                                let Some(DirOrFile::Dir(d)) = self.entry(&cur) else { unreachable!() };
                                Directory::entries(&self.vfs, &d).add_missing_entry_callback(i)(name);
                            }
                        }
                    }
                    self.m.regs.entry(path).or_default().insert(by, true);
                    return Ok(true);
                }
                Ok(true)
            }
            Write(p, c) => {
                let p = PATHS[p];
                let parts: Vec<&str> = p.split('/').collect();
                let mut events = vec![];
                for k in 1..parts.len() {
                    let d = parts[..k].join("/");
                    if self.disk(&d).is_some() || (!self.is_dir(&d) && self.m.mem.contains_key(&d)) {
                        return Ok(true); // a file where a directory is needed
                    }
                    if !self.is_dir(&d) {
                        events.push(d);
                    }
                }
                if self.is_dir(p) || self.in_mem_below(p) {
                    return Ok(true);
                }
                events.push(p.into());
                let a = self.abs(p);
                self.event(&events, move |_| {
                    std::fs::create_dir_all(Path::new(&a).parent().unwrap()).unwrap();
                    std::fs::write(&a, text(c)).unwrap();
                })
            }
            Delete(p) => {
                let p = PATHS[p];
                if self.disk(p).is_none() {
                    return Ok(true);
                }
                let a = self.abs(p);
                self.event(&[p.into()], move |_| std::fs::remove_file(a).unwrap())
            }
            DeleteDir(d, files_first) => {
                let d = DIRS[d];
                if !self.is_dir(d) || (!self.leftover && self.nested.iter().any(|n| under(n, d))) {
                    return Ok(true); // a workspace that disappears: known finding
                }
                let mut ev: Vec<String> = vec![];
                if files_first {
                    ev.extend(PATHS.iter().filter(|p| under(p, d) && self.disk(p).is_some()).map(|p| p.to_string()));
                }
                ev.push(d.into());
                let a = self.abs(d);
                self.event(&ev, move |_| std::fs::remove_dir_all(a).unwrap())
            }
            MoveIn(d, c) => {
                let d = DIRS[d];
                if Path::new(&self.abs(d)).exists() || self.m.mem.contains_key(d) || self.in_mem_below(d) {
                    return Ok(true);
                }
                // a directory left over from a file that was open in it: known finding
                if !self.leftover && matches!(self.entry(d), Some(DirOrFile::Dir(_))) {
                    return Ok(true);
                }
                if let Some((up, _)) = d.rsplit_once('/') {
                    if !self.is_dir(up) {
                        return Ok(true);
                    }
                }
                let (tmp, a) = (format!("{}.new", self.root), self.abs(d));
                let _ = std::fs::remove_dir_all(&tmp);
                for (k, p) in PATHS.iter().filter(|p| under(p, d) && **p != d).enumerate() {
                    if k < 1 || c % 2 == 0 {
                        let f = format!("{tmp}/{}", &p[d.len() + 1..]);
                        std::fs::create_dir_all(Path::new(&f).parent().unwrap()).unwrap();
                        std::fs::write(f, text(c)).unwrap();
                    }
                }
                self.event(&[d.to_string()], move |_| std::fs::rename(tmp, a).unwrap())
            }
            Recover => {
                let old = std::mem::replace(&mut self.vfs, Self::fresh(&self.root, &self.nested));
                let was: BTreeMap<String, String> = self.m.files.iter().filter(|(_, f)| f.uid.is_some() && f.bound == Bound::Yes).map(|(_, f)| (f.path.clone(), f.code.clone())).collect();
                log().notified.clear();
                let rec = old.into_panic_recovery();
                let reported = std::mem::take(&mut log().notified);
                self.vfs.load_panic_recovery(true, rec, |_, _, c| F::new(c));
                for p in self.m.mem.keys() {
                    if !reported.contains(&self.abs(p)) {
                        return Err(format!("everything is built anew, but that was not reported for the open file {p}"));
                    }
                }
                let mem: Vec<String> = self.m.mem.keys().cloned().collect();
                let marked: Vec<String> = self.m.db.iter().cloned().collect();
                self.m = Model::default();
                for (p, code) in was {
                    let Some(DirOrFile::File(e)) = self.entry(&p) else { return Err(format!("{p} is lost")) };
                    let Some(i) = e.get_file_index() else { return Err(format!("{p} is no longer loaded")) };
                    let Some(f) = self.vfs.file(i) else { return Err(format!("{p} is no longer loaded")) };
                    if *f.code != *code {
                        return Err(format!("{p} has other contents"));
                    }
                    self.m.files.insert(i.0, MFile { path: p.clone(), uid: Some(f.uid), code, bound: Bound::Yes });
                    if marked.contains(&p) {
                        self.m.db.insert(p.clone());
                    }
                    let path = self.pws(&p);
                    let open = self.vfs.in_memory_file(&path);
                    if open.is_some() != mem.contains(&p) || open.is_some_and(|x| x.0 != i.0) {
                        return Err(format!("{p} {} open", if open.is_some() { "became" } else { "is no longer" }));
                    }
                    if open.is_some() {
                        self.m.mem.insert(p, i.0);
                    }
                }
                {
                    let mut l = log();
                    l.called.clear();
                    l.dropped.clear();
                    l.notified.clear();
                }
                // an open file that cannot be recovered ends it
                Ok(self.m.mem.len() == mem.len())
            }
            Pre(..) | Nested(_) => Ok(true),
            Touch(p) => self.event(&[PATHS[p].to_string()], |_| ()),
            Store(p, c) => {
                let p = PATHS[p];
                let code = text(c).to_string();
                // neither a directory nor something below a file
                if self.is_dir(p) || matches!(self.entry(p), Some(DirOrFile::Dir(_))) || self.in_mem_below(p) {
                    return Ok(true);
                }
                let parts: Vec<&str> = p.split('/').collect();
                for k in 1..parts.len() {
                    let d = parts[..k].join("/");
                    if self.disk(&d).is_some() || matches!(self.entry(&d), Some(DirOrFile::File(_))) {
                        return Ok(true);
                    }
                }
                let idx = self.m.index_at(p);
                let mut roots = vec![];
                match idx {
                    Some(i) => {
                        let f = &self.m.files[&i];
                        if f.uid.is_none() {
                            roots.push((p.to_string(), false));
                        } else if f.code != code {
                            roots.push((p.to_string(), true));
                        }
                    }
                    None => {
                        // it appears, with its directories
                        for k in 1..=parts.len() {
                            let d = parts[..k].join("/");
                            if self.entry(&d).is_none() {
                                roots.push((d, true));
                            } else if k == parts.len() {
                                roots.push((d, false));
                            }
                        }
                    }
                }
                let e = self.m.closure(&roots);
                let path = self.pws(p);
                self.m.mem.insert(p.into(), idx.unwrap_or(u32::MAX));
                let (i, res) = self.vfs.store_in_memory_file(true, path, code.clone().into(), |_, _, c| F::new(c));
                let Some(i) = i else { return Err("no file index for an in-memory file".into()) };
                if !log().notified.contains(&self.abs(p)) {
                    return Err(format!("{p} was stored, but not reported"));
                }
                if idx.is_some_and(|x| x != i.0) {
                    return Err(format!("{p} got another file index when it was stored"));
                }
                self.m.mem.insert(p.into(), i.0);
                if !self.m.files.contains_key(&i.0) {
                    for f in self.m.files.values_mut().filter(|f| f.path == p) {
                        f.bound = Bound::No;
                    }
                }
                if !self.m.files.contains_key(&i.0) {
                    self.m.files.insert(i.0, MFile { path: p.into(), uid: None, code: String::new(), bound: Bound::Yes });
                }
                self.m.files.get_mut(&i.0).unwrap().bound = Bound::Yes;
                let mut ch = roots;
                ch.push((p.to_string(), true));
                let go = self.settle(res, e, &ch)?;
                if self.vfs.file(i).map(|f| &*f.code) != Some(&code) {
                    return Err(format!("{p} was stored, but has other contents"));
                }
                Ok(go)
            }
            Close(p) => {
                let p = PATHS[p];
                let Some(i) = self.m.mem.remove(p) else {
                    let path = self.pws(p);
                    if self.vfs.close_in_memory_file(true, &path, |_, _, c| F::new(c)).is_ok() {
                        return Err(format!("closing {p} succeeded although it is not open"));
                    }
                    return Ok(true);
                };
                let disk = self.disk(p);
                let same = disk.as_deref() == Some(self.m.files[&i].code.as_str());
                let roots = if same { vec![] } else { vec![(p.to_string(), true)] };
                let e = self.m.closure(&roots);
                let path = self.pws(p);
                let res = match self.vfs.close_in_memory_file(true, &path, |_, _, c| F::new(c)) {
                    Ok(r) => r,
                    Err(x) => return Err(format!("closing {p}: {x}")),
                };
                let go = self.settle(res, e, &roots)?;
                if disk.is_none() {
                    let f = self.m.files.get_mut(&i).unwrap();
                    f.bound = Bound::No;
                    if self.vfs.file(FileIndex(i)).is_some() {
                        return Err(format!("{p} was closed and is not on disk, but is still loaded"));
                    }
                }
                Ok(go)
            }
        }
    }
}

fn history(root: &str, ops: &[Op]) -> Result<(), String> {
    history_with(root, ops, false)
}
fn history_with(root: &str, ops: &[Op], leftover: bool) -> Result<(), String> {
    *log() = Log::default();
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(root).unwrap();
    let mut nested = vec![];
    for op in ops {
        match *op {
            Pre(p, c) => {
                let f = format!("{root}/{}", PATHS[p]);
                if std::fs::create_dir_all(Path::new(&f).parent().unwrap()).is_ok() {
                    let _ = std::fs::write(&f, text(c));
                }
            }
            Nested(d) if !nested.contains(&DIRS[d]) => nested.push(DIRS[d]),
            _ => (),
        }
    }
    nested.retain(|d| Path::new(&format!("{root}/{d}")).is_dir());
    let mut s = Sys::new(root, nested);
    s.leftover = leftover;
    for (k, op) in ops.iter().enumerate() {
        match s.step(op).and_then(|go| if go { s.listing().map(|_| true) } else { Ok(false) }) {
            Ok(true) => (),
            Ok(false) => break,
            Err(e) => return Err(format!("step {k} ({}): {e}", show(op))),
        }
    }
    Ok(())
}

fn show(o: &Op) -> String {
    match *o {
        Load(p, d) => format!("load {}{}", PATHS[p], if d { " (invalidates all)" } else { "" }),
        Index(p) => format!("index {}", PATHS[p]),
        Dep(t, b, c) => format!("{} depends on {}{}", PATHS[b], PATHS[t], if c { " (callback)" } else { "" }),
        Write(p, c) => format!("write {} {:?}", PATHS[p], text(c)),
        Delete(p) => format!("delete {}", PATHS[p]),
        DeleteDir(d, f) => format!("delete directory {}{}", DIRS[d], if f { " (files reported too)" } else { "" }),
        Touch(p) => format!("touch {}", PATHS[p]),
        Store(p, c) => format!("open {} {:?}", PATHS[p], text(c)),
        Close(p) => format!("close {}", PATHS[p]),
        MoveIn(d, c) => format!("move directory {} here {:?}", DIRS[d], text(c)),
        Recover => "recover from a panic".into(),
        Pre(p, c) => format!("(at first {} {:?})", PATHS[p], text(c)),
        Nested(d) => format!("(workspace {})", DIRS[d]),
    }
}
fn random_op(g: &mut Rng) -> Op {
    let n = PATHS.len();
    if g.chance(1, 16) {
        return if g.chance(1, 4) { Recover } else { MoveIn(g.below(DIRS.len()), g.below(8) as u8) };
    }
    match g.below(20) {
        0..3 => Load(g.below(n), g.chance(1, 25)),
        3 => Index(g.below(n)),
        4..10 => Dep(g.below(n), g.below(n), g.chance(1, 4)),
        10..13 => Write(g.below(n), some_text(g)),
        13 => Delete(g.below(n)),
        14 => DeleteDir(g.below(DIRS.len()), g.chance(1, 2)),
        15 => Touch(g.below(n)),
        16..19 => Store(g.below(n), some_text(g)),
        _ => Close(g.below(n)),
    }
}

// ------------------------------------------------- the sets themselves
fn sets(ops: &[(u8, u32)]) -> Result<(), String> {
    use inv::{InvalidationDetail, Invalidations};
    // two sets; None = everything
    let mut real = [Invalidations::default(), Invalidations::default()];
    let mut model: [Option<BTreeSet<u32>>; 2] = [Some(BTreeSet::new()), Some(BTreeSet::new())];
    let view = |i: &Invalidations| match &*i.borrow() {
        InvalidationDetail::InvalidatesDb => None,
        InvalidationDetail::Some(s) => Some(s.iter().map(|x| x.0).collect::<BTreeSet<u32>>()),
    };
    for &(o, x) in ops {
        let (k, x) = ((x % 2) as usize, x / 2);
        match o {
            0..=2 => {
                real[k].add(inv::Ix(x));
                if let Some(s) = &mut model[k] {
                    s.insert(x);
                }
            }
            3 => {
                let t = real[k].take();
                let want = model[k].clone();
                if view(&t) != want {
                    return Err(format!("took {:?}, expected {want:?}", view(&t)));
                }
                if model[k].is_some() {
                    model[k] = Some(BTreeSet::new());
                }
                // and what was taken, enumerated
                let got = match t.into_iter() {
                    InvalidationDetail::InvalidatesDb => None,
                    InvalidationDetail::Some(it) => {
                        let v: Vec<u32> = it.map(|f| f.0).collect();
                        let s: BTreeSet<u32> = v.iter().copied().collect();
                        if s.len() != v.len() {
                            return Err("an index was reported twice".into());
                        }
                        Some(s)
                    }
                };
                if got != want {
                    return Err(format!("enumerated {got:?}, expected {want:?}"));
                }
            }
            4 => {
                let other = real[1 - k].clone();
                if view(&other) != model[1 - k] {
                    return Err("a copy differs".into());
                }
                real[k].extend(other);
                let m2 = model[1 - k].clone();
                match (&mut model[k], m2) {
                    (Some(a), Some(b)) => a.extend(b),
                    (m, _) => *m = None,
                }
            }
            _ => {
                if x % 4 == 0 {
                    real[k].set_invalidates_db();
                    model[k] = None;
                }
            }
        }
        for k in 0..2 {
            if view(&real[k]) != model[k] {
                return Err(format!("set {k} is {:?}, expected {:?}", view(&real[k]), model[k]));
            }
            if real[k].invalidates_db() != model[k].is_none() || real[k].is_empty() != model[k].as_ref().is_some_and(|s| s.is_empty()) {
                return Err(format!("set {k}: wrong answer to 'everything' or 'empty'"));
            }
        }
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "histories of loads, registrations, file changes and in-memory edits; non-trivial: at least two registrations and two changes".into();
    let scratch = std::env::var("VERIF_SCRATCH").unwrap_or("/tmp/h_vfs".into());
    let root = format!("{scratch}/w{}", std::process::id());
    for (a, b) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
        r.case(&format!("merge of results {a} {b}"), true, || {
            let mk = |x| if x == 1 { InvalidationResult::InvalidatedDb } else { InvalidationResult::InvalidatedFiles };
            let mut x = mk(a);
            x |= mk(b);
            if (x == InvalidationResult::InvalidatedDb) == (a == 1 || b == 1) { Ok(()) } else { Err("wrong".into()) }
        });
    }
    r.case("a directory is moved to where a file was open before", true, || history_with(&root, &[Pre(0, 0), Load(0, false), Store(3, 0), Close(3), Dep(3, 0, false), MoveIn(0, 2)], true));
    r.case("the directory of a nested workspace is deleted", true, || history_with(&root, &[Pre(0, 0), Pre(3, 0), Nested(0), Load(0, false), Load(3, false), Dep(3, 0, false), DeleteDir(0, false)], true));
    let setup: Vec<Op> = (0..6).map(|p| Write(p, 0)).chain((0..6).map(|p| Load(p, false))).collect();
    while r.time_left() {
        let mut g = r.rng.clone();
        if g.chance(1, 20) {
            let ops: Vec<(u8, u32)> = (0..g.range(1, 24)).map(|_| (g.below(6) as u8, g.below(12) as u32)).collect();
            r.case(&format!("sets {ops:?}"), ops.len() > 3, || sets(&ops));
            r.rng = g;
            continue;
        }
        let mut ops: Vec<Op> = vec![];
        if g.chance(1, 3) {
            for _ in 0..g.range(1, 5) {
                ops.push(Pre(g.below(PATHS.len()), some_text(&mut g)));
            }
            if g.chance(1, 3) {
                ops.push(Nested(g.below(DIRS.len())));
            }
        }
        if g.chance(2, 3) {
            ops.extend(setup.clone());
        }
        let fixed = ops.len();
        let max = if g.chance(1, 2) { 12 } else { 40 };
        let n = g.range(3, max);
        ops.extend((0..n).map(|_| random_op(&mut g)));
        let nontrivial = ops.iter().filter(|o| matches!(o, Dep(..))).count() > 1 && ops[fixed..].iter().filter(|o| !matches!(o, Dep(..) | Load(..) | Index(..))).count() > 1;
        let desc = |o: &[Op]| o.iter().map(show).collect::<Vec<_>>().join("; ");
        r.rng = g;
        let ok = {
            let o = ops.clone();
            let rt = root.clone();
            // shrink before reporting
            let mut small = o.clone();
            let fails = |o: &[Op]| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history(&rt, o))).map_or(true, |x| x.is_err());
            if fails(&small) {
                let mut k = 0;
                while k < small.len() {
                    let mut t = small.clone();
                    t.remove(k);
                    if fails(&t) { small = t } else { k += 1 }
                }
                r.case(&desc(&small), nontrivial, || history(&rt, &small))
            } else {
                r.case(&desc(&ops), nontrivial, || Ok(()))
            }
        };
        let _ = ok;
    }
    let _ = std::fs::remove_dir_all(&root);
}
