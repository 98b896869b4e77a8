//! C26: per-module overrides. The code is taken out of /repo's sources by the build script;
//! directories are a shim with the names and parents that the code asks for.
use common::*;
use std::sync::Arc;

pub mod shim {
    use std::sync::Arc;
    /// toml_edit's Value: not read by the code under test
    #[derive(Clone, Debug)]
    pub struct Value;
    #[derive(Clone, Debug)]
    pub struct Parent(pub Option<Arc<Directory>>);
    impl Parent {
        pub fn maybe_dir(&self) -> Result<Arc<Directory>, ()> {
            self.0.clone().ok_or(())
        }
    }
    #[derive(Clone, Debug)]
    pub struct Directory {
        pub name: Arc<str>,
        pub parent: Parent,
    }
    pub struct FileEntry {
        pub name: Arc<str>,
        pub parent: Parent,
    }
}
#[allow(dead_code, unused)]
mod config {
    include!(concat!(env!("OUT_DIR"), "/config.rs"));
    pub fn one(pattern: &str, tag: usize) -> OverrideConfig {
        OverrideConfig { module: pattern.into(), config: vec![(tag.to_string().into(), OverrideIniOrTomlValue::Ini("".into()))] }
    }
    /// The overrides that apply, in order
    pub fn applied(patterns: &[String], name: &str, dir: Option<&Directory>) -> Vec<usize> {
        let mut v: Vec<OverrideConfig> = patterns.iter().enumerate().map(|(i, p)| one(p, i)).collect();
        order_overrides_for_priority(&mut v);
        assert_eq!(v.len(), patterns.len(), "overrides got lost");
        v.iter().filter(|o| o.module.matches_file_path(name, dir)).map(|o| o.config[0].0.parse().unwrap()).collect()
    }
}
#[allow(dead_code, unused)]
mod module {
    include!(concat!(env!("OUT_DIR"), "/module.rs"));
    pub fn name_and_parent(e: &FileEntry, skip: bool) -> (String, Option<Arc<Directory>>) {
        let (n, d) = name_and_parent_dir(e, skip);
        (n.to_string(), d)
    }
}
use shim::*;

fn dirs(names: &[&str]) -> Option<Arc<Directory>> {
    let (last, before) = names.split_last()?;
    Some(Arc::new(Directory { name: (*last).into(), parent: Parent(dirs(before)) }))
}

/// names stand for themselves, a star for any number of names, one at the beginning for at least one
fn globs(p: &[&str], m: &[&str], first: bool) -> bool {
    match p {
        [] => m.is_empty(),
        ["*", rest @ ..] => (first as usize..=m.len()).any(|k| globs(rest, &m[k..], false)),
        [n, rest @ ..] => !m.is_empty() && m[0] == *n && globs(rest, &m[1..], false),
    }
}

/// Settings that apply to the module, weakest first
fn expected(patterns: &[String], m: &[&str]) -> Vec<usize> {
    let mut r: Vec<(usize, usize, usize)> = vec![];
    for (i, p) in patterns.iter().enumerate() {
        let parts: Vec<&str> = p.split('.').collect();
        if globs(&parts, m, true) {
            let star = parts.iter().position(|x| *x == "*");
            let (rank, names) = match star {
                None => (2, 0),
                Some(k) if parts[k..].iter().any(|x| *x != "*") => (1, 0),
                Some(k) => (0, k),
            };
            r.push((rank, names, i));
        }
    }
    r.sort();
    r.into_iter().map(|x| x.2).collect()
}

fn check(patterns: &[String], m: &[&str]) -> Result<(), String> {
    let (name, parents) = m.split_last().unwrap();
    let got = config::applied(patterns, name, dirs(parents).as_deref());
    let want = expected(patterns, m);
    if got != want {
        let n = |v: &[usize]| v.iter().map(|i| patterns[*i].clone()).collect::<Vec<_>>();
        return Err(format!("for module {} the settings of {:?} apply in this order, it should be {:?}", m.join("."), n(&got), n(&want)));
    }
    Ok(())
}

fn check_file(path: &str, skip: bool) -> Result<(), String> {
    let parts: Vec<&str> = path.split('/').collect();
    let (file, d) = parts.split_last().unwrap();
    let e = FileEntry { name: (*file).into(), parent: Parent(dirs(d)) };
    let (n, p) = module::name_and_parent(&e, skip);
    let mut got = vec![n];
    let mut at = p;
    while let Some(x) = at {
        got.insert(0, x.name.to_string());
        at = x.parent.0.clone();
    }
    let stem = file.strip_suffix(".py").unwrap_or_else(|| file.strip_suffix(".pyi").unwrap_or(file));
    let mut want: Vec<String> = d.iter().map(|s| s.to_string()).collect();
    if stem == "__init__" && !d.is_empty() {
        if skip {
            let l = want.pop().unwrap();
            want.push(l.strip_suffix("-stubs").unwrap_or(&l).to_string());
        }
    } else {
        want.push(stem.to_string());
    }
    if got != want {
        return Err(format!("file {path} is taken for module {got:?}, it is {want:?}"));
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args();
    r.rule = "lists of module patterns with a module, and paths of files; non-trivial: a star in a pattern".into();
    let mods: Vec<Vec<&str>> = {
        let mut v: Vec<Vec<&str>> = vec![vec!["a"], vec!["b"], vec!["c"]];
        for n in 0..39 {
            for x in ["a", "b", "c"] {
                if let Some(mut m) = v.get(n).cloned() {
                    m.push(x);
                    v.push(m);
                }
            }
        }
        v
    };
    let list = |r: &mut Run, ps: &[String]| {
        r.case(&ps.join(" "), ps.iter().any(|p| p.contains('*')), || mods.iter().try_for_each(|m| check(ps, m)));
    };
    r.enumerating = true;
    for f in ["a.py", "a.pyi", "a", "__init__.py", "__init__.pyi", "p/__init__.py", "p/q/__init__.pyi", "p-stubs/__init__.pyi", "p-stubs/q/__init__.pyi", "p/q-stubs/__init__.pyi", "p/a.py", "p/q/r/a.pyi", "p/a.py.py", "a.py.pyi", "p/__init__", "p/x__init__.py", "-stubs/__init__.py"] {
        for skip in [false, true] {
            r.case(f, true, || check_file(f, skip));
        }
    }
    const AL: &[&str] = &["a", "b", "*", "**", ""];
    for d in 1..=(if r.thorough { 7 } else { 5 }) {
        let mut parts = vec![0; d];
        loop {
            list(&mut r, &[parts.iter().map(|i| AL[*i]).collect::<Vec<_>>().join(".")]);
            let mut k = 0;
            while k < d && parts[k] == AL.len() - 1 {
                parts[k] = 0;
                k += 1;
            }
            if k == d || !r.time_left() {
                break;
            }
            parts[k] += 1;
        }
        r.enumerated.push(format!("all patterns of {d} parts from {AL:?} with all modules of up to 4 names from a, b, c"));
    }
    const PS: &[&str] = &["a", "a.*", "a.b", "a.b.*", "*", "*.b", "a.*.b", "a.*.*", "*.a.*", "a.b.c", "a.b.c.*", "b.*", "*.*"];
    for x in PS {
        for y in PS {
            for z in PS {
                list(&mut r, &[x.to_string(), y.to_string(), z.to_string()]);
            }
        }
    }
    r.enumerated.push(format!("all lists of three patterns from {PS:?}"));
    r.enumerating = false;
    while r.time_left() {
        let mut g = r.rng.clone();
        let n = g.range(1, 8);
        let ps: Vec<String> = (0..n).map(|_| { let d = g.range(1, 6); (0..d).map(|_| *g.pick(&["a", "b", "c", "*", "*"])).collect::<Vec<_>>().join(".") }).collect();
        r.rng = g;
        list(&mut r, &ps);
    }
    r.finish()
}
