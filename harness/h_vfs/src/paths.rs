//! C11: lexical path operations against a component-list model.
use common::*;
use std::borrow::Cow;
use std::path::Path;
use std::sync::Arc;
use vfs::*;

#[allow(unused)]
mod strip {
    include!(concat!(env!("OUT_DIR"), "/strip.rs"));
}

/// the components a path denotes below the root: '' and '.' do nothing, '..' goes up
fn denote(p: &str) -> Vec<&str> {
    let mut v = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v
}
fn clean(p: &str) -> String {
    format!("/{}", denote(p).join("/"))
}
fn is_clean(p: &str) -> bool {
    p == clean(p)
}

fn one(h: &SimpleLocalFS, p: &str) -> Result<(), String> {
    let want = clean(p);
    // an absolute path given as a URI keeps its text, so normalisation sees all of it
    let raw = h.unchecked_abs_path_from_uri(p.into());
    if &**raw != p {
        return Err("a path taken from a URI was altered".into());
    }
    let n = h.normalize_path(&raw);
    if ***n != *want {
        return Err(format!("normalised to {:?}, expected {want:?}", &***n));
    }
    match &n {
        Cow::Borrowed(_) if p != want => return Err("reported as unchanged although it changes".into()),
        _ => (),
    }
    let again = h.normalize_path(&n);
    if ***again != ***n {
        return Err(format!("normalising twice gives {:?}", &***again));
    }
    let rc = h.normalize_rc_path(raw.clone());
    if ***rc != *want {
        return Err(format!("the owned form normalises to {:?}, expected {want:?}", &***rc));
    }
    // at most the trailing separator goes
    let u = h.unchecked_abs_path(p);
    if denote(&u) != denote(p) || (p.ends_with('/') && p.len() != u.len() + 1) || (!p.ends_with('/') && **u != *p) {
        return Err(format!("as an absolute path it becomes {:?}", &**u));
    }
    if p.starts_with('/') && !u.starts_with('/') {
        return Err(format!("absolute path {p:?} becomes {:?}, which is not absolute", &**u));
    }
    let nu = h.normalize_unchecked_abs_path(p);
    if ***nu != *want {
        return Err(format!("normalising as an absolute path gives {:?}, expected {want:?}", &***nu));
    }
    if *NormalizedPath::arc_to_abs_path(nu.clone()) != **nu || *NormalizedPath::arc_to_str(nu.clone()) != ***nu {
        return Err("conversion of the normalised path alters it".into());
    }
    let own: Arc<NormalizedPath> = (*nu).to_owned();
    if ***own != ***nu || format!("{own}") != want || ***nu.to_owned() != *want {
        return Err("owning a normalised path alters it".into());
    }
    let own: Arc<AbsPath> = (*raw).to_owned();
    if **own != *p || format!("{own}") != p {
        return Err("owning a path alters it".into());
    }
    // parent
    let par = h.parent_of_absolute_path(&n).map(|x| x.to_string());
    let d = denote(p);
    let wantp = if d.is_empty() { None } else { Some(format!("/{}", d[..d.len() - 1].join("/"))) };
    if par != wantp {
        return Err(format!("parent of {want:?} is {par:?}, expected {wantp:?}"));
    }
    Ok(())
}

fn splits(h: &SimpleLocalFS, p: &str) -> Result<(), String> {
    let (a, b) = h.split_off_first_item(p);
    if a.contains('/') {
        return Err(format!("first item {a:?} holds a separator"));
    }
    let joined = match b {
        Some(b) => format!("{a}/{b}"),
        None => a.to_string(),
    };
    if joined != p || b.is_some() != p.contains('/') {
        return Err(format!("first item split into {a:?} and {b:?}"));
    }
    let (a, b) = h.split_off_last_item(p);
    if b.contains('/') {
        return Err(format!("last item {b:?} holds a separator"));
    }
    let joined = match a {
        Some(a) => format!("{a}/{b}"),
        None => b.to_string(),
    };
    if joined != p || a.is_some() != p.contains('/') {
        return Err(format!("last item split into {a:?} and {b:?}"));
    }
    let pre = h.strip_separator_prefix(p);
    if pre != p.strip_prefix('/') {
        return Err(format!("separator prefix stripped to {pre:?}"));
    }
    let suf = h.strip_separator_suffix(p);
    if suf != p.strip_suffix('/') {
        return Err(format!("separator suffix stripped to {suf:?}"));
    }
    Ok(())
}

fn joins(h: &SimpleLocalFS, dir: &str, rel: &str) -> Result<(), String> {
    let d = h.unchecked_abs_path_from_uri(dir.into());
    let j = h.absolute_path(&d, rel);
    let want = if rel.starts_with('/') { clean(rel) } else { clean(&format!("{dir}/{rel}")) };
    let got = h.normalize_rc_path(j.clone());
    if ***got != *want {
        return Err(format!("absolute path of {rel:?} in {dir:?} is {:?}, normalised {:?}, expected {want:?}", &**j, &***got));
    }
    if !j.starts_with('/') {
        return Err(format!("absolute path of {rel:?} in {dir:?} is {:?}", &**j));
    }
    if !rel.starts_with('/') {
        let j = h.join(&d, rel);
        let got = h.normalize_path(&j);
        if ***got != *want {
            return Err(format!("{dir:?} joined with {rel:?} is {:?}", &**j));
        }
    }
    // a single name: splitting it off again
    if !rel.is_empty() && !rel.contains('/') && is_clean(dir) && dir != "/" {
        let j = h.join(&d, rel);
        if **j != *format!("{dir}/{rel}") || h.split_off_last_item(&j) != (Some(dir), rel) {
            return Err(format!("{dir:?} joined with {rel:?} is {:?}, which does not split again", &**j));
        }
    }
    Ok(())
}

fn pair(h: &SimpleLocalFS, p: &str, q: &str) -> Result<(), String> {
    // workspace prefix: q is a clean absolute root without trailing separator ("" is the root)
    let root = h.unchecked_abs_path_from_uri(q.into());
    for cs in [true, false] {
        let got = strip::call(h, cs, p, &root);
        let (pc, qc): (Vec<&str>, Vec<&str>) = (p.split('/').collect(), q.split('/').collect());
        let eq = |a: &str, b: &str| if cs { a == b } else { a.eq_ignore_ascii_case(b) };
        let inside = pc.len() > qc.len() && qc.iter().zip(&pc).all(|(a, b)| eq(a, b));
        let want = inside.then(|| pc[qc.len()..].join("/"));
        if got.map(|s| s.to_string()) != want {
            return Err(format!("prefix {q:?} stripped from {p:?} (case sensitive: {cs}) gives {got:?}, expected {want:?}"));
        }
        if let Some(g) = got {
            if !p.ends_with(g) {
                return Err("stripping a prefix altered the rest".into());
            }
        }
    }
    // containment and relative paths, of normalised paths
    let (pn, qn) = (clean(p), clean(q));
    let (pa, qa) = (h.unchecked_abs_path_from_uri(pn.as_str().into()), h.unchecked_abs_path_from_uri(qn.as_str().into()));
    let (dp, dq) = (denote(&pn), denote(&qn));
    let inside = dp.starts_with(&dq);
    if qa.contains_sub_file(&pa) != inside {
        return Err(format!("{qn:?} contains {pn:?}: reported {}", !inside));
    }
    match h.path_relative_to(&pa, Path::new(&qn)) {
        None => return Err(format!("no path of {pn:?} relative to {qn:?}")),
        Some(rel) => {
            if rel.starts_with('/') {
                return Err(format!("{pn:?} relative to {qn:?} is {rel:?}, which is absolute"));
            }
            if clean(&format!("{qn}/{rel}")) != pn {
                return Err(format!("{pn:?} relative to {qn:?} is {rel:?}, which joined back gives {:?}", clean(&format!("{qn}/{rel}"))));
            }
            let j = h.join(&qa, &rel);
            if ***h.normalize_path(&j) != *pn {
                return Err(format!("{pn:?} relative to {qn:?} is {rel:?}, which joined back gives {:?}", &**j));
            }
            let ups = rel.split('/').filter(|c| *c == "..").count();
            let common = dp.iter().zip(&dq).take_while(|(a, b)| a == b).count();
            if ups != dq.len() - common {
                return Err(format!("{pn:?} relative to {qn:?} is {rel:?}: goes up {ups} times instead of {}", dq.len() - common));
            }
        }
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "a path, or a pair of paths; non-trivial: contains a separator followed by something".into();
    let h = SimpleLocalFS::without_watcher();
    let nt = |p: &str| p.chars().skip(1).any(|c| c == '/');
    // the known exception is named exactly
    r.case("root path \"/\"", true, || one(&h, "/"));
    let pieces = ["/", "a", "B", ".", "..", "ä", "b.py", " "];
    r.enumerating = true;
    let done = words(&pieces, if r.thorough { 6 } else { 5 }, &mut |w| {
        let p = format!("/{w}");
        if p != "/" {
            r.case(&format!("path {p:?}"), nt(&p), || one(&h, &p));
        }
        r.case(&format!("split {w:?}"), nt(w), || splits(&h, w));
        r.time_left()
    });
    if done {
        r.enumerated.push(format!("all paths of up to {} pieces from {pieces:?}", if r.thorough { 6 } else { 5 }));
    }
    let comps = ["/a", "/A", "/ab", "/ä", "/b.py", "/a b"];
    let mut paths = vec![];
    words(&comps, 3, &mut |w| {
        paths.push(w.to_string());
        true
    });
    'o: for p in &paths {
        for q in &paths {
            if !p.is_empty() {
                r.case(&format!("pair {p:?} {q:?}"), nt(p), || pair(&h, p, q));
            }
        }
        for rel in ["", "x", "x/y", ".", "..", "../x", "../../../x", "./x/", "/abs", "/abs/../z", "x//y", "ä.py"] {
            if !p.is_empty() {
                r.case(&format!("join {p:?} {rel:?}"), nt(p), || joins(&h, p, rel));
            }
        }
        if !r.time_left() {
            break 'o;
        }
    }
    r.enumerating = false;
    let pieces = ["/", "/", "/", "a", "b", "A", "B", ".", "..", "ä", "\u{1F600}", "site-packages", "x.py", " ", "\\", "foo"];
    while r.time_left() {
        let n = r.rng.range(2, 14);
        let mut rng = r.rng.clone();
        let w = random_word(&mut rng, &pieces, n);
        let v = random_word(&mut rng, &pieces, n);
        r.rng = rng;
        let (p, q) = (format!("/{w}"), format!("/{v}"));
        if p != "/" {
            r.case(&format!("path {p:?}"), nt(&p), || one(&h, &p));
        }
        r.case(&format!("split {w:?}"), nt(&w), || splits(&h, &w));
        let qc = clean(&q);
        if qc != "/" {
            if v != "/" {
                r.case(&format!("join {qc:?} {w:?}"), nt(&w), || if w == "/" { Ok(()) } else { joins(&h, &qc, &w) });
            }
            let inner = format!("{qc}/{w}");
            let p2 = if r.rng.chance(1, 2) { inner } else { p.clone() };
            r.case(&format!("pair {p2:?} {qc:?}"), nt(&p2), || pair(&h, &p2, &qc));
        }
    }
}
