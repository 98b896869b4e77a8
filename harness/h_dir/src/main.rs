//! C27: inline configuration comments. The splitter is taken out of /repo's sources by the build
//! script, the finding of comments is called in the crate; issues are a shim that records.
use common::*;
use parsa_python_cst::Tree;

pub mod shim {
    pub type CodeIndex = u32;
    #[derive(Debug)]
    pub enum IssueKind {
        DirectiveSyntaxError(Box<str>),
    }
    #[derive(Debug)]
    pub struct Issue {
        pub start: u32,
        pub end: u32,
        pub kind: IssueKind,
    }
    impl Issue {
        pub fn from_start_stop(start: u32, end: u32, kind: IssueKind, _: bool) -> Self {
            Issue { start, end, kind }
        }
    }
    #[derive(Default, Debug)]
    pub struct Diagnostics(pub std::cell::RefCell<Vec<Issue>>);
    impl Diagnostics {
        pub fn add(&self, i: Issue) {
            self.0.borrow_mut().push(i);
        }
    }
}
#[allow(dead_code, unused)]
mod directives {
    include!(concat!(env!("OUT_DIR"), "/directives.rs"));
    pub fn run<'c>(issues: &Diagnostics, rest: &'c str, start_position: u32, most: usize) -> Vec<(&'c str, Option<&'c str>)> {
        DirectiveSplitter { issues, rest, start_position }.take(most).collect()
    }
}
use shim::*;

type Setting = (String, Option<String>);
type Fault = (usize, usize, &'static str);
const CONTENT: &str = "Content after quote in configuration comment";
const KEY: &str = "Quotes should not be part of the key";
const OPEN: &str = "Unterminated quote in configuration comment";

/// Settings and faults of a comment's text that is at a place of the file
fn expected(text: &str, at: usize) -> (Vec<Setting>, Vec<Fault>) {
    let mut parts = vec![(at, String::new())];
    let mut quotes = 0;
    for (i, c) in text.char_indices() {
        quotes += (c == '"') as usize;
        if c == ',' && quotes % 2 == 0 {
            parts.push((at + i + 1, String::new()));
        } else {
            parts.last_mut().unwrap().1.push(c);
        }
    }
    let (mut settings, mut faults) = (vec![], vec![]);
    let last = parts.len() - 1;
    for (k, (start, p)) in parts.iter().enumerate() {
        let end = start + p.len();
        if k == last && quotes % 2 == 1 {
            faults.push((*start, end, OPEN));
            break;
        }
        if k == last && p.trim().is_empty() {
            break;
        }
        let (name, value) = match p.find('=') {
            None => (p.trim(), None),
            Some(e) => {
                let mut v: Vec<char> = p[e + 1..].trim().chars().collect();
                if p.contains('"') {
                    let ok = v.len() > 1 && v[0] == '"' && v[v.len() - 1] == '"';
                    if ok {
                        v.pop();
                    } else {
                        faults.push((*start, end, CONTENT));
                    }
                    if v.first() == Some(&'"') {
                        v.remove(0);
                    }
                }
                (p[..e].trim(), Some(v.into_iter().collect::<String>()))
            }
        };
        if name.contains('"') {
            faults.push((*start, end, KEY));
        }
        settings.push((name.to_string(), value));
    }
    (settings, faults)
}

fn check(code: &str) -> Result<(), String> {
    let tree = Tree::parse(code.into());
    let got: Vec<(u32, &str)> = tree.mypy_inline_config_directives().collect();
    let mut want = vec![];
    let mut at = 0;
    for l in code.split_inclusive('\n') {
        let line = l.strip_suffix('\n').unwrap_or(l);
        if line.starts_with("# mypy: ") {
            want.push((at as u32 + 8, &line[8..]));
        }
        at += l.len();
    }
    // a carriage return before the line's end may belong to it or not
    let same = |x: &[(u32, &str)]| x.iter().map(|(a, t)| (*a, t.strip_suffix('\r').unwrap_or(t).to_string())).collect::<Vec<_>>();
    if same(&got) != same(&want) {
        return Err(format!("the comments found are {got:?}, there are {want:?}"));
    }
    for (at, text) in got {
        let issues = Diagnostics::default();
        let s = directives::run(&issues, text, at, text.len() + 2);
        let (ws, wf) = expected(text, at as usize);
        let s: Vec<Setting> = s.into_iter().map(|(n, v)| (n.to_string(), v.map(|v| v.to_string()))).collect();
        if s != ws {
            return Err(format!("{text:?} is read as {s:?}, it says {ws:?}"));
        }
        let f: Vec<(usize, usize, String)> = issues.0.into_inner().into_iter().map(|i| { let IssueKind::DirectiveSyntaxError(m) = i.kind; (i.start as usize, i.end as usize, m.to_string()) }).collect();
        for (a, z, _) in &f {
            if a > z || code.get(*a..*z).is_none() {
                return Err(format!("{text:?}: an error is reported at {a}..{z}, which is no range of characters"));
            }
        }
        let wf: Vec<(usize, usize, String)> = wf.into_iter().map(|(a, z, m)| (a, z, m.to_string())).collect();
        if f != wf {
            return Err(format!("{text:?}: the errors are {f:?}, they should be {wf:?}"));
        }
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args();
    r.rule = "files with configuration comments; non-trivial: one has a quotation mark".into();
    let one = |r: &mut Run, c: &str| r.case(c, c.contains('"'), || check(c));
    r.enumerating = true;
    const AL: &[&str] = &["\"", ",", "=", "a", " ", "é"];
    for d in 0..=(if r.thorough { 8 } else { 6 }) {
        let mut parts = vec![0; d];
        loop {
            one(&mut r, &format!("# mypy: {}", parts.iter().map(|i| AL[*i]).collect::<String>()));
            let mut k = 0;
            while k < d && parts[k] == AL.len() - 1 {
                parts[k] = 0;
                k += 1;
            }
            if k == d || !r.time_left() {
                break;
            }
            parts[k] += 1;
        }
        r.enumerated.push(format!("all comments of {d} characters from {AL:?}"));
    }
    r.enumerating = false;
    const PIECES: &[&str] = &["# mypy: ", "# mypy: ", "# mypy:", " # mypy: ", "x = 1", "\n", "\n", "\r\n", "\r", "\"", "\"", ",", ",", "=", "=", "always-true", "FOO", " ", "\t", "é", "\u{2003}", "𝄞", "\u{c}", "\"\"\"", "'", "#"];
    while r.time_left() {
        let mut g = r.rng.clone();
        let n = g.range(1, 30);
        let mut c = String::new();
        if g.range(0, 2) > 0 {
            c.push_str("# mypy: ");
        }
        for _ in 0..n {
            c.push_str(g.pick(PIECES));
        }
        r.rng = g;
        one(&mut r, &c);
    }
    r.finish()
}
