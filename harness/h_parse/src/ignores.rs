//! C24: ignore comments and the quick fix that adds one.
use crate::{generate, tokens};
use common::*;
use parsa_python_cst::{Tree, TypeIgnoreComment, maybe_type_ignore};

/// What one comment says: codes with their offset in the comment, or everything.
#[derive(Clone, PartialEq, Debug)]
enum Says {
    Codes { kind: &'static str, at: usize, len: usize },
    All,
}

fn blanks(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && b[i] == b' ' {
        i += 1
    }
    i
}

fn word(b: &[u8], i: usize, w: &str) -> Option<usize> {
    b[i..].starts_with(w.as_bytes()).then_some(i + w.len())
}

/// `ignore`, then nothing but `[codes]`, or a blank.
fn directive(b: &[u8], i: usize, kind: &'static str) -> Option<Says> {
    let after = word(b, i, "ignore")?;
    let open = blanks(b, after);
    let mut end = b.len();
    while end > open && b" \t\x0c".contains(&b[end - 1]) {
        end -= 1
    }
    if open < end && b[open] == b'[' && b[end - 1] == b']' && end - open > 2 {
        return Some(Says::Codes { kind, at: open + 1, len: end - open - 2 });
    }
    (after == b.len() || b[after] == b' ' || b[after] == b'\t').then_some(Says::All)
}

fn comment(b: &[u8]) -> Option<Says> {
    let i = blanks(b, 0);
    for (kind, w) in [("type", "type:"), ("zuban", "zuban:")] {
        if let Some(j) = word(b, i, w) {
            return directive(b, blanks(b, j), kind);
        }
    }
    None
}

/// All ignore comments of text[a..z], with positions in the text
fn all(text: &[u8], a: usize, z: usize) -> Vec<Says> {
    let mut r = vec![];
    let mut start: Option<usize> = None;
    for i in a..=z {
        let c = if i < z { text[i] } else { b'\n' };
        if c == b'#' || c == b'\n' || c == b'\r' {
            if let Some(s) = start {
                if let Some(x) = comment(&text[s..i]) {
                    r.push(match x {
                        Says::Codes { kind, at, len } => Says::Codes { kind, at: at + s, len },
                        Says::All => Says::All,
                    });
                }
            }
            start = (c == b'#').then_some(i + 1);
        }
    }
    r
}

fn same(code: &str, found: &Option<TypeIgnoreComment>, want: &[Says]) -> Result<(), String> {
    let bad = |s: &str| Err(format!("{s}: found {found:?}, the text says {want:?}"));
    match found {
        None => want.is_empty().then_some(()).ok_or(()).or_else(|_| bad("missed")),
        Some(TypeIgnoreComment::WithoutCode) => {
            if want.is_empty() || (want.iter().all(|x| *x != Says::All)) { bad("not everything is ignored") } else { Ok(()) }
        }
        Some(TypeIgnoreComment::WithCodes { codes, kind, codes_start_at_index, codes_of_later_type_ignores }) => {
            if want.is_empty() || want.contains(&Says::All) {
                return bad("codes");
            }
            let txt = |x: &Says| if let Says::Codes { at, len, .. } = x { code[*at..*at + *len].to_string() } else { unreachable!() };
            let Says::Codes { kind: k, at, .. } = &want[0] else { unreachable!() };
            if *codes != txt(&want[0]) || k != kind {
                return bad("other codes");
            }
            if *codes_start_at_index as usize != *at {
                return bad("the codes are elsewhere");
            }
            if codes_of_later_type_ignores.iter().map(|s| s.to_string()).collect::<Vec<_>>() != want[1..].iter().map(txt).collect::<Vec<_>>() {
                return bad("other later codes");
            }
            Ok(())
        }
    }
}

fn covers(c: &Option<TypeIgnoreComment>, code: &str) -> bool {
    match c {
        None => false,
        Some(TypeIgnoreComment::WithoutCode) => true,
        Some(TypeIgnoreComment::WithCodes { codes, codes_of_later_type_ignores, .. }) => {
            std::iter::once(codes).chain(codes_of_later_type_ignores).any(|s| s.split(',').any(|c| c.trim_matches(' ') == code))
        }
    }
}

fn eol(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
        i += 1
    }
    i
}

/// `known`: report the listed finding (only asked for in the one case that stands for it)
fn check(src: &str, known: bool) -> Result<(), String> {
    let tree = Tree::parse(src.into());
    let code = tree.code();
    let b = code.as_bytes();
    let bs: Vec<usize> = (0..=code.len()).filter(|i| code.is_char_boundary(*i)).collect();
    let every = (bs.len() / 12).max(1);
    for (i, &a) in bs.iter().enumerate() {
        for (k, &z) in bs[i..].iter().enumerate() {
            if (k + i) % every != 0 && k > 2 {
                continue;
            }
            let found = tree.type_ignore_comment_for(a as u32, z as u32);
            same(code, &found, &all(b, a, eol(b, z))).map_err(|e| format!("region {a}..{z}: {e}"))?;
        }
    }
    let toks = tokens::tokens(code)?;
    let first = toks.iter().find(|t| t.end > t.start).map(|t| t.start).unwrap_or(code.len());
    let top = all(b, 0, first);
    let want = if top.is_empty() {
        Ok(false)
    } else if top.contains(&Says::All) {
        Ok(true)
    } else if let Says::Codes { at, len, .. } = top[0] {
        Err(&code[at..at + len])
    } else {
        unreachable!()
    };
    let got = tree.has_type_ignore_at_start();
    if got != want {
        return Err(format!("at the start of the file: {got:?}, the text says {want:?}"));
    }
    // What a comment does to a text with syntax errors is left open (an open string takes it in).
    let clean = parsa_python::parse(code.into()).nodes().all(|n| !n.is_error_recovery_node() && n.maybe_error_leaf().is_none());
    for t in toks.iter().filter(|t| t.end > t.start && !code[t.start..].starts_with(['\n', '\r'])) {
        let p = t.start;
        let line = eol(b, p);
        let Some(ins) = tree.insertion_point_for_type_ignore(p as u32) else {
            let next = toks.iter().find(|t| t.start >= line && t.end > t.start);
            let ok = all(b, p, line).contains(&Says::All)
                || p < line && line < b.len() && b[line - 1] == b'\\'
                || toks.iter().any(|t| t.start < line && line < t.end)
                || next.is_some_and(|t| t.ty == parsa_python::TerminalType::FStringString as u16);
            if ok {
                continue;
            }
            return Err(format!("position {p}: no fix is offered, although a comment could be added"));
        };
        let at = ins.insertion_index as usize;
        if at < p || at > line || !code.is_char_boundary(at) {
            return Err(format!("position {p}: the fix is inserted at {at}, the line ends at {line}"));
        }
        for kind in ["type", "zuban"] {
            let Some(new) = ins.format_for_kind(kind, "attr-defined") else { continue };
            let text = format!("{}{}{}", &code[..at], new, &code[at..]);
            let t2 = Tree::parse(text.as_str().into());
            let c = t2.type_ignore_comment_for(p as u32, p as u32);
            if !covers(&c, "attr-defined") {
                return Err(format!("position {p}: after the fix ({text:?}) the error is not ignored: {c:?}"));
            }
            if toks.iter().any(|t| t.start < at && at < t.end) {
                // A `#` inside a string literal counts as a comment: see known_findings.txt
                if known {
                    return Err(format!("position {p}: the fix ({text:?}) extends codes inside a string literal"));
                }
                continue;
            }
            let k2 = tokens::tokens(t2.code())?;
            let strip = |ts: &[tokens::Tok], code: &str| ts.iter().map(|t| (t.ty, code[t.start..t.end].to_string())).collect::<Vec<_>>();
            if clean && strip(&toks, code) != strip(&k2, t2.code()) {
                return Err(format!("position {p}: the fix ({text:?}) changes the program"));
            }
        }
    }
    Ok(())
}

const SETS: &[&[&str]] = &[
    &["# type: ignore", "[a]", "[", "]", " ", "x", "\n", "#"],
    &["x", "#", " ", "type:", "ignore", "zuban:", "[a,b]", "\n"],
    &["#type:ignore[a]", "#zuban: ignore[b\t]", "\r", "\n", " ", "\t", "é", "#"],
    &["f'''", "{x}", "'''", "\n", "a", "\\\n", "(", ")"],
    &["'''", "#type: ignore[a ]", "\n", "x", " #", "\t", "\\\n", "\x0c"],
];

pub fn run(r: &mut Run) {
    r.rule = "source texts with every region of them, and every token as place of an error to be ignored; non-trivial: with a comment".into();
    let one = |r: &mut Run, s: &str| {
        r.case(s, s.contains('#'), || check(s, false));
    };
    let s = "x = '''# type: ignore[a]\n'''";
    r.case(s, true, || check(s, true));
    for s in ["[", "[a", "a]", "[]", "[ ]", "[a]", " [a]", " [a] ", "[a]\t", "\t[a]", " x", "x", ""] {
        let t = format!("ignore{s}");
        r.case(&t, true, || {
            let w: Vec<Says> = directive(t.as_bytes(), 0, "type").into_iter().collect();
            same(&t, &maybe_type_ignore("type", 0, &t), &w)
        });
    }
    r.enumerating = true;
    for (k, al) in SETS.iter().enumerate() {
        let end = 0.5 * (k + 1) as f64 / SETS.len() as f64;
        let mut done = 0;
        for d in 1..=(if r.thorough { 7 } else { 5 }) {
            if !words(al, d, &mut |w| {
                one(r, w);
                r.time_left() && r.frac() < end
            }) {
                break;
            }
            done = d;
        }
        if done > 0 {
            r.enumerated.push(format!("all texts of up to {done} pieces from {al:?}"));
        }
    }
    r.enumerating = false;
    const BITS: &[&str] = &["# type: ignore", "#type:ignore[attr-defined]", "# zuban: ignore[x, y ]", "# type: ignored", "# type: ignore [z]", " # c", "#", "\t", " ", "# type: ignore[a] # b", "#  zuban:   ignore   [q]  "];
    generate::all(r, 1, 0.5, &mut |r, s| {
        let mut s = s.to_string();
        let mut g = r.rng.clone();
        for _ in 0..g.below(4) {
            let ends: Vec<usize> = s.char_indices().filter(|x| x.1 == '\n' || x.1 == '\r').map(|x| x.0).chain([s.len()]).collect();
            let i = *g.pick(&ends);
            s.insert_str(i, g.pick(BITS));
        }
        r.rng = g;
        one(r, &s)
    });
}
