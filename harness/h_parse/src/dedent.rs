//! C08: dedent and docstring cleaning.
use crate::literals::check_doc;
use common::*;
use std::borrow::Cow;
use utils::{dedent, dedent_cow};

/// Independent statement of dedent: remove the largest number of whitespace characters that all
/// lines with content start with; lines without content lose that much if they have it.
pub fn check_dedent(s: &str) -> Result<(), String> {
    let got = dedent(s);
    let cow = dedent_cow(Cow::Borrowed(s)).into_owned();
    let owned = dedent_cow(Cow::Owned(s.to_string())).into_owned();
    if got != cow || got != owned {
        return Err(format!("dedent and dedent_cow disagree: {got:?} / {cow:?} / {owned:?}"));
    }
    let lines: Vec<&str> = s.split('\n').collect();
    let out: Vec<&str> = got.split('\n').collect();
    if lines.len() != out.len() {
        return Err(format!("{} lines became {}: {got:?}", lines.len(), out.len()));
    }
    let content = |l: &str| l.chars().any(|c| !c.is_whitespace());
    let lead = |l: &str| l.chars().take_while(|c| c.is_whitespace()).count();
    let Some(amount) = lines.iter().filter(|l| content(l)).map(|l| lead(l)).min() else {
        return if got == s { Ok(()) } else { Err(format!("text without content changed to {got:?}")) };
    };
    for (i, (a, b)) in lines.iter().zip(&out).enumerate() {
        let k = lead(a);
        if content(a) || k >= amount {
            let want: String = a.chars().skip(amount).collect();
            if *b != want {
                return Err(format!("line {i} {a:?} became {b:?}, the common indentation is {amount} characters"));
            }
        } else if *b != *a && !(a.ends_with(b) && !content(a)) {
            // a blank line with less whitespace: may only lose whitespace
            return Err(format!("blank line {i} {a:?} became {b:?}"));
        }
    }
    let twice = dedent(&got);
    if twice != got {
        return Err(format!("dedent is not idempotent: {got:?} -> {twice:?}"));
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "texts made of indentation, content and line-break pieces, and docstring bodies; non-trivial: at least two lines and a space".into();
    let al = ["\n", " ", "\t", "x", "\u{a0}", "\u{3000}", "é", "\r"];
    let n = if r.thorough { 7 } else { 6 };
    r.enumerating = true;
    let full = words(&al, n, &mut |w| {
        r.case(w, w.contains('\n') && w.contains(' '), || check_dedent(w));
        r.time_left() && r.frac() < 0.5
    });
    if full {
        r.enumerated.push(format!("dedent: all texts of up to {n} pieces from {al:?}"));
    }
    let al3 = ["\n", " ", "\t", "x", "é", "\u{a0}", "\r\n", "\\t"];
    let full = words(&al3, 5, &mut |w| {
        r.case(&format!("docstring {w:?}"), w.contains('\n'), || check_doc(w));
        r.time_left() && r.frac() < 0.8
    });
    if full {
        r.enumerated.push(format!("docstrings: all bodies of up to 5 pieces from {al3:?}"));
    }
    r.enumerating = false;
    let al2 = ["\n", "\n", "  ", " ", "    ", "\t", "x", "foo bar", "é", "\u{a0}", "\u{2003}", "\r\n", "''", "\n\n", "\n    "];
    while r.time_left() {
        let mut g = r.rng.clone();
        let w = random_word(&mut g, &al2, 40);
        let d = random_word(&mut g, &["\n", "\n    ", "    ", " ", "x", "foo", "é", "\u{2003}", "\\n", "\r\n"], 20);
        r.rng = g;
        r.case(&w, w.contains('\n') && w.contains(' '), || check_dedent(&w));
        r.case(&format!("docstring {d:?}"), d.contains('\n'), || check_doc(&d));
    }
}
