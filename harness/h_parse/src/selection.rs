//! C17: selection ranges.
use crate::generate;
use common::*;
use parsa_python_cst::Tree;

fn check(src: &str) -> Result<(), String> {
    let tree = Tree::parse(src.into());
    let code = tree.code();
    for pos in 0..=code.len() {
        if !code.is_char_boundary(pos) {
            continue;
        }
        let rs: Vec<(usize, usize)> = tree.selection_ranges(pos as u32).take(1000).map(|r| (r.start as usize, r.end as usize)).collect();
        if rs.len() == 1000 {
            return Err(format!("endless ranges at {pos}"));
        }
        for (k, &(a, b)) in rs.iter().enumerate() {
            if a > b || b > code.len() || !code.is_char_boundary(a) || !code.is_char_boundary(b) {
                return Err(format!("position {pos}: range {k} {a}..{b} is not on character boundaries inside the text"));
            }
            if pos < a || pos > b {
                return Err(format!("position {pos}: range {k} {a}..{b} does not contain it ({rs:?})"));
            }
            if k > 0 {
                let (c, d) = rs[k - 1];
                if !(a <= c && d <= b) || (a, b) == (c, d) {
                    return Err(format!("position {pos}: range {k} {a}..{b} does not strictly contain {c}..{d} ({rs:?})"));
                }
            }
        }
        match rs.last() {
            Some(&(a, b)) => {
                if b != code.len() || a != 0 {
                    return Err(format!("position {pos}: the last range is {a}..{b} of {}", code.len()));
                }
            }
            None => return Err(format!("no range at {pos}")),
        }
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "source texts, every character position as cursor; non-trivial: at least three bytes and not only letters".into();
    let one = |r: &mut Run, s: &str| {
        let nt = s.len() > 2 && !s.chars().all(|c| c.is_alphabetic());
        r.case(s, nt, || check(s));
    };
    generate::all(r, if r.thorough { 6 } else { 5 }, 0.5, &mut |r, s| one(r, s));
}
