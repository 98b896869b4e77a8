//! C25: number literals: which text is one, of which kind, and which integer it denotes.
use crate::{generate, tokens};
use common::*;
use parsa_python::TerminalType;
use parsa_python_cst::{AtomContent, Tree};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Int,
    Float,
    Complex,
}

/// End of `(_?digit)*` from i, where `first` says whether an underscore may come first
fn digits(b: &[u8], mut i: usize, base: u32, first: bool) -> usize {
    let start = i;
    loop {
        let j = if i < b.len() && b[i] == b'_' && (first || i > start) { i + 1 } else { i };
        if j < b.len() && (b[j] as char).is_digit(base) {
            i = j + 1;
        } else {
            return i;
        }
    }
}

/// The longest number literal at the start of the text (Python's lexical definition)
fn number(b: &[u8]) -> Option<(Kind, usize)> {
    let mut best = None;
    if b.len() > 1 && b[0] == b'0' {
        if let Some(base) = match b[1] {
            b'x' | b'X' => Some(16),
            b'o' | b'O' => Some(8),
            b'b' | b'B' => Some(2),
            _ => None,
        } {
            let e = digits(b, 2, base, true);
            if e > 2 {
                return Some((Kind::Int, e));
            }
        }
    }
    let whole = digits(b, 0, 10, false);
    if whole > 0 {
        let e = if b[0] == b'0' {
            // nothing but zeros
            let mut e = 1;
            loop {
                if e < b.len() && b[e] == b'0' {
                    e += 1
                } else if e + 1 < b.len() && b[e] == b'_' && b[e + 1] == b'0' {
                    e += 2
                } else {
                    break e;
                }
            }
        } else {
            whole
        };
        best = Some((Kind::Int, e));
    }
    let mut end = whole;
    let mut float = false;
    if end < b.len() && b[end] == b'.' {
        let f = digits(b, end + 1, 10, false);
        if whole > 0 || f > end + 1 {
            end = f;
            float = true;
        }
    }
    if end > 0 && end < b.len() && (b[end] | 32) == b'e' && (whole > 0 || float) {
        let s = end + 1 + (end + 1 < b.len() && (b[end + 1] == b'+' || b[end + 1] == b'-')) as usize;
        let x = digits(b, s, 10, false);
        if x > s {
            end = x;
            float = true;
        }
    }
    if float {
        best = Some((Kind::Float, end));
    }
    if end > 0 && end < b.len() && (b[end] | 32) == b'j' {
        best = Some((Kind::Complex, end + 1));
    }
    best
}

/// Decimal digits of the integer a literal denotes
fn value(s: &str) -> String {
    let (base, d) = match s.as_bytes() {
        [b'0', b'x' | b'X', ..] => (16, &s[2..]),
        [b'0', b'o' | b'O', ..] => (8, &s[2..]),
        [b'0', b'b' | b'B', ..] => (2, &s[2..]),
        _ => (10, s),
    };
    let mut n = vec![0u32];
    for c in d.chars().filter(|c| *c != '_') {
        let mut carry = c.to_digit(base).unwrap();
        for x in n.iter_mut() {
            let v = *x * base + carry;
            *x = v % 10;
            carry = v / 10;
        }
        while carry > 0 {
            n.push(carry % 10);
            carry /= 10;
        }
    }
    while n.len() > 1 && n.last() == Some(&0) {
        n.pop();
    }
    n.iter().rev().map(|x| char::from_digit(*x, 10).unwrap()).collect()
}

fn literal(s: &str) -> Result<(), String> {
    let Some((kind, end)) = number(s.as_bytes()) else { return Ok(()) };
    if end != s.len() {
        return Ok(());
    }
    let tree = Tree::parse(format!("{s}\n").into());
    let e = tree.maybe_star_expressions().and_then(|x| x.maybe_simple_expression()).ok_or(format!("{s} is not read as an expression"))?;
    let simple = e.maybe_simple_int().map(|x| x.to_string());
    match (e.maybe_unpacked_atom(), kind) {
        (Some(AtomContent::Int(i)), Kind::Int) => {
            let (a, b) = (i.parse().to_string(), i.parse_as_big_uint().to_string());
            let v = value(s);
            if a != v || b != v || simple != Some(v.clone()) || i.as_str() != s {
                return Err(format!("the value of {s} is {v}, but {a} (unsigned {b}, as expression {simple:?}) was found"));
            }
            Ok(())
        }
        (Some(AtomContent::Float(_)), Kind::Float) | (Some(AtomContent::Complex(_)), Kind::Complex) if simple.is_none() => Ok(()),
        (x, k) => Err(format!("{s} is {k:?}, but was taken for {}", match x {
            Some(AtomContent::Int(_)) => "an int",
            Some(AtomContent::Float(_)) => "a float",
            Some(AtomContent::Complex(_)) => "a complex number",
            _ => "something else",
        })),
    }
}

fn check(s: &str) -> Result<(), String> {
    for t in tokens::tokens(s)? {
        let text = &s[t.start..];
        let n = number(text.as_bytes());
        if t.ty == TerminalType::Number as u16 {
            if n.map(|x| x.1) != Some(t.end - t.start) {
                return Err(format!("{:?} was read as a number, {n:?} is the longest one", &s[t.start..t.end]));
            }
            literal(&s[t.start..t.end])?;
        } else if t.end > t.start && text.starts_with(|c: char| c.is_ascii_digit()) && t.ty != TerminalType::FStringString as u16 {
            return Err(format!("{:?} starts with a digit, but is no number", &s[t.start..t.end]));
        }
    }
    literal(s)
}

const SETS: &[&[&str]] = &[
    &["0", "1", "_", "x", "b", "o", "e", ".", "j"],
    &["0x", "0b", "0o", "_", "1", "7", "9", "f", "0"],
    &["1", "0", "E", "+", "-", ".", "J", "_", "9"],
    &["0X", "0B", "0O", "_", "8", "2", "E", "A", "a"],
];

pub fn run(r: &mut Run) {
    r.rule = "texts with numbers in them; non-trivial: the whole text is a number literal".into();
    let one = |r: &mut Run, s: &str| {
        r.case(s, number(s.as_bytes()).is_some_and(|x| x.1 == s.len()), || check(s));
    };
    for s in ["0xffffffffffffffffffffffffffffffffff", "1_000_000_000_000_000_000_000_000_000", "0_0_0", "0b_1", "0xdead_beef", "0Xe", "0xE5", "1_0e1_0", "00.5", "00j", "0e0"] {
        one(r, s)
    }
    r.enumerating = true;
    for (k, al) in SETS.iter().enumerate() {
        let end = 0.6 * (k + 1) as f64 / SETS.len() as f64;
        let mut done = 0;
        for d in 1..=(if r.thorough { 7 } else { 6 }) {
            if !words(al, d, &mut |w| {
                one(r, w);
                r.time_left() && r.frac() < end
            }) {
                break;
            }
            done = d;
        }
        if done > 0 {
            r.enumerated.push(format!("all texts of up to {done} pieces from {al:?}"));
        }
    }
    r.enumerating = false;
    while r.time_left() && r.frac() < 0.9 {
        let mut g = r.rng.clone();
        let s = match g.below(4) {
            0 => random_word(&mut g, &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "_"], 60),
            1 => format!("0x{}", random_word(&mut g, &["0", "1", "9", "a", "F", "e", "E", "b", "_c"], 60)),
            2 => format!("0o{}", random_word(&mut g, &["0", "1", "7", "6", "_5"], 60)),
            _ => format!("0b{}", random_word(&mut g, &["0", "1", "_1", "_0"], 200)),
        };
        r.rng = g;
        one(r, &s);
    }
    generate::all(r, 1, 0.9, &mut |r, s| one(r, s));
}
