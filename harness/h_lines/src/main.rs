//! C09, C10: the real lines.rs and lsp_utils.rs, compiled from /repo.
use common::*;
pub use zuban_python::InputPosition;
#[path = "/repo/crates/zuban_python/src/lines.rs"]
#[allow(dead_code)]
mod lines;
#[path = "/repo/crates/zuban_python/src/lsp_utils.rs"]
#[allow(dead_code)]
mod lsp_utils;
use lines::NewlineIndices;
use lsp_types::{Position, Range, TextDocumentContentChangeEvent};

fn main() {
    let mut r = Run::from_args();
    match r.prop.as_str() {
        "C09" => c09(&mut r),
        "C10" => c10(&mut r),
        p => panic!("unknown {p}"),
    }
    r.finish()
}

/// (start, end without the line break, start of the next line) of every line
fn line_table(code: &str) -> Vec<(usize, usize, usize)> {
    let b = code.as_bytes();
    let mut v = vec![];
    let (mut start, mut i) = (0, 0);
    while i < b.len() {
        if b[i] == b'\n' || b[i] == b'\r' {
            let n = if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') { 2 } else { 1 };
            v.push((start, i, i + n));
            i += n;
            start = i;
        } else {
            i += 1;
        }
    }
    v.push((start, b.len(), b.len()));
    v
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Enc {
    Utf8,
    Utf16,
    Points,
}
const ENCS: [Enc; 3] = [Enc::Utf8, Enc::Utf16, Enc::Points];
fn input(e: Enc, line: usize, column: usize) -> InputPosition {
    match e {
        Enc::Utf8 => InputPosition::Utf8Bytes { line, column },
        Enc::Utf16 => InputPosition::Utf16CodeUnits { line, column },
        Enc::Points => InputPosition::CodePoints { line, column },
    }
}
fn width(e: Enc, s: &str) -> usize {
    s.chars()
        .map(|c| match e {
            Enc::Utf8 => c.len_utf8(),
            Enc::Utf16 => if c as u32 > 0xffff { 2 } else { 1 },
            Enc::Points => 1,
        })
        .sum()
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Want {
    Error,
    At(usize),
    /// beyond the end of the line: clamped and flagged
    Beyond(usize),
    /// inside or after a CRLF line break: may count as a column or as beyond the line end
    InBreak(usize),
}
fn convert(code: &str, t: &[(usize, usize, usize)], e: Enc, line: usize, col: usize) -> Want {
    let Some(&(a, b, next)) = t.get(line) else { return Want::Error };
    let mut w = 0;
    for (i, c) in code[a..b].char_indices() {
        if w == col {
            return Want::At(a + i);
        }
        w += width(e, c.encode_utf8(&mut [0; 4]));
        if w > col {
            return Want::Error;
        }
    }
    if w == col {
        return Want::At(b);
    }
    if next == b + 2 { Want::InBreak(b) } else { Want::Beyond(b) }
}

fn check_lines(code: &str) -> Result<(), String> {
    let ix = NewlineIndices::new();
    let t = line_table(code);
    let splits: Vec<&str> = lines::split_lines(code).collect();
    let want: Vec<&str> = t.iter().map(|&(a, b, _)| &code[a..b]).collect();
    if splits != want {
        return Err(format!("split_lines gives {splits:?}, expected {want:?}"));
    }
    for b in 0..=code.len() {
        if !code.is_char_boundary(b) {
            if ix.line_column_to_byte(code, InputPosition::NthUTF8Byte(b)).is_ok() {
                return Err(format!("byte {b} inside a character is accepted"));
            }
            continue;
        }
        let p = ix.position_infos(code, b as u32);
        let line = t.iter().rposition(|&(a, _, _)| a <= b).unwrap();
        let (a, end, _) = t[line];
        if p.line_zero_based() != line || p.line_one_based() != line + 1 || p.byte_position != b {
            return Err(format!("byte {b} is reported on line {} (zero-based), expected {line}", p.line_zero_based()));
        }
        for e in ENCS {
            let want = width(e, &code[a..b]);
            let got = match e {
                Enc::Utf8 => p.utf8_bytes_column(),
                Enc::Utf16 => p.utf16_code_units_column(),
                Enc::Points => p.code_points_column(),
            };
            if got != want {
                return Err(format!("byte {b}: {e:?} column {got}, expected {want}"));
            }
            let back = ix.line_column_to_byte(code, input(e, line, got)).map_err(|x| format!("byte {b}: its own position is rejected: {x}"))?;
            if b > end {
                // between \r and \n
                if back.byte as usize != b && back.byte as usize != end {
                    return Err(format!("byte {b}: {e:?} position converts back to {}", back.byte));
                }
                continue;
            }
            if back.byte as usize != b || back.column_out_of_bounds {
                return Err(format!("byte {b}: {e:?} position {line}:{got} converts back to {} (out of bounds: {})", back.byte, back.column_out_of_bounds));
            }
            match ix.line_column_to_safe_byte(code, input(e, line, got)) {
                Ok(x) if x as usize == b => (),
                x => return Err(format!("byte {b}: {e:?} position {line}:{got} as a safe byte is {x:?}")),
            }
        }
        for o in [0, 5] {
            let x = ix.line_column_to_byte(code, InputPosition::NthUTF8Byte(b)).map_err(|x| x.to_string())?;
            if x.byte as usize != b || x.column_out_of_bounds {
                return Err(format!("byte offset {b} becomes {}", x.byte));
            }
            let y = ix.line_column_to_byte(code, InputPosition::NthUTF8Byte(code.len() + 1 + o)).map_err(|x| x.to_string())?;
            if y.byte as usize != code.len() || !y.column_out_of_bounds {
                return Err(format!("byte offset {} becomes {} (out of bounds {})", code.len() + 1 + o, y.byte, y.column_out_of_bounds));
            }
        }
        for c in b..=code.len() {
            if !code.is_char_boundary(c) {
                continue;
            }
            let q = ix.position_infos(code, c as u32);
            if p.code_until(q) != &code[b..c] {
                return Err(format!("code_until({b},{c}) is {:?}", p.code_until(q)));
            }
            let l2 = t.iter().rposition(|&(a, _, _)| a <= c).unwrap();
            let r = ix.expand_range_to_full_lines(code, b as u32..c as u32);
            let (_, e2, n2) = t[l2];
            let ends = if n2 == e2 + 2 { [e2, e2 + 1] } else { [e2, e2] };
            if r.start as usize != a || !ends.contains(&(r.end as usize)) {
                return Err(format!("{b}..{c} expands to full lines {r:?}, expected {a}..{e2}"));
            }
        }
    }
    for line in 0..t.len() + 3 {
        let len = t.get(line).map_or(0, |&(a, _, n)| n - a);
        for e in ENCS {
            for col in (0..len + 3).chain([usize::MAX / 2, u32::MAX as usize]) {
                let want = convert(code, &t, e, line, col);
                let got = ix.line_column_to_byte(code, input(e, line, col));
                let safe = ix.line_column_to_safe_byte(code, input(e, line, col)).ok();
                let desc = || format!("{e:?} position {line}:{col}");
                match (want, got) {
                    (Want::Error, Err(_)) => {
                        if safe.is_some() {
                            return Err(format!("{} is rejected, but accepted as safe", desc()));
                        }
                    }
                    (Want::Error, Ok(x)) => return Err(format!("{} does not exist, but is converted to {}", desc(), x.byte)),
                    (Want::At(b), Ok(x)) => {
                        if x.byte as usize != b || x.column_out_of_bounds || safe != Some(b as u32) {
                            return Err(format!("{} converts to {} (out of bounds: {}), expected {b}", desc(), x.byte, x.column_out_of_bounds));
                        }
                    }
                    (Want::Beyond(b), Ok(x)) => {
                        if x.byte as usize != b || !x.column_out_of_bounds || safe.is_some() {
                            return Err(format!("{} converts to {} (out of bounds: {}), expected a clamped {b}", desc(), x.byte, x.column_out_of_bounds));
                        }
                    }
                    (Want::InBreak(b), Ok(x)) => {
                        if x.byte as usize != b && x.byte as usize != b + 1 {
                            return Err(format!("{} converts to {}, expected {b}", desc(), x.byte));
                        }
                    }
                    (w, Err(x)) => return Err(format!("{} is rejected ({x}), expected {w:?}", desc())),
                }
            }
        }
    }
    // numbered lines
    let mut n = t.len();
    if n > 1 && t[n - 1].0 == code.len() {
        n -= 1;
    }
    for skip in 0..n + 2 {
        let got: Vec<(usize, &str)> = ix.numbers_with_lines(code, skip).collect();
        let want: Vec<(usize, &str)> = (skip.min(n)..n).map(|i| (i, &code[t[i].0..t[i].1])).collect();
        let norm = |v: &[(usize, &str)]| -> Vec<(usize, String)> {
            v.iter().map(|&(i, s)| (i, if t[i].2 == t[i].1 + 2 { s.strip_suffix('\r').unwrap_or(s) } else { s }.to_string())).collect()
        };
        if got.iter().any(|x| x.0 >= n) || norm(&got) != norm(&want) {
            return Err(format!("numbered lines from {skip} are {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

fn c09(r: &mut Run) {
    r.rule = "texts, every offset and every line/column up to beyond the end, in three encodings; non-trivial: has a line break or a multi-byte character".into();
    let nt = |s: &str| s.contains(['\n', '\r']) || !s.is_ascii();
    r.enumerating = true;
    let n = if r.thorough { 7 } else { 6 };
    let mut done = true;
    for al in [["\n", "\r", "a", "é", "😀", " "], ["\r\n", "\n", "\u{2028}", "\t", "x😀", "\u{b}"]] {
        let full = words(&al, n, &mut |w| {
            r.case(w, nt(w), || check_lines(w));
            r.time_left() && r.frac() < 0.8
        });
        done &= full;
        if full {
            r.enumerated.push(format!("all texts of up to {n} pieces from {al:?}"));
        }
    }
    let _ = done;
    r.enumerating = false;
    let al2 = ["\n", "\r\n", "\r", "foo", "é", "😀", "€", " ", "\t", "\u{2028}", "\u{85}", "\u{c}", "def f():"];
    while r.time_left() {
        let mut g = r.rng.clone();
        let w = random_word(&mut g, &al2, 20);
        r.rng = g;
        r.case(&w, nt(&w), || check_lines(&w));
    }
}

// ---------------------------------------------------------------- C10
type Change = (Option<((u32, u32), (u32, u32))>, String);

fn check_edit(code: &str, changes: &[Change], e: Enc, primed: bool) -> Result<(), String> {
    let ix = NewlineIndices::new();
    if primed {
        ix.position_infos(code, 0);
    }
    // the oracle
    let mut want: Result<String, ()> = Ok(code.to_string());
    let first = changes.iter().rposition(|c| c.0.is_none()).unwrap_or(0);
    for (range, new) in &changes[first.min(changes.len())..] {
        let Ok(cur) = &want else { break };
        want = match range {
            None => Ok(new.clone()),
            Some((s, t)) if s > t => Err(()),
            Some((s, t)) => {
                let table = line_table(cur);
                let a = convert(cur, &table, e, s.0 as usize, s.1 as usize);
                let b = convert(cur, &table, e, t.0 as usize, t.1 as usize);
                match (a, b) {
                    (Want::InBreak(_), _) | (_, Want::InBreak(_)) => return Ok(()), // either answer is fine
                    (Want::At(a), Want::At(b)) => Ok(format!("{}{new}{}", &cur[..a], &cur[b..])),
                    _ => Err(()),
                }
            }
        };
    }
    let list = changes
        .iter()
        .map(|(r, t)| TextDocumentContentChangeEvent {
            range: r.map(|(s, t)| Range { start: Position { line: s.0, character: s.1 }, end: Position { line: t.0, character: t.1 } }),
            range_length: None,
            text: t.clone(),
        })
        .collect();
    let got = lsp_utils::apply_document_changes(code, &ix, list, |p| input(e, p.line as usize, p.character as usize));
    match (&want, &got) {
        (Ok(w), Ok(g)) if w == g => (),
        (Err(()), Err(_)) => (),
        _ => return Err(format!("{code:?} becomes {:?}, expected {:?}", got.as_ref().map_err(|e| e.to_string()), want)),
    }
    // the caller's line index still describes the old text
    for (k, &(a, _, _)) in line_table(code).iter().enumerate() {
        if ix.position_infos(code, a as u32).line_zero_based() != k {
            return Err(format!("after the call the line index of the unchanged text {code:?} is wrong"));
        }
    }
    Ok(())
}

fn c10(r: &mut Run) {
    r.rule = "a document, a list of changes and a position encoding; non-trivial: at least two changes".into();
    let one = |r: &mut Run, code: &str, ch: &[Change], e: Enc, primed: bool| {
        let s = format!("{e:?} primed={primed} {code:?} {ch:?}");
        r.case(&s, ch.len() > 1, || check_edit(code, ch, e, primed));
    };
    // small documents: every pair of changes over a small choice
    r.enumerating = true;
    let docs = ["", "a", "a\n", "a\nb", "\n\n", "é\n😀", "a\r\nb", "a\rb\n"];
    let texts = ["", "x", "\n", "y\nz\n", "\r"];
    let mut pos = vec![];
    for l in 0..3 {
        for c in 0..3 {
            pos.push((l, c));
        }
    }
    let mut singles: Vec<Change> = vec![];
    for t in texts {
        singles.push((None, t.into()));
        for &a in &pos {
            for &b in &pos {
                singles.push((Some((a, b)), t.into()));
            }
        }
    }
    let mut full = true;
    'outer: for d in docs {
        for a in &singles {
            one(r, d, std::slice::from_ref(a), Enc::Utf16, true);
            if a.0.is_some_and(|(s, t)| s > t) {
                continue;
            }
            for b in &singles {
                if b.0.is_some_and(|(s, t)| s > t) && b.1 != "x" {
                    continue;
                }
                one(r, d, &[a.clone(), b.clone()], Enc::Points, true);
                if !r.time_left() || r.frac() > 0.6 {
                    full = false;
                    break 'outer;
                }
            }
        }
    }
    if full {
        r.enumerated.push("every pair of changes with positions in 3x3 and five texts on eight small documents".into());
    }
    r.enumerating = false;
    let al = ["\n", "a", "bc", "é", "😀", "\r\n", "\r", "", " "];
    while r.time_left() {
        let mut g = r.rng.clone();
        let code = random_word(&mut g, &al, 14);
        let e = *g.pick(&ENCS);
        let mut cur = code.clone();
        let mut ch: Vec<Change> = vec![];
        for _ in 0..g.range(0, 6) {
            let t = random_word(&mut g, &al, 4);
            if g.chance(1, 8) {
                cur = t.clone();
                ch.push((None, t));
                continue;
            }
            // mostly valid positions of the current text, biased to go upwards as editors do
            let table = line_table(&cur);
            let mut two = [(0u32, 0u32); 2];
            for p in &mut two {
                let l = g.below(table.len());
                let (a, b, _) = table[l];
                let bs: Vec<usize> = (a..=b).filter(|&i| cur.is_char_boundary(i)).collect();
                let i = *g.pick(&bs);
                *p = (l as u32, width(e, &cur[a..i]) as u32);
            }
            two.sort();
            if g.chance(1, 12) {
                let k = g.below(2);
                two[k].1 += g.range(0, 3) as u32;
            }
            if g.chance(1, 20) {
                two[1].0 += g.range(0, 2) as u32;
            }
            let table = line_table(&cur);
            if let (Want::At(a), Want::At(b)) = (
                convert(&cur, &table, e, two[0].0 as usize, two[0].1 as usize),
                convert(&cur, &table, e, two[1].0 as usize, two[1].1 as usize),
            ) {
                if a <= b {
                    cur = format!("{}{t}{}", &cur[..a], &cur[b..]);
                }
            }
            ch.push((Some((two[0], two[1])), t));
        }
        let primed = g.chance(1, 2);
        r.rng = g;
        one(r, &code, &ch, e, primed);
    }
}
