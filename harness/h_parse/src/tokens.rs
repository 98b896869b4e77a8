//! C01, C02: the token stream of every text.
use crate::generate;
use crate::tokenizer::{PyTerminal, PythonTokenizer, TerminalType};
use common::*;
use parsa::{Token, Tokenizer};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tok {
    pub start: usize,
    pub end: usize,
    pub ty: u16,
}
use TerminalType::{Name, Operator, Endmarker, Newline, Indent, Dedent, ErrorDedent, FStringStart, NeverMatch};
impl Tok {
    fn is(&self, t: TerminalType) -> bool {
        self.ty == t as u16
    }
}

pub fn tokens(code: &str) -> Result<Vec<Tok>, String> {
    let mut v = vec![];
    let mut t: PythonTokenizer = Tokenizer::new(code);
    let limit = 4 * code.len() + 16;
    while let Some(x) = t.next() {
        let x: PyTerminal = x;
        v.push(Tok { start: x.start_index() as usize, end: x.start_index() as usize + x.length() as usize, ty: x.type_().0 });
        if v.len() > limit {
            return Err(format!("more than {limit} tokens for {} bytes", code.len()));
        }
    }
    if t.next().is_some() {
        return Err("a token after the end of the stream".into());
    }
    Ok(v)
}

pub fn is_trivia(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | 0x0c | b'\n' | b'\r' => i += 1,
            b'#' => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            b'\\' if b.get(i + 1) == Some(&b'\n') || b.get(i + 1) == Some(&b'\r') => i += 2,
            _ => return false,
        }
    }
    true
}

fn check_order(code: &str, ts: &[Tok]) -> Result<(), String> {
    let mut end = 0;
    for (k, t) in ts.iter().enumerate() {
        if t.start < end {
            return Err(format!("token {k} {t:?} starts before {end}, the end of the one before it"));
        }
        if t.end > code.len() || !code.is_char_boundary(t.start) || !code.is_char_boundary(t.end) {
            return Err(format!("token {k} {t:?} is not on character boundaries inside the text"));
        }
        let gap = &code[end..t.start];
        if !is_trivia(gap) {
            return Err(format!("text {gap:?} before token {k} {t:?} belongs to no token"));
        }
        let zero = t.is(Indent) || t.is(Dedent) || t.is(ErrorDedent) || t.is(Endmarker);
        if zero != (t.start == t.end) {
            return Err(format!("token {k} {t:?} has a wrong length for its kind"));
        }
        if t.is(Endmarker) != (k + 1 == ts.len()) {
            return Err("the end marker is not the last token, or missing".into());
        }
        if t.is(NeverMatch) {
            return Err("a token kind that is never generated".into());
        }
        end = t.end;
    }
    match ts.last() {
        Some(t) if t.start == code.len() => Ok(()),
        Some(t) => Err(format!("the end marker is at {} of {}", t.start, code.len())),
        None => Err("no tokens".into()),
    }
}

/// Indentation width of the logical line whose first token starts at `pos`; `from` is the end of the
/// token before it. None where the text has a construct whose width Python does not define
/// (a continuation at the start of a line, followed by a blank or comment line).
fn width(code: &str, from: usize, pos: usize) -> Option<usize> {
    // the physical line the logical line begins on
    let gap = &code[from..pos];
    let mut line_start = from;
    let mut i = 0;
    let b = gap.as_bytes();
    let mut w = 0;
    let mut after_cont = false;
    while i < b.len() {
        match b[i] {
            b'\n' | b'\r' => {
                if after_cont {
                    return None;
                }
                w = 0;
                line_start = from + i + 1;
                i += 1;
            }
            b'#' => {
                if after_cont {
                    return None;
                }
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
                w = 0;
            }
            b'\\' => {
                after_cont = true;
                i += if b.get(i + 1) == Some(&b'\r') && b.get(i + 2) == Some(&b'\n') { 3 } else { 2 };
            }
            _ => {
                if !after_cont {
                    w += 1;
                }
                i += 1;
            }
        }
    }
    let _ = line_start;
    Some(w)
}

const BREAK: &[&str] = &[
    "import", "class", "def", "try", "except", "finally", "while", "with", "return", "continue", "break", "del", "pass", "global", "assert", "nonlocal", ";",
];

fn check_indent(code: &str, ts: &[Tok]) -> Result<(), String> {
    let mut stack: Vec<Option<usize>> = vec![Some(0)]; // None: width not defined by the model
    let mut line_start = true;
    let mut level = 0usize;
    let mut unsure = false; // inside or after an f-string on this logical line
    let mut k = 0;
    let mut prev_end = 0;
    while k < ts.len() {
        let mut ind: Vec<Tok> = vec![];
        while ts[k].is(Indent) || ts[k].is(Dedent) || ts[k].is(ErrorDedent) {
            ind.push(ts[k]);
            k += 1;
            if k == ts.len() {
                return Err("indentation token last".into());
            }
        }
        let t = ts[k];
        let text = &code[t.start..t.end];
        let kinds: Vec<u16> = ind.iter().map(|x| x.ty).collect();
        if t.is(Endmarker) {
            let want = vec![Dedent as u16; stack.len() - 1];
            if kinds != want {
                return Err(format!("{} blocks are open at the end marker, closed by {kinds:?}", stack.len() - 1));
            }
        } else if line_start {
            let w = width(code, prev_end, t.start);
            let mut want = vec![];
            let known = w.is_some() && stack.iter().all(|x| x.is_some());
            if let (Some(w), true) = (w, known) {
                if w > stack.last().unwrap().unwrap() {
                    stack.push(Some(w));
                    want.push(Indent as u16);
                } else {
                    while w < stack.last().unwrap().unwrap() {
                        if w > stack[stack.len() - 2].unwrap() {
                            *stack.last_mut().unwrap() = Some(w);
                            want.push(ErrorDedent as u16);
                        } else {
                            stack.pop();
                            want.push(Dedent as u16);
                        }
                    }
                }
                if kinds != want {
                    return Err(format!(
                        "line of width {w} at byte {}: indentation tokens {kinds:?}, expected {want:?} (8 = Indent, 9 = Dedent, 10 = inconsistent dedent)",
                        t.start
                    ));
                }
            } else {
                for &x in &kinds {
                    if x == Indent as u16 {
                        stack.push(None);
                    } else if x == Dedent as u16 {
                        if stack.len() < 2 {
                            return Err("a block closes that was never opened".into());
                        }
                        stack.pop();
                    } else {
                        if stack.len() < 2 {
                            return Err("an inconsistent dedent without an open block".into());
                        }
                        *stack.last_mut().unwrap() = None;
                    }
                }
            }
        } else {
            // inside a logical line: only recovery at a statement keyword on a new line, inside brackets
            let is_break = BREAK.contains(&text) && (t.is(Name) || t.is(Operator));
            let mut w = 0;
            let mut new_line = false;
            for c in code[..t.start].chars().rev() {
                if c == ' ' || c == '\t' {
                    w += 1;
                } else {
                    new_line = c == '\n' || c == '\r';
                    break;
                }
            }
            let mut want = vec![];
            if is_break && new_line && level > 0 && !unsure {
                if let Some(&Some(top)) = stack.last() {
                    if w < top {
                        match stack[stack.len() - 2] {
                            Some(s) if w > s => {
                                *stack.last_mut().unwrap() = Some(w);
                                want.push(ErrorDedent as u16);
                            }
                            Some(_) => {
                                stack.pop();
                                want.push(Dedent as u16);
                            }
                            None => unsure = true,
                        }
                    }
                } else {
                    unsure = true;
                }
            }
            if unsure && is_break && new_line {
                if kinds.len() > 1 || kinds.iter().any(|x| *x == Indent as u16) {
                    return Err(format!("indentation tokens {kinds:?} inside a logical line at byte {}", t.start));
                }
                if let Some(&x) = kinds.first() {
                    if stack.len() < 2 {
                        return Err("a block closes that was never opened".into());
                    }
                    if x == Dedent as u16 {
                        stack.pop();
                    } else {
                        *stack.last_mut().unwrap() = Some(w);
                    }
                }
            } else if kinds != want {
                return Err(format!("inside a logical line at byte {}: indentation tokens {kinds:?}, expected {want:?}", t.start));
            }
            if is_break {
                level = 0;
                unsure = false;
            }
        }
        line_start = t.is(Newline);
        if t.is(FStringStart) {
            unsure = true;
        }
        if t.is(Newline) {
            if level > 0 && !unsure {
                return Err(format!("a logical line ends inside brackets at byte {}", t.start));
            }
            level = 0;
            unsure = false;
        }
        if t.is(Operator) {
            match text {
                "(" | "[" | "{" => level += 1,
                ")" | "]" | "}" => level = level.saturating_sub(1),
                _ => {}
            }
        }
        // outside brackets, a line break after content must end the logical line
        if let Some(n) = ts.get(k + 1) {
            let gap = &code[t.end..n.start];
            if !line_start && level == 0 && !unsure && !(n.is(Endmarker) || n.is(Dedent)) {
                let g = gap.replace("\\\r\n", "").replace("\\\n", "").replace("\\\r", "");
                if g.contains('\n') || g.contains('\r') {
                    return Err(format!("no end-of-line token for the line break before byte {}", n.start));
                }
            }
        }
        prev_end = t.end;
        k += 1;
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "source texts (any UTF-8); non-trivial: at least three bytes and not only letters".into();
    let c02 = r.prop == "C02";
    let one = |r: &mut Run, s: &str| {
        let nt = s.len() > 2 && !s.chars().all(|c| c.is_alphabetic());
        r.case(s, nt, || {
            let ts = tokens(s)?;
            if c02 { check_indent(s, &ts) } else { check_order(s, &ts) }
        });
    };
    for s in ["        a\n  \\\n#é\nb", "        a\n  \\\nb", " \\\nfoo\n\\\n bar", "if x:\n    y(\n  class"] {
        one(r, s);
    }
    if !c02 {
        for (p, m, q) in [("(", "\n", ")"), ("", "\\\n", "a"), ("(", "\\\n", ")"), ("f'''{", "\n", "}'''"), ("", "f'\n", ""), ("", "(\n", "")] {
            let s = format!("{p}{}{q}", m.repeat(60_000));
            one(r, &s);
        }
    }
    let depth = if r.thorough { 7 } else { 6 };
    generate::all(r, depth, 0.6, &mut |r, s| one(r, s));
}
