//! Source texts: exhaustive words over small alphabets, then random mixes.
use common::*;

const SETS: &[&[&str]] = &[
    &["\n", " ", "  ", "a", "#", "\\", "é", "("],
    &["\n", " ", "x:", "\\\n", "#é\n", ")", "[", ";"],
    &["\n", "    ", "  ", "a", "if x:", "(", ")", "def", "class"],
    &["f'", "'", "{", "}", ":", "a", "\n", "é", "\\"],
    &["f\"\"\"", "\"\"\"", "\"", "f'", "'", "{", "}", "\n", "!r"],
    &["f'", "'", "\\N", "{", "}", "{a b}", "é", "\"", "\n"],
    &["\r", "\n", "\\", " ", "a", "\t", "\x0c", "#"],
    &["'", "\"", "\\", "b", "r", "\n", "é", "u"],
    &["1", ".", "e", "_", "j", "0x", "-", "é", "²"],
    &["f'{", "(", ")", "x", ":", "=", "}'", "\n", "f'"],
    &["\u{feff}", "\0", "€", "𝒳", "ǅ", "_", "\u{a0}", "\u{2028}", "a"],
    &["match x:\n", " case ", "_", ":\n", "  pass\n", "type ", "a", "=", "\n"],
    &["@", "def f(", "):", "\n", "  ", "x", ",", "return ", "lambda:"],
    &["class A:", "\n", "  ", "\"\"\"d\"\"\"", "x=1", ";", "async ", "with a", ":"],
    &["import ", "from ", ".", "a", "*", ",", "(", ")", "\n"],
    &["try:", "\n", " ", "pass", "except", "finally", "else", ":", "a"],
    &["[", "]", "{", "}", "(", ")", "*", "**", ",", "a", ":", " for x in y"],
];

const MIX: &[&str] = &[
    "\n", "\n", "\n", "\n    ", "\n  ", "\n        ", "\n\t", "\r\n", "\r", " ", "  ", "    ", "\t", "\x0c", "\\\n", "\\\r\n", "\\\r", "\\",
    "#c\n", "# é", "#", "a", "b", "foo", "é", "𝒳y", "_", "1", "0x1f", "1.5e3", "1j", "...", ".", ",", ";", ":", ":=", "=", "==", "->",
    "(", ")", "[", "]", "{", "}", "'", "\"", "'s'", "\"t\"", "'''x\ny'''", "b'x'", "rb'\\'", "r'\\d'", "u'é'", "f'", "f\"", "f'''", "f\"\"\"",
    "'''", "\"\"\"", "f'{x}'", "f'{x:{y}}'", "f'{x!r:>{w}}'", "{x}", "{{", "}}", "!r", "\\N{DASH}", "\\x41", "\\'", "\\u00e9",
    "def f(a, b=1, *c, d, **e) -> int:", "def f():", "class A(B):", "class A:", "if x:", "elif y:", "else:", "while x:", "for a in b:", "try:",
    "except E as e:", "except* E:", "finally:", "with a as b, c:", "with (a as b):", "async def f():", "async for x in y:", "await x", "lambda x: y", "return ", "yield ", "yield from ",
    "pass", "break", "continue", "del a, b", "global a", "nonlocal a", "assert x, y", "raise x from y", "import a.b as c", "from . import x",
    "from a import (b, c)", "from .. import *", "@dec", "x: int = 3", "a = b = c", "a, *b = c", "a += 1", "x if y else z", "not a in b", "a is not b",
    "match x:", "case [a, *b]:", "case {\"k\": v, **r}:", "case A(x=1) | None if g:", "case -1+2j:", "type X[T] = int", "def f[T: int, *Ts, **P](x: T): ...", "[x for x in y if z]",
    "{a: b for a in c}", "{1, 2}", "{**a, 'b': 1}", "(x for x in y)", "a[1:2, ::3]", "f(a, *b, c=1, **d)", "**", "//", ">>=", "~", "@", "!", "$", "?", "`", "\u{feff}", "\0", "²", "\u{a0}", "\u{2028}",
    "print", "None", "True", "__debug__", "if", "in", "is", "and", "or", "not", "def", "class", "import", "from", "as", "else", "except", "with", "async", "await",
];

const STMTS: &[&str] = &[
    "x = 1", "foo(a, b)", "return x", "pass", "import os.path as p", "from a import b, c", "x: int = [1, 2,\n3]", "y = f'{a}{b:>{c}} {{}}'",
    "assert a, 'é'", "del x", "a = lambda x, *y: (x, y)", "'''doc\nstring'''", "b = b'\\x00'", "z = x if y else w", "raise E from e", "global g",
    "a, *b = c", "t = (1,)", "d = {**x, 'a': 1}", "s = 'a' \"b\" f'{c}'", "x @= y", "print(*a, **k)", "i = a[1:2, ::3]", "yield", "await z", "...",
    "a = 1; b = 2", "x = (\n  1 +\n  2\n)", "y = 1 + \\\n  2", "# comment é", "", "type X = int", "n = 0x1F + 1_000.5e-3j", "foo(", "x = ]", "'unterminated", "f'{x", "def", "é = 𝒳",
];
const HEADS: &[&str] = &[
    "if x:", "while x:", "for a in b:", "try:", "with a as b:", "def f(a, b=1):", "class A(B):", "async def g():", "else:", "elif y:", "except E as e:", "finally:",
    "match x:", "case [1, a]:", "@dec\ndef h():", "@a.b(c)\nclass C:", "if (yield):", "for x in (1,\n 2):", "def broken(:", "class :", "lambda:",
];

fn program(rng: &mut Rng) -> String {
    let nl = *rng.pick(&["\n", "\n", "\n", "\n", "\r\n", "\r"]);
    let unit = *rng.pick(&["    ", "  ", "\t", " "]);
    let mut s = String::new();
    let mut level = 0usize;
    let mut opened = false;
    for _ in 0..rng.range(1, 14) {
        if opened {
            level += 1;
            opened = false;
        } else if level > 0 && rng.chance(1, 3) {
            level -= rng.range(1, level);
        }
        let mut ind = unit.repeat(level);
        if rng.chance(1, 12) {
            ind.push(' ');
        }
        if rng.chance(1, 20) {
            ind = " ".repeat(rng.below(6));
        }
        let l = if rng.chance(2, 5) {
            opened = true;
            rng.pick(HEADS)
        } else {
            rng.pick(STMTS)
        };
        s.push_str(&ind);
        s.push_str(l);
        if opened && rng.chance(1, 4) {
            s.push(' ');
            s.push_str(rng.pick(STMTS));
            opened = false;
        }
        if rng.chance(1, 10) {
            s.push_str("  # c");
        }
        if rng.chance(1, 15) {
            s.push_str(" \\");
        }
        s.push_str(nl);
    }
    if rng.chance(1, 3) {
        while s.ends_with(['\n', '\r']) {
            s.pop();
        }
    }
    s
}

fn mutate(rng: &mut Rng, s: &mut String) {
    for _ in 0..rng.range(1, 3) {
        let bs: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        let a = *rng.pick(&bs);
        match rng.below(4) {
            0 => s.insert_str(a, rng.pick(MIX)),
            1 => {
                let b = *rng.pick(&bs);
                let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 12));
                if s.is_char_boundary(b) {
                    s.replace_range(a..b, "");
                }
            }
            2 => {
                let b = *rng.pick(&bs);
                let (a, b) = (a.min(b), a.max(b));
                let t = s[a..b].to_string();
                s.insert_str(b, &t);
            }
            _ => s.truncate(a),
        }
    }
}

pub fn all(r: &mut Run, depth: usize, share: f64, f: &mut dyn FnMut(&mut Run, &str)) {
    let n = SETS.len();
    r.enumerating = true;
    for (k, al) in SETS.iter().enumerate() {
        let end = share * (k + 1) as f64 / n as f64;
        let mut done = 0;
        for d in 1..=depth {
            let ok = words(al, d, &mut |w| {
                f(r, w);
                r.time_left() && r.frac() < end
            });
            if !ok {
                break;
            }
            done = d;
        }
        if done > 0 {
            r.enumerated.push(format!("all texts of up to {done} pieces from {al:?}"));
        }
    }
    r.enumerating = false;
    while r.time_left() {
        let mut g = r.rng.clone();
        let mut s = match g.below(5) {
            0 => random_word(&mut g, MIX, 25),
            1 => {
                let al = *g.pick(SETS);
                random_word(&mut g, al, 16)
            }
            _ => program(&mut g),
        };
        if g.chance(1, 2) {
            mutate(&mut g, &mut s);
        }
        r.rng = g;
        f(r, &s);
    }
}
