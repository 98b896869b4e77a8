//! C06, C07: literal decoding against an independent decoder; C08: docstrings.
use common::*;
use parsa_python::{NonterminalType, PyNodeType, TerminalType};
use parsa_python_cst::{PythonString, Tree, parse_python_bytes_literal};

/// prefix, quotes and raw marker of a literal token
fn split(lit: &str) -> (usize, usize, bool) {
    let p = lit.find(['\'', '"']).unwrap();
    let raw = lit[..p].contains(['r', 'R']);
    let q = &lit[p..];
    let n = if q.len() >= 6 && (q.starts_with("'''") || q.starts_with("\"\"\"")) { 3 } else { 1 };
    (p + n, lit.len() - n, raw)
}

/// What CPython computes. Source line endings are normalised first. Malformed escapes (an error in
/// CPython), escapes of surrogates and named characters stay as they are written.
fn decode(inner: &str, raw: bool, bytes: bool) -> Vec<u32> {
    let src: Vec<char> = inner.replace("\r\n", "\n").replace('\r', "\n").chars().collect();
    let mut out = vec![];
    let push = |out: &mut Vec<u32>, c: char| {
        if bytes {
            let mut b = [0; 4];
            out.extend(c.encode_utf8(&mut b).bytes().map(u32::from));
        } else {
            out.push(c as u32)
        }
    };
    let mut i = 0;
    while i < src.len() {
        let c = src[i];
        if raw || c != '\\' || i + 1 == src.len() {
            push(&mut out, c);
            i += 1;
            continue;
        }
        let e = src[i + 1];
        let hex = |n: usize| -> Option<u32> {
            let d = src.get(i + 2..i + 2 + n)?;
            if !d.iter().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            let v = u64::from_str_radix(&d.iter().collect::<String>(), 16).ok()?;
            char::from_u32(u32::try_from(v).ok()?).map(|c| c as u32)
        };
        let simple = match e {
            '\n' => Some(vec![]),
            '\\' | '\'' | '"' => Some(vec![e as u32]),
            'a' => Some(vec![7]),
            'b' => Some(vec![8]),
            't' => Some(vec![9]),
            'n' => Some(vec![10]),
            'v' => Some(vec![11]),
            'f' => Some(vec![12]),
            'r' => Some(vec![13]),
            _ => None,
        };
        if let Some(v) = simple {
            out.extend(v);
            i += 2;
        } else if e.is_digit(8) {
            let mut j = i + 1;
            let mut v = 0;
            while j < src.len() && j < i + 4 && src[j].is_digit(8) {
                v = v * 8 + src[j].to_digit(8).unwrap();
                j += 1;
            }
            out.push(if bytes { v & 255 } else { v });
            i = j;
        } else {
            let n = match e {
                'x' => 2,
                'u' if !bytes => 4,
                'U' if !bytes => 8,
                _ => 0,
            };
            match hex(n) {
                Some(v) if n > 0 => {
                    out.push(v);
                    i += 2 + n;
                }
                _ => {
                    push(&mut out, '\\');
                    push(&mut out, e);
                    i += 2;
                }
            }
        }
    }
    out
}

fn show(v: &[u32]) -> String {
    v.iter().map(|&c| char::from_u32(c).map_or("?".into(), |c| c.escape_default().to_string())).collect()
}

fn check(src: &str, bytes: bool) -> Result<(), String> {
    let tree = parsa_python::parse(src.into());
    for n in tree.nodes() {
        let t = n.type_();
        let lit = n.as_code();
        if bytes && t == PyNodeType::Terminal(TerminalType::Bytes) {
            let (a, b, raw) = split(lit);
            let want = decode(&lit[a..b], raw, true);
            let got: Vec<u32> = parse_python_bytes_literal(n).iter().map(|&b| b as u32).collect();
            if got != want {
                return Err(format!("{lit:?} decodes to b\"{}\", expected b\"{}\"", show(&got), show(&want)));
            }
        }
        if !bytes && t == PyNodeType::Terminal(TerminalType::String) {
            let (a, b, raw) = split(lit);
            let want = decode(&lit[a..b], raw, false);
            let got = PythonString::from_literal(n);
            let (start, s) = match &got {
                PythonString::Ref(i, s) => (*i, s.to_string()),
                PythonString::String(i, s) => (*i, s.clone()),
                PythonString::FString => return Err(format!("{lit:?} is taken for an f-string")),
            };
            if start as usize != n.start() as usize + a {
                return Err(format!("{lit:?}: its content starts at {start}, expected {}", n.start() as usize + a));
            }
            let s: Vec<u32> = s.chars().map(|c| c as u32).collect();
            if s != want {
                return Err(format!("{lit:?} decodes to \"{}\", expected \"{}\"", show(&s), show(&want)));
            }
        }
        if !bytes && t == PyNodeType::Nonterminal(NonterminalType::strings) {
            let mut want = Some(vec![]);
            for c in n.iter_children() {
                if c.type_() == PyNodeType::Terminal(TerminalType::String) {
                    let (a, b, raw) = split(c.as_code());
                    if let Some(w) = &mut want {
                        w.extend(decode(&c.as_code()[a..b], raw, false));
                    }
                } else {
                    want = None;
                }
            }
            let p = PythonString::new(n.iter_children());
            let got: Option<Vec<u32>> = p.as_str().map(|s| s.chars().map(|c| c as u32).collect());
            if got != want {
                return Err(format!("{lit:?} decodes to {:?}, expected {:?}", got.as_deref().map(show), want.as_deref().map(show)));
            }
            if p.into_cow_str().map(|s| s.chars().map(|c| c as u32).collect::<Vec<_>>()) != want {
                return Err(format!("{lit:?}: into_cow_str differs from as_str"));
            }
        }
    }
    Ok(())
}

const PIECES: &[&str] = &[
    "\\", "x", "4", "1", "é", "'", "\n", "\r", "\r\n", "u", "U", "N", "0", "7", "8", "a", "f", "\\x41", "\\u00e9", "\\U0001F600", "\\U00110000", "\\ud800", "\\N{DASH}", "\\101", "\\777", "\\\n",
    "\\\r\n", "\\\r", "\\x", "\\x4", "\\u12", "\\é", "𝒳", "\"", " ", "\\\\", "\\'", "\\\"", "\\a\\b\\t\\n\\v\\f\\r", "{", "g", "F", "\\0", "\\08",
];
const PREFIXES: &[&str] = &["", "r", "R", "u", "U", "t"];
const BPREFIXES: &[&str] = &["b", "B", "br", "Rb", "rB", "BR"];
const QUOTES: &[&str] = &["'", "\"", "'''", "\"\"\""];

pub fn run(r: &mut Run) {
    let bytes = r.prop == "C07";
    r.rule = "literals built from escape pieces, with every prefix and quote, also adjacent literals; non-trivial: contains a backslash or carriage return".into();
    let one = |r: &mut Run, s: &str| {
        r.case(s, s.contains(['\\', '\r']), || check(s, bytes));
    };
    let pre = if bytes { BPREFIXES } else { PREFIXES };
    r.enumerating = true;
    let al1 = ["\\", "x", "4", "é", "\n", "\r", "0", "u", "'", "g"];
    let al2 = ["\\", "U", "1", "N", "\\x", "a", "\"", "7", "\r\n", "f"];
    let mut complete = true;
    for al in [&al1, &al2] {
        for (k, p, q) in [(0, pre[0], "'"), (1, pre[0], "\"\"\""), (2, pre[if bytes { 2 } else { 1 }], "'''")] {
            let d = if k == 2 { 3 } else if r.thorough { 6 } else { 5 };
            complete &= words(al, d, &mut |w| {
                one(r, &format!("{p}{q}{w}{q}"));
                r.time_left() && r.frac() < 0.7
            });
        }
    }
    for h in 0..=0x1ffu32 {
        for p in [format!("\\x{h:02x}"), format!("\\{h:o}"), format!("\\u{:04x}", h * 131), format!("\\U{:08X}", h * 5123), format!("\\{}", char::from_u32(h).unwrap())] {
            for w in [p.clone(), format!("{p}1"), format!("é{p}é"), format!("{p}\\x41")] {
                for q in ["'", "\"\"\""] {
                    one(r, &format!("{}{q}{w}{q}", pre[0]));
                }
            }
        }
    }
    if complete {
        r.enumerated.push(format!("all contents of up to {} pieces from {al1:?} and {al2:?}; every \\x, octal and single-character escape", if r.thorough { 6 } else { 5 }));
    }
    r.enumerating = false;
    while r.time_left() {
        let mut g = r.rng.clone();
        let mut s = String::new();
        for k in 0..g.range(1, 3) {
            if k > 0 {
                s.push_str(*g.pick(&[" ", "", "\\\n"]));
            }
            let p = *g.pick(pre);
            let q = *g.pick(QUOTES);
            s.push_str(p);
            s.push_str(q);
            s.push_str(&random_word(&mut g, PIECES, 8));
            s.push_str(q);
        }
        r.rng = g;
        one(r, &s);
    }
}

/// A docstring, cleaned: its value dedented, then nothing but whitespace removed at the two ends.
pub fn check_doc(body: &str) -> Result<(), String> {
    let src = format!("\"\"\"{body}\"\"\"\n");
    let tree = Tree::parse(src.clone().into());
    let got = tree.root().clean_docstring().into_owned();
    let value: String = decode(body, false, false).into_iter().map(|c| char::from_u32(c).unwrap()).collect();
    let lines: Vec<&str> = value.split('\n').collect();
    let lead = |l: &str| l.chars().take_while(|c| c.is_whitespace()).count();
    let amount = lines.iter().filter(|l| !l.trim().is_empty()).map(|l| lead(l)).min().unwrap_or(0);
    let d = lines.iter().map(|l| if l.trim().is_empty() { String::new() } else { l.chars().skip(amount).collect() }).collect::<Vec<String>>().join("\n");
    // blank lines may keep whitespace: compare with it removed
    let norm = |t: &str| t.trim().split('\n').map(|l| if l.trim().is_empty() { "" } else { l }).collect::<Vec<_>>().join("\n");
    if norm(&got) != norm(&d) {
        return Err(format!("docstring {value:?} is cleaned to {got:?}, dedented it is {d:?}"));
    }
    Ok(())
}
