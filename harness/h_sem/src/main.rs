//! C16: the real semantic_tokens.rs of the language server, compiled from /repo.
use common::*;
#[path = "/repo/crates/zubanls/src/semantic_tokens.rs"]
#[allow(dead_code, unused, unfulfilled_lint_expectations)]
mod semantic_tokens;
use lsp_types::{Position, SemanticTokenModifier as M};
use semantic_tokens::*;
use zuban_python::SemanticTokenProperties;

#[derive(Clone, Debug, PartialEq)]
struct Tok {
    line: u32,
    ch: u32,
    len: u32,
    ty: usize,
    mods: u32, // bit k: k-th property in NAMES
}
const NAMES: [(&str, fn(&mut SemanticTokenProperties)); 8] = [
    ("definition", |p| p.definition = true),
    ("declaration", |p| p.declaration = true),
    ("defaultLibrary", |p| p.in_stdlib = true),
    ("readonly", |p| p.read_only = true),
    ("static", |p| p.static_ = true),
    ("deprecated", |p| p.deprecated = true),
    ("abstract", |p| p.abstract_ = true),
    ("async", |p| p.async_ = true),
];

fn check(toks: &[Tok]) -> Result<(), String> {
    let mut b = SemanticTokensBuilder::new();
    for t in toks {
        let mut p = SemanticTokenProperties::default();
        for (k, (_, set)) in NAMES.iter().enumerate() {
            if t.mods >> k & 1 == 1 {
                set(&mut p);
            }
        }
        b.push(Position { line: t.line, character: t.ch }, t.len, SUPPORTED_TYPES[t.ty].clone(), p);
    }
    let data = b.build().data;
    if data.len() != toks.len() {
        return Err(format!("{} tokens became {}", toks.len(), data.len()));
    }
    // what a client does
    let (mut line, mut ch) = (0u64, 0u64);
    for (k, (d, t)) in data.iter().zip(toks).enumerate() {
        line += d.delta_line as u64;
        ch = if d.delta_line == 0 { ch + d.delta_start as u64 } else { d.delta_start as u64 };
        if (line, ch) != (t.line as u64, t.ch as u64) {
            return Err(format!("token {k} is decoded at {line}:{ch}, it was reported at {}:{}", t.line, t.ch));
        }
        if d.length != t.len {
            return Err(format!("token {k} has length {}, reported {}", d.length, t.len));
        }
        let ty = SUPPORTED_TYPES.get(d.token_type as usize).map(|t| t.as_str());
        if ty != Some(SUPPORTED_TYPES[t.ty].as_str()) {
            return Err(format!("token {k} has type {ty:?}, reported {:?}", SUPPORTED_TYPES[t.ty]));
        }
        let mut got: Vec<String> = (0..32).filter(|i| d.token_modifiers_bitset >> i & 1 == 1).map(|i| SUPPORTED_MODIFIERS.get(i).map_or(format!("#{i}"), |m| m.as_str().to_string())).collect();
        let mut want: Vec<String> = (0..NAMES.len()).filter(|i| t.mods >> i & 1 == 1).map(|i| NAMES[i].0.to_string()).collect();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("token {k} has the modifiers {got:?}, reported {want:?}"));
        }
    }
    Ok(())
}

/// the legend: no name twice, few enough for the bit set
fn legend() -> Result<(), String> {
    for (k, t) in SUPPORTED_TYPES.iter().enumerate() {
        if SUPPORTED_TYPES[..k].contains(t) {
            return Err(format!("token type {t:?} is in the legend twice"));
        }
    }
    for (k, t) in SUPPORTED_MODIFIERS.iter().enumerate() {
        if SUPPORTED_MODIFIERS[..k].contains(t) {
            return Err(format!("modifier {t:?} is in the legend twice"));
        }
    }
    if SUPPORTED_MODIFIERS.len() > 32 {
        return Err("more modifiers than bits".into());
    }
    // adding modifiers in any order gives exactly these
    let n = SUPPORTED_MODIFIERS.len();
    for set in 0..1u32 << n.min(10) {
        let mut m = ModifierSet::default();
        for i in (0..n).rev().filter(|i| set >> i & 1 == 1) {
            m |= SUPPORTED_MODIFIERS[i].clone();
            m |= SUPPORTED_MODIFIERS[i].clone();
        }
        if m.0 != set {
            return Err(format!("the modifier set {set:b} is stored as {:b}", m.0));
        }
    }
    let _: &M = &SUPPORTED_MODIFIERS[0];
    Ok(())
}

fn main() {
    let mut r = Run::from_args();
    r.rule = "lists of tokens in document order; non-trivial: at least two tokens".into();
    r.case("legend", true, legend);
    let ntypes = SUPPORTED_TYPES.len();
    r.enumerating = true;
    // every list of up to 4 tokens over a small grid
    let grid: Vec<(u32, u32)> = (0..3).flat_map(|l| (0..3).map(move |c| (l, c))).collect();
    fn rec(r: &mut Run, grid: &[(u32, u32)], from: usize, cur: &mut Vec<Tok>, nt: usize) {
        let c = cur.clone();
        r.case(&format!("{cur:?}"), cur.len() > 1, || check(&c));
        if cur.len() == 5 {
            return;
        }
        for i in from..grid.len() {
            let k = cur.len();
            cur.push(Tok { line: grid[i].0, ch: grid[i].1, len: (k as u32 * 3) % 5, ty: (i * 7 + k) % nt, mods: ((i * 37 + k * 91) % 256) as u32 });
            rec(r, grid, i, cur, nt);
            cur.pop();
        }
    }
    rec(&mut r, &grid, 0, &mut vec![], ntypes);
    for ty in 0..ntypes {
        for mods in 0..256 {
            let t = vec![Tok { line: 0, ch: 0, len: 1, ty, mods }];
            r.case(&format!("{t:?}"), false, || check(&t));
        }
    }
    r.enumerated.push("all lists of up to 5 tokens on a 3x3 grid; every type with every modifier set".into());
    r.enumerating = false;
    while r.time_left() {
        let mut g = r.rng.clone();
        let n = g.range(0, 30);
        let big = g.chance(1, 4);
        let mut v: Vec<Tok> = (0..n)
            .map(|_| {
                let s = if big { u32::MAX as usize } else { 12 };
                Tok { line: g.below(s + 1) as u32, ch: g.below(s + 1) as u32, len: g.below(s + 1) as u32, ty: g.below(ntypes), mods: g.below(256) as u32 }
            })
            .collect();
        v.sort_by_key(|t| (t.line, t.ch));
        r.rng = g;
        r.case(&format!("{v:?}"), n > 1, || check(&v));
    }
    r.finish()
}
