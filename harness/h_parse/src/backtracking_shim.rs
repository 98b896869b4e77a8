//! C05: the real backtracking.rs, included, driven by histories the parser may produce.
#[path = "/repo/crates/parsa/src/backtracking.rs"]
#[allow(dead_code)]
mod backtracking;
use backtracking::BacktrackingTokenizer;
use common::*;
use parsa::{InternalNode, InternalSquashedType, InternalTerminalType};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Tk(u32, u32);
impl parsa::Token for Tk {
    fn start_index(&self) -> u32 {
        self.0
    }
    fn length(&self) -> u32 {
        self.1
    }
    fn type_(&self) -> InternalTerminalType {
        InternalTerminalType(0)
    }
    fn can_contain_syntax(&self) -> bool {
        true
    }
}

/// ops: n = next, s = start, r<k> = rewind to the k-th remembered point (and read it, as the parser
/// does), p = stop, l<k> = rewind to just after the recorded token k steps back
fn history(len: usize, ops: &[(u8, usize)]) -> Result<(), String> {
    // like the tokenizer's: tokens of length zero (indent, dedent) start where the next one starts
    let mut at = 0;
    let toks: Vec<Tk> = (0..len)
        .map(|i| {
            let t = Tk(at, if (i + len) % 4 == 3 || (len % 3 == 2 && i % 3 == 1) { 0 } else { 1 + (i % 2) as u32 });
            at += t.1 + if t.1 == 0 { 0 } else { (i % 2) as u32 };
            t
        })
        .collect();
    let mut b = BacktrackingTokenizer::new(toks.clone().into_iter());
    let mut pos = 0usize; // of the next token
    let mut points: Vec<(usize, usize)> = vec![]; // (handle, position of the token it stands for)
    let mut recording = false;
    let mut oldest = 0usize; // first recorded token
    let read = |b: &mut BacktrackingTokenizer<Tk, _>, pos: &mut usize, what: &str| -> Result<(), String> {
        let got = b.next();
        let want = toks.get(*pos).copied();
        *pos += 1;
        if got != want { Err(format!("{what}: got token {got:?}, expected {want:?}")) } else { Ok(()) }
    };
    for (k, &(op, x)) in ops.iter().enumerate() {
        match op {
            b'n' => read(&mut b, &mut pos, &format!("step {k}"))?,
            b's' => {
                // the parser starts at the token it has just read
                if pos == 0 || pos > len {
                    continue;
                }
                let h = b.start(&toks[pos - 1]);
                if !recording {
                    points.clear();
                    oldest = pos - 1;
                }
                recording = true;
                points.push((h, pos - 1));
            }
            b'r' => {
                if points.is_empty() || !recording {
                    continue;
                }
                let i = x % points.len();
                let (h, p) = points[i];
                points.truncate(i + 1);
                b.reset(h);
                pos = p;
                read(&mut b, &mut pos, &format!("step {k}, first token after the rewind"))?;
            }
            b'p' => {
                b.stop();
                recording = false;
                points.clear();
            }
            b'l' => {
                if !recording {
                    continue;
                }
                let Some(p) = pos.min(len).checked_sub(1 + x % 3) else { continue };
                if p < oldest || toks[p].1 == 0 {
                    continue;
                }
                let leaf = InternalNode { next_node_offset: 0, type_: InternalSquashedType(0), start_index: toks[p].0, length: toks[p].1 };
                b.reset_to_last_leaf(&leaf);
                pos = p + 1;
                points.retain(|q| q.1 <= p);
            }
            _ => {}
        }
    }
    while pos < len + 1 {
        read(&mut b, &mut pos, "reading on to the end")?;
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "histories of next/start/rewind/stop/rewind-to-leaf as the parser may issue them; non-trivial: contains a start and a rewind".into();
    let al: &[(u8, usize)] = &[(b'n', 0), (b's', 0), (b'r', 0), (b'r', 1), (b'p', 0), (b'l', 0), (b'l', 1)];
    fn show(len: usize, ops: &[(u8, usize)]) -> String {
        format!("{len} tokens: {}", ops.iter().map(|o| format!("{}{}", o.0 as char, if o.0 == b'r' || o.0 == b'l' { o.1.to_string() } else { String::new() })).collect::<Vec<_>>().join(" "))
    }
    fn one(r: &mut Run, len: usize, ops: &[(u8, usize)]) {
        let nt = ops.iter().any(|o| o.0 == b's') && ops.iter().any(|o| o.0 == b'r' || o.0 == b'l');
        let s = show(len, ops);
        r.case(&s, nt, || history(len, ops));
    }
    fn all(r: &mut Run, len: usize, al: &[(u8, usize)], cur: &mut Vec<(u8, usize)>, n: usize) {
        one(r, len, cur);
        if n == 0 || !r.time_left() {
            return;
        }
        for &a in al {
            cur.push(a);
            all(r, len, al, cur, n - 1);
            cur.pop();
        }
    }
    r.enumerating = true;
    let depth = if r.thorough { 8 } else { 7 };
    for len in [3, 5] {
        all(r, len, al, &mut vec![], depth);
    }
    if r.time_left() {
        r.enumerated.push(format!("all histories of up to {depth} operations over streams of 3 and 5 tokens"));
    }
    r.enumerating = false;
    while r.time_left() {
        let n = r.rng.range(5, 60);
        let len = r.rng.range(0, 40);
        let mut ops = vec![];
        for _ in 0..n {
            let op = *r.rng.pick(b"nnnnsrlp");
            ops.push((op, r.rng.below(6)));
        }
        one(r, len, &ops);
    }
}
