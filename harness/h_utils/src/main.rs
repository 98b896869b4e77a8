use common::*;
use utils::*;

fn main() {
    let mut r = Run::from_args();
    match r.prop.as_str() {
        "C14" => c14(&mut r),
        p => panic!("unknown {p}"),
    }
    r.finish()
}

// ---------------------------------------------------------------- C14
fn check_chain(items: &[u8]) -> Result<(), String> {
    fn go(items: &[u8], i: usize, node: &AlreadySeen<u8>, seen: &[u8]) -> Result<(), String> {
        // node.current == items[i-1], seen = items[..i]
        let anc: Vec<u8> = node.iter_ancestors().copied().collect();
        let mut want: Vec<u8> = seen[..seen.len() - 1].to_vec();
        want.reverse();
        if anc != want {
            return Err(format!("ancestors of {seen:?} enumerated as {anc:?}, expected {want:?}"));
        }
        let cyc = node.is_cycle();
        let wantc = want.contains(&node.current);
        if cyc != wantc {
            return Err(format!("is_cycle() = {cyc} on chain {seen:?} (oldest first), expected {wantc}"));
        }
        if i < items.len() {
            let next = node.append(items[i]);
            if next.current != items[i] {
                return Err("append stored another item".into());
            }
            go(items, i + 1, &next, &items[..i + 1])?;
            let copy = next;
            if copy.is_cycle() != next.is_cycle() {
                return Err("copy of a chain disagrees with the chain".into());
            }
            let again: Vec<u8> = node.iter_ancestors().copied().collect();
            if again != want || node.is_cycle() != wantc {
                return Err(format!("extending chain {seen:?} altered it"));
            }
        }
        Ok(())
    }
    if items.is_empty() {
        return Ok(());
    }
    let first = AlreadySeen::new(items[0]);
    go(items, 1, &first, &items[..1])
}

/// a long chain of distinct items with one repetition (`again` repeats item number `of`)
fn check_deep(n: u32, of: u32) -> Result<(), String> {
    fn go(node: &AlreadySeen<u32>, i: u32, n: u32, of: u32) -> Result<(), String> {
        if node.is_cycle() {
            return Err(format!("is_cycle() on a chain of {i} distinct items"));
        }
        if i < n {
            let next = node.append(i);
            return go(&next, i + 1, n, of);
        }
        let last = node.append(of);
        if last.is_cycle() != (of < n) {
            return Err(format!("is_cycle() = {} when item {of} is pushed on top of the {n} distinct items 0..{n}", last.is_cycle()));
        }
        let anc: Vec<u32> = last.iter_ancestors().copied().collect();
        if !anc.iter().copied().eq((0..n).rev()) {
            return Err(format!("the {n} ancestors are enumerated as {} items", anc.len()));
        }
        Ok(())
    }
    go(&AlreadySeen::new(0), 1, n, of)
}

fn c14(r: &mut Run) {
    r.rule = "chains of items, oldest first; non-trivial: at least two items".into();
    // all chains over 3 items up to length 8
    let mut v: Vec<u8> = vec![];
    fn all(r: &mut Run, v: &mut Vec<u8>, n: usize) {
        let s = format!("{v:?}");
        let w = v.clone();
        r.case(&s, v.len() > 1, move || check_chain(&w));
        if n > 0 {
            for x in 0..3 {
                v.push(x);
                all(r, v, n - 1);
                v.pop();
            }
        }
    }
    all(r, &mut v, 8);
    r.enumerated.push("all chains over 3 distinct items up to length 8".into());
    for n in [20, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 300, 500, 513, 1000, 1025, 1500, 2000, 4000] {
        for of in [0, 1, n / 2, n - 1, n] {
            r.case(&format!("{n} distinct items, then item {of}"), true, move || check_deep(n, of));
        }
    }
    while r.time_left() {
        let n = r.rng.range(1, 60);
        let k = r.rng.range(1, 200);
        let w: Vec<u8> = (0..n).map(|_| r.rng.below(k) as u8).collect();
        let s = format!("{w:?}");
        r.case(&s, n > 1, move || check_chain(&w));
    }
}
