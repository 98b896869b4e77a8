//! C03, C04: the tree of every text.
use crate::generate;
use crate::tokens::{is_trivia, tokens};
use common::*;
use parsa_python::{PyNode, PyTree};

struct Shape {
    parent: Vec<Option<usize>>,
    children: Vec<Vec<usize>>,
    leaves: Vec<usize>,
}

/// The tree read off `iter_children` alone.
fn shape(tree: &PyTree) -> Result<Shape, String> {
    let n = tree.length();
    let mut s = Shape { parent: vec![None; n], children: vec![vec![]; n], leaves: vec![] };
    let mut order = vec![];
    let mut todo = vec![tree.root_node()];
    while let Some(x) = todo.pop() {
        let i = x.index as usize;
        if i >= n {
            return Err(format!("node index {i} of {n}"));
        }
        order.push(i);
        if order.len() > n {
            return Err("a node is a child of two nodes".into());
        }
        let mut ch = vec![];
        for c in x.iter_children() {
            if ch.len() > n {
                return Err(format!("endless children of node {i}"));
            }
            s.parent[c.index as usize] = Some(i);
            s.children[i].push(c.index as usize);
            ch.push(c);
        }
        if x.is_leaf() {
            s.leaves.push(i);
            if !ch.is_empty() {
                return Err("a leaf has children".into());
            }
        } else if ch.is_empty() {
            return Err(format!("inner node {i} has no children"));
        }
        todo.extend(ch.into_iter().rev());
    }
    if order != (0..n).collect::<Vec<_>>() {
        return Err(format!("the nodes reached from the root in source order are not 0..{n}: {:?}", &order[..order.len().min(30)]));
    }
    Ok(s)
}

fn span(x: &PyNode) -> (usize, usize) {
    (x.start() as usize, x.end() as usize)
}

fn expected_code(s: &str) -> String {
    let mut t = s.to_string();
    if !t.ends_with('\n') {
        t.push('\n');
    }
    if t.ends_with("\\\n") || t.ends_with("\\\r\n") {
        t.push('\n');
    }
    t
}

fn check_c03(src: &str) -> Result<(), String> {
    let tree = parsa_python::parse(src.into());
    let code = tree.as_code();
    if code != expected_code(src) {
        return Err(format!("the tree's text is {code:?}"));
    }
    let s = shape(&tree)?;
    let mut at = 0;
    let mut text = String::new();
    for &l in &s.leaves {
        let x = tree.node_by_index(l as u32);
        let (a, b) = span(&x);
        if a < at || b > code.len() || b < a || !code.is_char_boundary(a) || !code.is_char_boundary(b) {
            return Err(format!("leaf {l} spans {a}..{b}, the leaf before it ends at {at}, the text at {}", code.len()));
        }
        if !is_trivia(&code[at..a]) {
            return Err(format!("text {:?} belongs to no leaf", &code[at..a]));
        }
        text.push_str(x.prefix_to_previous_leaf());
        text.push_str(x.as_code());
        at = b;
    }
    if at != code.len() || text != code {
        return Err(format!("the leaves concatenate to {text:?}"));
    }
    let ts = tokens(code)?;
    let ls: Vec<(usize, usize)> = s.leaves.iter().map(|&l| span(&tree.node_by_index(l as u32))).collect();
    let tss: Vec<(usize, usize)> = ts.iter().map(|t| (t.start, t.end)).collect();
    if ls != tss {
        return Err(format!("leaves {ls:?} are not the tokens {tss:?}"));
    }
    for i in 0..tree.length() {
        let x = tree.node_by_index(i as u32);
        if x.is_leaf() {
            continue;
        }
        let (a, b) = span(&x);
        let first = tree.node_by_index(s.children[i][0] as u32);
        let last = tree.node_by_index(*s.children[i].last().unwrap() as u32);
        if i != 0 && a != span(&first).0 {
            return Err(format!("node {i} ({}) starts at {a}, its first child at {}", x.type_str(), span(&first).0));
        }
        if i == 0 && a > span(&first).0 {
            return Err("the root starts after its first child".into());
        }
        if b != span(&last).1 {
            return Err(format!("node {i} ({}) ends at {b}, its last child at {}", x.type_str(), span(&last).1));
        }
        for w in s.children[i].windows(2) {
            if span(&tree.node_by_index(w[0] as u32)).1 > span(&tree.node_by_index(w[1] as u32)).0 {
                return Err(format!("children {w:?} of node {i} overlap"));
            }
        }
    }
    let root = tree.root_node();
    if root.end() as usize != code.len() {
        return Err(format!("the root ends at {} of {}", root.end(), code.len()));
    }
    Ok(())
}

fn idx(x: Option<PyNode>) -> Option<usize> {
    x.map(|n| n.index as usize)
}

fn check_c04(src: &str) -> Result<(), String> {
    let tree = parsa_python::parse(src.into());
    let code = tree.as_code();
    let s = shape(&tree)?;
    let n = tree.length();
    let mut sub_last = vec![0; n]; // last node of the subtree
    for i in (0..n).rev() {
        sub_last[i] = s.children[i].last().map_or(i, |&c| sub_last[c]);
    }
    let fail = |i: usize, what: &str, got: Option<usize>, want: Option<usize>| -> Result<(), String> {
        if got == want { Ok(()) } else { Err(format!("node {i}: {what} is {got:?}, expected {want:?}")) }
    };
    let mut types: Vec<_> = vec![];
    for (k, x) in tree.nodes().enumerate() {
        if x.index as usize != k {
            return Err("nodes() is out of order".into());
        }
    }
    for i in 0..n {
        let x = tree.node_by_index(i as u32);
        fail(i, "index", Some(x.index as usize), Some(i))?;
        fail(i, "parent", idx(x.parent()), s.parent[i])?;
        let sib = s.parent[i].map(|p| (&s.children[p], s.children[p].iter().position(|&c| c == i).unwrap()));
        fail(i, "next sibling", idx(x.next_sibling()), sib.and_then(|(v, k)| v.get(k + 1).copied()))?;
        fail(i, "previous sibling", idx(x.previous_sibling()), sib.and_then(|(v, k)| if k > 0 { Some(v[k - 1]) } else { None }))?;
        fail(i, "next leaf", idx(x.next_leaf()), s.leaves.iter().copied().find(|&l| l > i))?;
        fail(i, "previous leaf", idx(x.previous_leaf()), s.leaves.iter().copied().rev().find(|&l| l < i))?;
        fail(i, "last leaf", Some(x.last_leaf_in_subtree().index as usize), Some(sub_last[i]))?;
        for (k, &c) in s.children[i].iter().enumerate() {
            fail(i, "nth child", Some(x.nth_child(k).index as usize), Some(c))?;
        }
        let (a, b) = span(&x);
        if x.length() as usize != b - a || x.as_code() != &code[a..b] {
            return Err(format!("node {i} {a}..{b} has text {:?}", x.as_code()));
        }
        let before = s.leaves.iter().copied().rev().find(|&l| l < i).map_or(0, |l| span(&tree.node_by_index(l as u32)).1);
        if x.prefix_to_previous_leaf() != &code[before..a] {
            return Err(format!("node {i}: text before it is {:?}, expected {:?}", x.prefix_to_previous_leaf(), &code[before..a]));
        }
        let after = (i..n).map(|j| span(&tree.node_by_index(j as u32)).0).find(|&st| st >= b);
        let want = after.map_or("", |st| &code[b..st]);
        if x.suffix() != want {
            return Err(format!("node {i}: text after it is {:?}, expected {want:?}", x.suffix()));
        }
        let t = x.type_();
        if !x.is_leaf() && !types.contains(&t) && types.len() < 6 {
            types.push(t);
        }
    }
    for t in types {
        let list: &'static [_] = Vec::leak(vec![t]);
        let want: Vec<usize> = (1..n).filter(|&i| tree.node_by_index(i as u32).is_type(t)).collect();
        for avoid in [false, true] {
            let mut w = vec![];
            let mut skip = 0;
            for &i in &want {
                if avoid && i < skip {
                    continue;
                }
                w.push(i);
                skip = sub_last[i] + 1;
            }
            if tree.root_node().is_type(t) {
                continue;
            }
            let got: Vec<usize> = tree.root_node().search(list, avoid).map(|x| x.index as usize).collect();
            // nodes that start at the very end of the text are not searched
            let w: Vec<usize> = w.into_iter().filter(|&i| (span(&tree.node_by_index(i as u32)).0) < code.len()).collect();
            if got != w {
                return Err(format!("searching {t:?} (avoiding subtrees: {avoid}) gives {got:?}, expected {w:?}"));
            }
        }
        for i in 0..n {
            let mut p = s.parent[i];
            while let Some(q) = p {
                if tree.node_by_index(q as u32).is_type(t) {
                    break;
                }
                p = s.parent[q];
            }
            fail(i, "nearest ancestor of a type", idx(tree.node_by_index(i as u32).parent_until(list)), p)?;
        }
    }
    let spans: Vec<(usize, usize)> = s.leaves.iter().map(|&l| span(&tree.node_by_index(l as u32))).collect();
    for pos in 0..=code.len() + 2 {
        let want = match spans.iter().rposition(|&(a, _)| a <= pos) {
            None => 0,
            Some(k) if spans[k].1 < pos && k + 1 < spans.len() => k + 1,
            Some(k) => k,
        };
        let got = tree.leaf_by_position(pos as u32).index as usize;
        if got != s.leaves[want] {
            return Err(format!("leaf at position {pos} is node {got}, expected {}", s.leaves[want]));
        }
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "source texts (any UTF-8), valid Python or not; non-trivial: at least three bytes and not only letters".into();
    let c04 = r.prop == "C04";
    let one = |r: &mut Run, s: &str| {
        let nt = s.len() > 2 && !s.chars().all(|c| c.is_alphabetic());
        r.case(s, nt, || if c04 { check_c04(s) } else { check_c03(s) });
    };
    for s in ["    >\\", "\t\\\\\r", "        a\n  \\\n#é\nb", "\\", "\\\n", "\\\r", "\\\r\n", "", "\u{feff}x", "f'{x", "f'{x :>3}'"] {
        one(r, s);
    }
    if !c04 {
        for (p, m, q) in [("", "(", ""), ("", "[", "]"), ("", "f'{", ""), ("x", "+x", ""), ("", "-", "1"), ("", "if x:\n ", ""), ("(", "\n", ")"), ("x=", "not ", "x"), ("", "x;", "\n")] {
            let s = format!("{p}{}{q}", m.repeat(3_000));
            one(r, &s);
        }
    }
    let depth = if r.thorough { 6 } else { 5 };
    generate::all(r, depth, 0.5, &mut |r, s| one(r, s));
}
