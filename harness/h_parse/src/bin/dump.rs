//! developer's aid: dump a tree; with "min" as second argument, shrink a text whose table is not a tree
use std::panic::{AssertUnwindSafe, catch_unwind};
fn bad(s: &str) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let t = parsa_python::parse(s.into());
        let n = t.length();
        let mut order = vec![];
        let mut todo = vec![t.root_node()];
        let mut leaves = vec![];
        while let Some(x) = todo.pop() {
            order.push(x.index as usize);
            if order.len() > n {
                return true;
            }
            if x.is_leaf() {
                leaves.push(x);
            }
            let c: Vec<_> = x.iter_children().take(n + 1).collect();
            if let Some(l) = c.last() {
                if l.end() != x.end() {
                    return true;
                }
            }
            todo.extend(c.into_iter().rev());
        }
        order != (0..n).collect::<Vec<_>>()
    }))
    .unwrap_or(true)
}
fn main() {
    let mut s = std::env::args().nth(1).unwrap().replace("\\n", "\n");
    if std::env::args().nth(2).is_some() {
        std::panic::set_hook(Box::new(|_| ()));
        println!("bad: {}", bad(&s));
        let mut again = true;
        while again {
            again = false;
            let cs: Vec<char> = s.chars().collect();
            'o: for len in (1..=cs.len()).rev() {
                for i in 0..=cs.len() - len {
                    let t: String = cs[..i].iter().chain(&cs[i + len..]).collect();
                    if bad(&t) {
                        s = t;
                        again = true;
                        break 'o;
                    }
                }
            }
        }
        println!("{s:?}");
    }
    let t = parsa_python::parse(s.clone().into());
    for n in t.nodes() {
        println!("{:3} {:28} {}..{} next={:?} {:?}", n.index, n.type_str(), n.start(), n.end(), n.next_sibling().map(|x| x.index), n.as_code().chars().take(20).collect::<String>());
    }
}
