//! C15: Point and Points, taken from /repo's database.rs by the build script.
use common::*;
use parsa_python_cst::NodeIndex;
use vfs::FileIndex;
#[allow(dead_code, unused, unfulfilled_lint_expectations)]
mod points {
    include!(concat!(env!("OUT_DIR"), "/points.rs"));
}
use points::*;

fn main() {
    let mut r = Run::from_args();
    run(&mut r);
    r.finish()
}

/// What was stored.
#[derive(Clone, Debug, PartialEq)]
struct Want {
    kind: &'static str, // uncalculated, calculating, redirect, complex, specific, file
    file: u32,
    node: u32,
    complex: u32,
    specific: Option<u32>,
    loc: u32,
    flow: bool,
    global: bool,
    checked: bool,
    partial: (bool, bool, bool),
}

fn compare(p: Point, w: &Want) -> Result<(), String> {
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {
            let (g, x) = ($got, $want);
            if g != x {
                return Err(format!("{} reads as {:?}, stored was {:?} ({w:?})", $what, g, x));
            }
        };
    }
    let calc = w.kind != "uncalculated" && w.kind != "calculating";
    same!("calculated", p.calculated(), calc);
    same!("calculating", p.calculating(), w.kind == "calculating");
    if !calc {
        same!("maybe_complex_index", p.maybe_complex_index(), None);
        same!("maybe_calculated_and_specific", p.maybe_calculated_and_specific(), None);
        let _ = format!("{p:?}");
        return Ok(());
    }
    let kind = match p.kind() {
        PointKind::Redirect => "redirect",
        PointKind::Complex => "complex",
        PointKind::Specific => "specific",
        PointKind::FileReference => "file",
    };
    same!("kind", kind, w.kind);
    same!("locality", p.locality() as u32, w.loc);
    same!("needs_flow_analysis", p.needs_flow_analysis(), w.flow);
    same!("can_be_redefined", p.can_be_redefined(), w.flow);
    same!("in_global_scope", p.in_global_scope(), w.global);
    same!("maybe_complex_index", p.maybe_complex_index(), (w.kind == "complex").then_some(w.complex as usize));
    same!("maybe_file_reference", p.maybe_file_reference().map(|f| f.0), (w.kind == "file").then_some(w.file));
    same!("maybe_specific", p.maybe_specific().map(|s| s as u32), w.specific);
    same!("maybe_calculated_and_specific", p.maybe_calculated_and_specific().map(|s| s as u32), w.specific);
    if w.kind == "redirect" || w.kind == "file" {
        same!("file_index", p.file_index().0, w.file);
    }
    if w.kind == "complex" {
        same!("complex_index", p.complex_index(), w.complex as usize);
    }
    let named = matches!(p.maybe_specific(), Some(Specific::NameOfNameDef | Specific::FirstNameOfNameDef));
    same!("is_name_of_name_def_like", p.is_name_of_name_def_like(), named);
    if w.kind == "redirect" || named || matches!(p.maybe_specific(), Some(Specific::Parent | Specific::Analyzed)) {
        same!("node_index", p.node_index(), w.node);
    }
    for (f, n) in [(w.file, w.node), (w.file ^ 1, w.node), (w.file, w.node ^ 1), (w.complex & 0x7fffff, w.node), (0, 0)] {
        same!(format!("maybe_redirect_to({f},{n})"), p.maybe_redirect_to(PointLink::new(FileIndex(f), n)), w.kind == "redirect" && f == w.file && n == w.node);
    }
    if let Some(s) = p.maybe_specific() {
        if s.is_function_state() {
            same!("function_was_checked", p.function_was_checked(), w.checked);
        }
        if s.is_partial() {
            let f = p.partial_flags();
            same!("partial flags (nullable, reported, finished)", (f.nullable, f.reported_error, f.finished), w.partial);
        }
    }
    let _ = format!("{p:?}");
    Ok(())
}

/// a change of one stored field
#[derive(Clone, Debug)]
enum Op {
    Flow(bool),
    Global(bool),
    Node(u32),
    Checked,
    Partial(bool, bool, bool),
}

fn build(w: &Want) -> Point {
    let loc = ALL_LOCALITY[w.loc as usize];
    match w.kind {
        "uncalculated" => Point::new_uncalculated(),
        "calculating" => Point::new_calculating(),
        "redirect" => Point::new_redirect(FileIndex(w.file), w.node, loc),
        "complex" => Point::new_complex_point(w.complex, loc),
        "file" => Point::new_file_reference(FileIndex(w.file), loc),
        _ => {
            let s = ALL_SPECIFIC[w.specific.unwrap() as usize];
            match s {
                Specific::NameOfNameDef => Point::new_name_of_name_def(w.node, w.global, loc),
                Specific::FirstNameOfNameDef => Point::new_first_name_of_name_def(w.node, w.global, loc),
                Specific::Parent => Point::new_parent(w.node, loc),
                Specific::Analyzed => Point::new_analyzed_with_node_index(loc, w.node),
                s => Point::new_specific(s, loc),
            }
        }
    }
}

fn apply(p: &mut Point, w: &mut Want, op: &Op) {
    let s = w.specific.map(|s| ALL_SPECIFIC[s as usize]);
    match *op {
        Op::Flow(b) => {
            *p = p.with_needs_flow_analysis(b);
            w.flow |= b;
        }
        Op::Global(b) => {
            *p = p.with_in_global_scope(b);
            w.global |= b;
        }
        Op::Node(n) => {
            if w.kind == "redirect" || matches!(s, Some(Specific::NameOfNameDef | Specific::FirstNameOfNameDef | Specific::Parent | Specific::Analyzed)) {
                *p = p.with_changed_node_index(n);
                w.node = n;
            }
        }
        Op::Checked => {
            if s.is_some_and(|s| s.is_function_state()) {
                *p = p.set_checked_function();
                w.checked = true;
            }
        }
        Op::Partial(nullable, reported_error, finished) => {
            if s.is_some_and(|s| s.is_partial()) {
                *p = p.set_partial_flags(PartialFlags { nullable, reported_error, finished });
                w.partial = (nullable, reported_error, finished);
            }
        }
    }
}

fn check(w: &Want, ops: &[Op]) -> Result<(), String> {
    let mut w = w.clone();
    let mut p = build(&w);
    compare(p, &w)?;
    for op in ops {
        apply(&mut p, &mut w, op);
        compare(p, &w).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    if w.kind != "uncalculated" && p == Point::new_uncalculated() {
        return Err("equals a point that was never written".into());
    }
    // two records are equal only if everything stored is
    Ok(())
}

fn random(g: &mut Rng) -> Want {
    let kind = *g.pick(&["redirect", "redirect", "complex", "specific", "specific", "specific", "file", "uncalculated", "calculating"]);
    let rest = |g: &mut Rng| *g.pick(&[0u32, 1, 2, 0x7fffff, 0x400000, 0x100, 0xff, 0x5a5a5a]) ^ if g.chance(1, 2) { g.below(0x800000) as u32 } else { 0 };
    let mut w = Want { kind, file: 0, node: 0, complex: 0, specific: None, loc: g.below(ALL_LOCALITY.len()) as u32, flow: false, global: false, checked: false, partial: (false, false, false) };
    match kind {
        "redirect" => {
            w.file = rest(g);
            w.node = g.next() as u32;
        }
        "file" => w.file = rest(g),
        "complex" => w.complex = rest(g),
        "specific" => {
            let k = g.below(ALL_SPECIFIC.len());
            w.specific = Some(k as u32);
            match ALL_SPECIFIC[k] {
                Specific::NameOfNameDef | Specific::FirstNameOfNameDef => {
                    w.node = g.next() as u32;
                    w.global = g.chance(1, 2);
                }
                Specific::Parent | Specific::Analyzed => w.node = g.next() as u32,
                _ => (),
            }
        }
        _ => w.loc = 0,
    }
    w
}
fn op(g: &mut Rng) -> Op {
    match g.below(5) {
        0 => Op::Flow(g.chance(1, 2)),
        1 => Op::Global(g.chance(1, 2)),
        2 => Op::Node(g.next() as u32),
        3 => Op::Checked,
        _ => Op::Partial(g.chance(1, 2), g.chance(1, 2), g.chance(1, 2)),
    }
}

/// the table of all nodes of a file
fn check_table(seed: u64) -> Result<(), String> {
    let mut g = Rng(seed);
    let n = g.range(0, 12);
    let mut t = Points::new(n);
    let unwritten = Want { kind: "uncalculated", file: 0, node: 0, complex: 0, specific: None, loc: 0, flow: false, global: false, checked: false, partial: (false, false, false) };
    let mut want = vec![unwritten.clone(); n];
    let all = |t: &Points, want: &[Want], what: &str| -> Result<(), String> {
        for (i, w) in want.iter().enumerate() {
            compare(t.get(i as NodeIndex), w).map_err(|e| format!("{what}: node {i}: {e}"))?;
        }
        if t.iter().count() != want.len() || t.iter().enumerate().any(|(i, p)| p != t.get(i as NodeIndex)) {
            return Err(format!("{what}: iter differs from get"));
        }
        Ok(())
    };
    all(&t, &want, "new table")?;
    let mut backup: Option<(PointsBackup, usize, Vec<Want>)> = None;
    for _ in 0..g.range(0, 20) {
        match g.below(10) {
            0..=5 if n > 0 => {
                let mut w = random(&mut g);
                if w.loc == Locality::DirectExtern as u32 && w.kind != "redirect" && w.kind != "file" {
                    w.loc = Locality::File as u32; // a direct external link is a link
                }
                w.file &= 3;
                let mut p = build(&w);
                for _ in 0..g.below(3) {
                    let o = op(&mut g);
                    if w.kind != "uncalculated" && w.kind != "calculating" {
                        apply(&mut p, &mut w, &o);
                    }
                }
                let i = g.below(n);
                t.set(i as NodeIndex, p);
                want[i] = w;
                all(&t, &want, "set")?;
            }
            6 => {
                let a = g.range(0, n);
                let b = g.range(a, n);
                backup = Some((t.backup(a as NodeIndex..b as NodeIndex), a, want[a..b].to_vec()));
                all(&t, &want, "backup")?;
            }
            7 => {
                if let Some((b, a, w)) = &backup {
                    t.reset_from_backup(b);
                    want[*a..*a + w.len()].clone_from_slice(w);
                    all(&t, &want, "reset from backup")?;
                }
            }
            8 => {
                let f = g.chance(3, 4).then(|| g.below(4) as u32);
                t.invalidate_references_to(f.map(FileIndex));
                for w in &mut want {
                    let direct = w.loc == Locality::DirectExtern as u32;
                    if (direct && Some(w.file) == f) || w.loc >= Locality::Complex as u32 {
                        *w = unwritten.clone();
                    }
                }
                all(&t, &want, "invalidating references")?;
            }
            9 if g.chance(1, 3) => {
                t.invalidate_full_db();
                want.fill(unwritten.clone());
                all(&t, &want, "invalidating everything")?;
            }
            _ => (),
        }
    }
    Ok(())
}

fn run(r: &mut Run) {
    r.rule = "a stored record and changes to it, and histories of a table of records; non-trivial: more than one field stored".into();
    if ALL_SPECIFIC.len() > 256 || ALL_LOCALITY.len() > 8 {
        r.case("widths", true, || Err("more kinds than their bits can hold".into()));
    }
    r.enumerating = true;
    let base = Want { kind: "specific", file: 0, node: 0, complex: 0, specific: None, loc: 0, flow: false, global: false, checked: false, partial: (false, false, false) };
    let b = [false, true];
    let mut ops: Vec<Vec<Op>> = vec![vec![]];
    for x in b {
        ops.push(vec![Op::Flow(x)]);
        ops.push(vec![Op::Global(x)]);
        for y in b {
            ops.push(vec![Op::Flow(x), Op::Global(y)]);
            for z in b {
                ops.push(vec![Op::Partial(x, y, z)]);
                ops.push(vec![Op::Global(x), Op::Checked, Op::Flow(y), Op::Partial(true, z, true), Op::Partial(x, y, z)]);
                for k in 0..8 {
                    ops.push(vec![Op::Partial(k & 1 > 0, k & 2 > 0, k & 4 > 0), Op::Partial(x, y, z)]);
                }
            }
        }
    }
    ops.push(vec![Op::Checked]);
    ops.push(vec![Op::Node(7), Op::Node(0)]);
    for loc in 0..ALL_LOCALITY.len() as u32 {
        for s in 0..ALL_SPECIFIC.len() as u32 {
            let w = Want { specific: Some(s), loc, ..base.clone() };
            for o in &ops {
                r.case(&format!("{w:?} {o:?}"), true, || check(&w, o));
            }
        }
        for kind in ["redirect", "complex", "file"] {
            for bit in 0..23 {
                for v in [1u32 << bit, 0x7fffff ^ (1 << bit), (1 << bit) - 1] {
                    for node in if kind == "redirect" { vec![0, v, u32::MAX] } else { vec![0] } {
                        let w = Want { kind, file: if kind == "complex" { 0 } else { v }, complex: if kind == "complex" { v } else { 0 }, node, loc, ..base.clone() };
                        for o in &ops[..8] {
                            r.case(&format!("{w:?} {o:?}"), true, || check(&w, o));
                        }
                    }
                }
            }
        }
    }
    r.enumerated.push("every specific with every locality and sequence of flag changes from a list; every payload bit of every other kind".into());
    r.enumerating = false;
    while r.time_left() {
        let mut g = r.rng.clone();
        let w = random(&mut g);
        let n = if w.kind == "uncalculated" || w.kind == "calculating" { 0 } else { g.below(6) };
        let o: Vec<Op> = (0..n).map(|_| op(&mut g)).collect();
        let s = g.next();
        r.rng = g;
        r.case(&format!("{w:?} {o:?}"), true, || check(&w, &o));
        r.case(&format!("table history {s}"), true, || check_table(s));
    }
}
