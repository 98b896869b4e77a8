#![allow(warnings)]
// C26: per-module overrides (crates/config/src/lib.rs, crates/zuban_python/src/file/python_file.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
type Name = Seq<char>;

// ---- std
#[verifier::external_body]
struct VxStr { x: Box<str> }
impl VxStr { uninterp spec fn view(&self) -> Name; }
#[verifier::external_body]
fn vx_eq_part(a: &str, b: &VxStr) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn vx_box(a: &str) -> (r: VxStr) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
fn vx_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// Pieces between dots
spec fn dots(s: Name) -> Seq<Name> decreases s.len() {
    if s.len() == 0 { seq![s] } else {
        let r = dots(s.drop_last());
        if s.last() == '.' { r.push(Seq::empty()) } else { r.update(r.len() - 1, r.last().push(s.last())) }
    }
}
#[verifier::external_body]
struct VxSplit<'a> { x: &'a str }
impl<'a> VxSplit<'a> {
    uninterp spec fn rest(&self) -> Seq<Name>;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<&'a str>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && (r->0)@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: VxSplit<'a>) requires c == '.' ensures r.rest() == dots(s@) { unimplemented!() }
fn vx_into_iter<I>(x: I) -> (r: I) ensures r == x { x }
/// A slice's iterator, reversed: what is left is a prefix
struct VxRev<'x> { v: &'x [OverridePathPart], n: usize }
impl<'x> VxRev<'x> {
    spec fn wf(&self) -> bool { self.n <= self.v@.len() }
    spec fn rest(&self) -> Seq<OverridePathPart> { self.v@.take(self.n as int) }
    fn next(&mut self) -> (r: Option<&'x OverridePathPart>)
        requires old(self).wf(),
        ensures final(self).wf(), old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && *(r->0) == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last(),
    {
        if self.n == 0 { None } else {
            proof { assert(self.v@.take(self.n as int).drop_last() =~= self.v@.take(self.n - 1)); }
            self.n = self.n - 1;
            Some(&self.v[self.n])
        }
    }
    fn clone(&self) -> (r: Self) ensures r == *self { VxRev { v: self.v, n: self.n } }
}
fn vx_rev<'x>(v: &'x Vec<OverridePathPart>) -> (r: VxRev<'x>) ensures r.wf(), r.rest() == v@ { proof { assert(v@.take(v@.len() as int) =~= v@); } VxRev { v: v.as_slice(), n: v.len() } }

// ---- vfs: a directory knows its name and the directory it is in
#[verifier::external_body]
struct Directory { x: u8 }
/// names from the root of the workspace
uninterp spec fn names(d: Directory) -> Seq<Name>;
#[verifier::external_body]
fn vx_name(d: &Directory) -> (r: &str) ensures names(*d).len() > 0, r@ == names(*d).last() { unimplemented!() }
#[verifier::external_body]
fn vx_parent<'a>(d: &'a Directory) -> (r: Option<&'a Directory>)
    ensures names(*d).len() > 0, r is None ==> names(*d).len() == 1, r is Some ==> names(*(r->0)) == names(*d).drop_last() && names(*(r->0)).len() > 0,
{ unimplemented!() }

// ---- specification
spec fn module(name: Name, parent: Option<&Directory>) -> Seq<Name> { match parent { Some(d) => names(*d).push(name), None => seq![name] } }
/// The pattern p matches the module m: names stand for themselves, a star for any number of names, a star at the beginning for at least one.
spec fn globs(p: Seq<OverridePathPart>, m: Seq<Name>) -> bool decreases p.len(), 0nat {
    if p.len() == 0 { m.len() == 0 } else {
        let r = p.drop_last();
        match p.last() {
            OverridePathPart::Part(s) => m.len() > 0 && m.last() == s@ && globs(r, m.drop_last()),
            OverridePathPart::Wildcard => if r.len() == 0 { m.len() > 0 } else { some_prefix(r, m) },
        }
    }
}
spec fn some_prefix(p: Seq<OverridePathPart>, m: Seq<Name>) -> bool decreases p.len(), 1nat { exists|k: int| 0 <= k <= m.len() && globs(p, #[trigger] m.take(k)) }
proof fn no_names(p: Seq<OverridePathPart>) requires p.len() > 0 ensures !globs(p, Seq::<Name>::empty()) decreases p.len()
{
    if p.len() > 1 {
        let e = Seq::<Name>::empty();
        no_names(p.drop_last());
        if p.last() is Wildcard && some_prefix(p.drop_last(), e) { let k = choose|k: int| 0 <= k <= e.len() && globs(p.drop_last(), #[trigger] e.take(k)); assert(e.take(k) =~= e); }
    }
}
/// A prefix of m matches: m does, or a prefix of what is before its last name
proof fn shorter(p: Seq<OverridePathPart>, m: Seq<Name>) requires m.len() > 0, p.len() > 0
    ensures some_prefix(p, m) == (globs(p, m) || some_prefix(p, m.drop_last())), m.len() == 1 ==> !some_prefix(p, m.drop_last()),
{
    let d = m.drop_last();
    assert(m.take(m.len() as int) =~= m);
    if some_prefix(p, m) && !globs(p, m) {
        let k = choose|k: int| 0 <= k <= m.len() && globs(p, #[trigger] m.take(k));
        assert(d.take(k) =~= m.take(k));
    }
    if some_prefix(p, d) {
        let k = choose|k: int| 0 <= k <= d.len() && globs(p, #[trigger] d.take(k));
        assert(d.take(k) =~= m.take(k));
        if m.len() == 1 { no_names(p); assert(d.take(k) =~= Seq::<Name>::empty()); }
    }
}
spec fn part_of(s: Name) -> bool { s == seq!['*'] }
/// the pattern a text stands for
spec fn reads(p: Seq<OverridePathPart>, t: Seq<Name>) -> bool {
    p.len() == t.len() && forall|i: int| 0 <= i < p.len() ==> reads_one(#[trigger] p[i], t[i])
}
spec fn reads_one(p: OverridePathPart, s: Name) -> bool { match p { OverridePathPart::Wildcard => s == "*"@, OverridePathPart::Part(x) => s != "*"@ && x@ == s } }
spec fn star_at(p: Seq<OverridePathPart>, i: int) -> bool { 0 <= i < p.len() && p[i] is Wildcard }
spec fn has_star(p: Seq<OverridePathPart>) -> bool { exists|i: int| #[trigger] star_at(p, i) }
spec fn name_after(p: Seq<OverridePathPart>, j: int) -> bool { 0 <= j < p.len() && p[j] is Part && has_star(p.take(j)) }
spec fn name_after_star(p: Seq<OverridePathPart>) -> bool { exists|j: int| #[trigger] name_after(p, j) }
spec fn kind_of(p: Seq<OverridePathPart>) -> OverrideKind {
    if name_after_star(p) { OverrideKind::Unstructured } else if has_star(p) { OverrideKind::WellStructured } else { OverrideKind::ModuleName }
}
proof fn longer(p: Seq<OverridePathPart>, x: OverridePathPart)
    ensures has_star(p.push(x)) == (has_star(p) || x is Wildcard), name_after_star(p.push(x)) == (name_after_star(p) || (x is Part && has_star(p))),
{
    let q = p.push(x);
    if has_star(p) { let i = choose|i: int| #[trigger] star_at(p, i); assert(star_at(q, i)); }
    if x is Wildcard { assert(star_at(q, p.len() as int)); }
    if has_star(q) { let i = choose|i: int| #[trigger] star_at(q, i); if i < p.len() { assert(star_at(p, i)); } }
    assert(q.take(p.len() as int) =~= p);
    if name_after_star(p) { let j = choose|j: int| #[trigger] name_after(p, j); assert(q.take(j) =~= p.take(j)); assert(name_after(q, j)); }
    if x is Part && has_star(p) { assert(name_after(q, p.len() as int)); }
    if name_after_star(q) { let j = choose|j: int| #[trigger] name_after(q, j); if j < p.len() { assert(q.take(j) =~= p.take(j)); assert(name_after(p, j)); } }
}

spec fn count_names(p: Seq<OverridePathPart>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { count_names(p.drop_last()) + if p.last() is Part { 1nat } else { 0 } } }
/// More names make a well-structured pattern more specific
spec fn specific(o: OverridePath) -> nat { if o.kind is WellStructured { count_names(o.path@) } else { 0 } }
spec fn rank(k: OverrideKind) -> int { match k { OverrideKind::WellStructured => 0, OverrideKind::Unstructured => 1, OverrideKind::ModuleName => 2 } }
/// a is applied before b, whatever their order in the file is
spec fn weaker(a: OverridePath, b: OverridePath) -> bool { rank(a.kind) < rank(b.kind) || (a.kind == b.kind && specific(a) < specific(b)) }
/// new is old ordered: the weaker come first, otherwise the order is kept
spec fn ordered(old_: Seq<OverrideConfig>, new: Seq<OverrideConfig>) -> bool { exists|f: Seq<int>| #[trigger] ordered_by(old_, new, f) }
spec fn ordered_by(old_: Seq<OverrideConfig>, new: Seq<OverrideConfig>, f: Seq<int>) -> bool {
    &&& new.len() == old_.len() && f.len() == new.len()
    &&& forall|i: int| 0 <= i < new.len() ==> 0 <= #[trigger] f[i] < old_.len() && new[i] == old_[f[i]]
    &&& forall|i: int, j: int| 0 <= i < j < new.len() ==> #[trigger] f[i] != #[trigger] f[j]
    &&& forall|i: int, j: int| 0 <= i < j < new.len() ==> !weaker((#[trigger] new[j]).module, (#[trigger] new[i]).module) && (weaker(new[i].module, new[j].module) || f[i] < f[j])
}
/// slice::sort_by_key is stable; the key's order is that of tuples and of the enum's variants
#[verifier::external_body]
fn vx_sort(v: &mut [OverrideConfig]) ensures ordered(old(v)@, final(v)@) { unimplemented!() }

// ---- what well-structured patterns mean: the module begins with the names
spec fn ws(p: Seq<OverridePathPart>, a: int) -> bool { 0 <= a < p.len() && (forall|i: int| 0 <= i < a ==> #[trigger] p[i] is Part) && (forall|i: int| a <= i < p.len() ==> #[trigger] p[i] is Wildcard) }
spec fn begins(p: Seq<OverridePathPart>, a: int, m: Seq<Name>) -> bool { m.len() >= a && forall|i: int| 0 <= i < a ==> #[trigger] m[i] == (p[i]->Part_0)@ }
proof fn names_globs(p: Seq<OverridePathPart>, m: Seq<Name>) requires forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] is Part ensures globs(p, m) == (m.len() == p.len() && begins(p, p.len() as int, m)) decreases p.len()
{
    if p.len() > 0 {
        let r = p.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] is Part by { assert(p[i] is Part); }
        assert(p[p.len() - 1] is Part);
        if m.len() > 0 {
            let d = m.drop_last();
            names_globs(r, d);
            if begins(p, p.len() as int, m) { assert(begins(r, r.len() as int, d)); assert(m[m.len() - 1] == (p[m.len() - 1]->Part_0)@ || m.len() != p.len()); }
            if globs(p, m) { assert forall|i: int| 0 <= i < p.len() implies #[trigger] m[i] == (p[i]->Part_0)@ by { if i < r.len() { assert(d[i] == m[i]); assert(r[i] == p[i]); } } }
        }
    }
}
proof fn ws_globs(p: Seq<OverridePathPart>, a: int, m: Seq<Name>) requires ws(p, a) ensures globs(p, m) == (m.len() > 0 && begins(p, a, m)) decreases p.len()
{
    let r = p.drop_last();
    assert(p[p.len() - 1] is Wildcard);
    if r.len() > 0 {
        if a < r.len() {
            assert(ws(r, a)) by { assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == p[i] by {} }
            if some_prefix(r, m) {
                let k = choose|k: int| 0 <= k <= m.len() && globs(r, #[trigger] m.take(k));
                ws_globs(r, a, m.take(k));
                assert(begins(p, a, m)) by { assert forall|i: int| 0 <= i < a implies #[trigger] m[i] == (p[i]->Part_0)@ by { assert(m.take(k)[i] == m[i]); assert(r[i] == p[i]); } }
            }
            if m.len() > 0 && begins(p, a, m) {
                let k = m.len() as int;
                assert(m.take(k) =~= m);
                assert(begins(r, a, m));
                ws_globs(r, a, m.take(k));
            }
        } else {
            assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] is Part by { assert(p[i] is Part); }
            if some_prefix(r, m) {
                let k = choose|k: int| 0 <= k <= m.len() && globs(r, #[trigger] m.take(k));
                names_globs(r, m.take(k));
                assert(begins(p, a, m)) by { assert forall|i: int| 0 <= i < a implies #[trigger] m[i] == (p[i]->Part_0)@ by { assert(m.take(k)[i] == m[i]); assert(r[i] == p[i]); } }
            }
            if begins(p, a, m) {
                names_globs(r, m.take(a));
                assert(begins(r, a, m.take(a)));
                assert(globs(r, m.take(a)));
            }
        }
    }
}
proof fn ws_count(p: Seq<OverridePathPart>, a: int) requires ws(p, a) || (a == p.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] is Part) ensures count_names(p) == a decreases p.len()
{
    if p.len() > 0 {
        let r = p.drop_last();
        let b = if a < p.len() { a } else { a - 1 };
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == p[i] by {}
        assert(a < p.len() ==> p[p.len() - 1] is Wildcard);
        assert(a == p.len() ==> p[p.len() - 1] is Part);
        ws_count(r, b);
    }
}
/// Of two well-structured patterns for a module, everything the one with more names matches is matched by the other.
proof fn more_specific(p: Seq<OverridePathPart>, a: int, q: Seq<OverridePathPart>, b: int, m: Seq<Name>, x: Seq<Name>)
    requires ws(p, a), ws(q, b), globs(p, m), globs(q, m), count_names(p) <= count_names(q), globs(q, x),
    ensures globs(p, x),
{
    ws_count(p, a);
    ws_count(q, b);
    ws_globs(p, a, m);
    ws_globs(q, b, m);
    ws_globs(q, b, x);
    ws_globs(p, a, x);
    assert forall|i: int| 0 <= i < a implies #[trigger] x[i] == (p[i]->Part_0)@ by { assert(x[i] == (q[i]->Part_0)@); assert(m[i] == (q[i]->Part_0)@); assert(m[i] == (p[i]->Part_0)@); }
}
/// The kind says the shape
proof fn well_structured(p: Seq<OverridePathPart>) requires kind_of(p) is WellStructured ensures exists|a: int| #[trigger] ws(p, a)
{
    let a = first_star(p, 0);
    first_star_is(p, 0);
    let i = choose|i: int| #[trigger] star_at(p, i);
    assert(a <= i);
    assert forall|j: int| a <= j < p.len() implies #[trigger] p[j] is Wildcard by {
        if p[j] is Part { assert(p.take(j)[a] == p[a]); assert(star_at(p.take(j), a)); assert(name_after(p, j)); }
    }
    assert(ws(p, a));
}
spec fn first_star(p: Seq<OverridePathPart>, i: int) -> int decreases p.len() - i { if 0 <= i < p.len() && p[i] is Part { first_star(p, i + 1) } else { i } }
proof fn first_star_is(p: Seq<OverridePathPart>, i: int) requires 0 <= i <= p.len()
    ensures i <= first_star(p, i) <= p.len(), forall|j: int| i <= j < first_star(p, i) ==> #[trigger] p[j] is Part, first_star(p, i) < p.len() ==> p[first_star(p, i)] is Wildcard,
    decreases p.len() - i
{ if i < p.len() && p[i] is Part { first_star_is(p, i + 1); } }

// ---- the code
//@file crates/config/src/lib.rs
#[derive(Clone, Copy)]
//@enum OverrideKind
//@tyrw Box<str> ==> VxStr
//@enum OverridePathPart
//@struct OverridePath
//@expect enum OverrideKind { WellStructured, Unstructured, ModuleName, }
struct OverrideConfig { module: OverridePath, config: VxStr }
//@rw $v.sort_by_key(|o| o.module.priority()) ==> vx_sort($v)
//@fn order_overrides_for_priority
    ensures ordered(old(overrides)@, final(overrides)@),
//@end
//@rwclear
impl OverridePath {
//@rw $v.split($c).map(|s| $b).collect() ==> { let mut out__ = Vec::new(); for s in vx_split($v, $c) { out__.push($b) } out__ }
//@rw match s { "*" => $a, _ => $b } ==> if vx_is(s, "*") { $a } else { $b }
//@rw s.into() ==> vx_box(s)
//@rw had_name_after_star |= had_star ==> had_name_after_star = had_name_after_star || had_star
//@fn OverridePath:From::from ret=r nloops=1
    ensures reads(r.path@, dots(value@)), r.kind == kind_of(r.path@),
//@begin
    let ghost t = dots(value@);
    proof { assert(t.skip(0) =~= t); let e = Seq::<OverridePathPart>::empty(); assert(!has_star(e)); assert(!name_after_star(e)); }
//@loop 0
    invariant
        t == dots(value@), out__@.len() <= t.len(), it__0.rest() == t.skip(out__@.len() as int), had_star == has_star(out__@), had_name_after_star == name_after_star(out__@),
        forall|i: int| 0 <= i < out__@.len() ==> reads_one(#[trigger] out__@[i], t[i]),
    ensures out__@.len() == t.len(),
    decreases it__0.rest().len(),
//@loopbegin 0
    let ghost old_ = out__@;
//@loopend 0
    proof { longer(old_, out__@.last()); assert(old_.push(out__@.last()) =~= out__@); assert(t.skip(old_.len() as int).skip(1) =~= t.skip(old_.len() as int + 1)); }
//@end
//@rwclear
//@tyrw impl Iterator<Item = &'x OverridePathPart> + Clone ==> VxRev<'x>
//@rw name == &**part ==> vx_eq_part(name, part)
//@rw &dir.name ==> vx_name(dir)
//@rw dir.parent.maybe_dir().ok().as_deref() ==> vx_parent(dir)
//@rw self.path.iter().rev() ==> vx_rev(&self.path)
//@rw $p.iter().filter(|part| $c).count() ==> { let mut n__: usize = 0; let mut i__: usize = 0; while i__ < $p.len() { let part = &$p[i__]; if $c { n__ = n__ + 1; } i__ = i__ + 1; } n__ }
//@fn OverridePath::priority ret=r nloops=1
    ensures r.0 == self.kind, r.1 == specific(*self),
//@loop 0
    invariant i__ <= self.path@.len(), n__ == count_names(self.path@.take(i__ as int)), n__ <= i__,
    decreases self.path@.len() - i__,
//@before i__ = i__ + 1
    proof { assert(self.path@.take(i__ + 1).drop_last() =~= self.path@.take(i__ as int)); }
//@after while i__
    proof { assert(self.path@.take(self.path@.len() as int) =~= self.path@); }
//@end
//@fn OverridePath::matches_file_path ret=r
//@drop matches_file_path
    ensures r == globs(self.path@, module(name@, parent_dir)),
//@end
}
//@fn OverridePath::matches_file_path/matches_file_path ret=r
//@drop check_wildcard_parents
    requires reverse_path.wf(),
    ensures r == globs(reverse_path.rest(), module(name@, parent_dir)),
    decreases reverse_path.rest().len(), module(name@, parent_dir).len(), 0nat,
//@begin
    let ghost p = reverse_path.rest();
    let ghost m = module(name@, parent_dir);
    proof {
        if p.len() > 1 { no_names(p.drop_last()); }
        assert(m.last() == name@ && m.len() > 0);
        assert(p.len() > 0 ==> globs(p, m) == match p.last() { OverridePathPart::Part(s) => m.last() == s@ && globs(p.drop_last(), m.drop_last()), OverridePathPart::Wildcard => p.len() == 1 || some_prefix(p.drop_last(), m) });
        assert(p.len() == 1 ==> (globs(p.drop_last(), m.drop_last()) <==> m.drop_last().len() == 0));
        if let Some(d) = parent_dir { assert(m.drop_last() =~= names(*d)); if names(*d).len() > 0 { assert(names(*d).drop_last().push(names(*d).last()) =~= names(*d)); if names(*d).len() == 1 { assert(seq![names(*d).last()] =~= names(*d)); } } }
        else { assert(m.drop_last() =~= Seq::<Name>::empty()); }
    }
//@end
//@fn OverridePath::matches_file_path/check_wildcard_parents ret=r
    requires reverse_path.wf(),
    ensures r == (reverse_path.rest().len() == 0 || some_prefix(reverse_path.rest(), module(name@, parent_dir))),
    decreases reverse_path.rest().len(), module(name@, parent_dir).len(), 1nat,
//@begin
    let ghost p = reverse_path.rest();
    let ghost m = module(name@, parent_dir);
    proof {
        if p.len() > 0 { shorter(p, m); }
        else { assert(!globs(p, m)); }
        if let Some(d) = parent_dir { assert(m.drop_last() =~= names(*d)); if names(*d).len() > 0 { assert(names(*d).drop_last().push(names(*d).last()) =~= names(*d)); if names(*d).len() == 1 { assert(seq![names(*d).last()] =~= names(*d)); } } }
    }
//@end

// ---- the module of a file
#[verifier::external_body]
struct Parent { x: u8 }
struct FileEntry { name: VxStr, parent: Parent }
/// the directory something is in, unless that is the workspace
uninterp spec fn dir_of(p: Parent) -> Option<Directory>;
impl Parent {
    #[verifier::external_body]
    fn maybe_dir(&self) -> (r: Result<Directory, ()>) ensures r is Ok <==> dir_of(*self) is Some, r is Ok ==> r->Ok_0 == dir_of(*self)->0 { unimplemented!() }
}
#[verifier::external_body]
fn vx_as_str<'a>(e: &'a FileEntry) -> (r: &'a str) ensures r@ == e.name@ { unimplemented!() }
#[verifier::external_body]
fn vx_strip_suffix<'a>(s: &'a str, x: &str) -> (r: Option<&'a str>) ensures r is Some <==> ends(s@, x@), r is Some ==> (r->0)@ == s@.take(s@.len() - x@.len()) { s.strip_suffix(x) }
/// the name outlives the reference (transmute to a longer lifetime in the code)
#[verifier::external_body]
fn vx_dir_name<'a>(d: &Directory) -> (r: &'a str) ensures names(*d).len() > 0, r@ == names(*d).last() { unimplemented!() }
#[verifier::external_body]
fn vx_parent_of(d: &Directory) -> (r: Option<Directory>)
    ensures names(*d).len() > 0, r is None ==> names(*d).len() == 1, r is Some ==> names(r->0) == names(*d).drop_last() && names(r->0).len() > 0,
{ unimplemented!() }
spec fn ends(s: Name, x: Name) -> bool { s.len() >= x.len() && s.skip(s.len() - x.len()) == x }
spec fn cut(s: Name, x: Name) -> Name { if ends(s, x) { s.take(s.len() - x.len()) } else { s } }
spec fn stem(s: Name) -> Name { if ends(s, ".py"@) { cut(s, ".py"@) } else { cut(s, ".pyi"@) } }
/// A file is the module of its name, an __init__ file the package its directory is (without -stubs, if asked for)
spec fn file_module(e: FileEntry, skip: bool) -> Seq<Name> {
    let n = stem(e.name@);
    match dir_of(e.parent) {
        None => seq![n],
        Some(d) => if n == "__init__"@ { names(d).drop_last().push(if skip { cut(names(d).last(), "-stubs"@) } else { names(d).last() }) } else { names(d).push(n) },
    }
}
spec fn module_of(name: Name, parent: Option<Directory>) -> Seq<Name> { match parent { Some(d) => names(d).push(name), None => seq![name] } }
//@file crates/zuban_python/src/file/python_file.rs
//@rwclear
//@tyrw Arc<Directory> ==> Directory
//@rw &entry.name ==> vx_as_str(entry)
//@rw $n.strip_suffix($a).or_else(|| $m.strip_suffix($b)).unwrap_or($c) ==> match vx_strip_suffix($n, $a) { Some(x__) => x__, None => match vx_strip_suffix($m, $b) { Some(x__) => x__, None => $c } }
//@rw $n.strip_suffix($a).unwrap_or($c) ==> match vx_strip_suffix($n, $a) { Some(x__) => x__, None => $c }
//@rw name == "__init__" ==> vx_is(name, "__init__")
//@rw unsafe { std::mem::transmute::<&str, &str>(dir.name.as_ref()) } ==> vx_dir_name(&dir)
//@rw dir.parent.maybe_dir().ok() ==> vx_parent_of(&dir)
//@rw entry.parent.maybe_dir().ok() ==> match entry.parent.maybe_dir() { Ok(d__) => Some(d__), Err(_) => None }
//@fn name_and_parent_dir ret=r
    ensures module_of(r.0@, r.1) == file_module(*entry, skip_stubs),
//@begin
    proof { if let Some(d) = dir_of(entry.parent) { let x = if skip_stubs { cut(names(d).last(), "-stubs"@) } else { names(d).last() }; assert(names(d).len() == 1 ==> names(d).drop_last().push(x) =~= seq![x]); } }
//@end
}
fn main() {}
