#![allow(warnings)]
// C11: lexical path operations (crates/vfs/src/{lib,normalized_path,workspaces}.rs, utils match_case), on Unix
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include str_spec.inc
const SEP: u8 = 47;
spec fn no_sep(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 47 }
/// str::find, rfind, strip_prefix and strip_suffix of a one-byte character
#[verifier::external_body]
fn vx_find(s: &str, c: char) -> (r: Option<usize>)
    requires c == '/',
    ensures r is Some ==> r->0 < bts(s).len() && bts(s)[r->0 as int] == 47 && no_sep(bts(s).subrange(0, r->0 as int)), r is None ==> no_sep(bts(s)),
{ s.find(c) }
#[verifier::external_body]
fn vx_rfind(s: &str, c: char) -> (r: Option<usize>)
    requires c == '/',
    ensures r is Some ==> r->0 < bts(s).len() && bts(s)[r->0 as int] == 47 && no_sep(bts(s).subrange(r->0 + 1, bts(s).len() as int)), r is None ==> no_sep(bts(s)),
{ s.rfind(c) }
#[verifier::external_body]
fn vx_strip_pre<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    requires c == '/',
    ensures r is Some <==> bts(s).len() > 0 && bts(s)[0] == 47, r is Some ==> bts(r->0) == bts(s).subrange(1, bts(s).len() as int),
{ s.strip_prefix(c) }
#[verifier::external_body]
fn vx_strip_suf<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    requires c == '/',
    ensures r is Some <==> bts(s).len() > 0 && bts(s).last() == 47, r is Some ==> bts(r->0) == bts(s).drop_last(),
{ s.strip_suffix(c) }
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (bts(a) == bts(b)) { a == b }
spec fn lower(x: u8) -> u8 { if 65 <= x <= 90 { (x + 32) as u8 } else { x } }
spec fn same_byte(cs: bool, x: u8, y: u8) -> bool { x == y || !cs && lower(x) == lower(y) }
spec fn same_text(cs: bool, a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_byte(cs, #[trigger] a[i], b[i]) }
#[verifier::external_body]
fn vx_eq_ignore_case(a: &str, b: &str) -> (r: bool) ensures r == same_text(false, bts(a), bts(b)) { a.eq_ignore_ascii_case(b) }
struct VxFs;

//@file crates/utils/src/lib.rs
//@rw x == y ==> vx_str_eq(x, y)
//@rw $x.eq_ignore_ascii_case($y) ==> vx_eq_ignore_case($x, $y)
//@fn match_case ret=r
    ensures r == same_text(case_sensitive, bts(x), bts(y)),
//@begin
    proof { if bts(x) != bts(y) && same_text(true, bts(x), bts(y)) { assert(bts(x) =~= bts(y)); } }
//@end
//@rwclear
//@file crates/vfs/src/lib.rs
//@rw $x.find($c) ==> vx_find($x, $c)
//@rw $x.rfind($c) ==> vx_rfind($x, $c)
//@rw $x.strip_prefix($c) ==> vx_strip_pre($x, $c)
//@rw $x.strip_suffix($c) ==> vx_strip_suf($x, $c)
//@rw &$x[..$z] ==> vx_slice($x, 0, $z)
//@rw &$x[$a..] ==> vx_slice_from($x, $a)
//@rw std::path::MAIN_SEPARATOR ==> '/'
impl VxFs {
//@fn VfsHandler::separator ret=r
    ensures r == '/',
//@end
//@fn VfsHandler::strip_separator_prefix ret=r
    ensures r is Some <==> bts(path).len() > 0 && bts(path)[0] == 47, r is Some ==> bts(path) =~= seq![SEP] + bts(r->0),
//@end
//@fn VfsHandler::strip_separator_suffix ret=r
    ensures r is Some <==> bts(path).len() > 0 && bts(path).last() == 47, r is Some ==> bts(path) =~= bts(r->0).push(SEP),
//@end
//@fn VfsHandler::split_off_first_item ret=r
    ensures no_sep(bts(r.0)), r.1 is Some ==> bts(path) =~= bts(r.0).push(SEP) + bts(r.1->0), r.1 is None ==> r.0 == path,
//@begin
    proof { utf8(path); utf8_follow(path); sep_bounds(bts(path)); }
//@end
//@fn VfsHandler::split_off_last_item ret=r
    ensures no_sep(bts(r.1)), r.0 is Some ==> bts(path) =~= bts(r.0->0).push(SEP) + bts(r.1), r.0 is None ==> r.1 == path,
//@begin
    proof { utf8(path); utf8_follow(path); sep_bounds(bts(path)); }
//@end
}
/// A separator starts and ends a character.
proof fn sep_bounds(b: Seq<u8>)
    requires utf8_ends(b), starts_ok(b),
    ensures forall|i: int| 0 <= i < b.len() && #[trigger] b[i] == 47 ==> bnd(b, i) && bnd(b, i + 1),
{
    assert forall|i: int| 0 <= i < b.len() && #[trigger] b[i] == 47 implies bnd(b, i) && bnd(b, i + 1) by {
        assert(b[(i + 1) - 1] == 47);
    }
}
//@file crates/vfs/src/workspaces.rs
//@tyrw &dyn VfsHandler ==> &VxFs
//@tyrw &AbsPath ==> &str
/// path lies below to on a component boundary
spec fn below(cs: bool, p: Seq<u8>, to: Seq<u8>) -> bool { p.len() > to.len() && same_text(cs, p.subrange(0, to.len() as int), to) && p[to.len() as int] == 47 }
spec fn opt(s: Option<&str>) -> Option<Seq<u8>> { match s { Some(x) => Some(bts(x)), None => None } }
proof fn first_items(cs: bool, p: Seq<u8>, t: Seq<u8>, f1: Seq<u8>, r1: Option<Seq<u8>>, f2: Seq<u8>, r2: Option<Seq<u8>>)
    requires no_sep(f1), no_sep(f2), p == (if r1 is Some { f1.push(SEP) + r1->0 } else { f1 }), t == (if r2 is Some { f2.push(SEP) + r2->0 } else { f2 }),
    ensures
        below(cs, p, t) ==> same_text(cs, f1, f2) && r1 is Some,
        same_text(cs, f1, f2) && r1 is Some && r2 is None ==> below(cs, p, t),
        same_text(cs, f1, f2) && r1 is Some && r2 is Some ==> (below(cs, p, t) <==> below(cs, r1->0, r2->0)),
{
    let n = t.len() as int;
    if below(cs, p, t) {
        let h = p.subrange(0, n);
        let k = f2.len() as int;
        assert(p[k] == 47) by { if r2 is Some { assert(t[k] == 47); assert(same_byte(cs, h[k], t[k])); } }
        assert forall|i: int| 0 <= i < k implies #[trigger] p[i] != 47 by { assert(same_byte(cs, h[i], t[i])); assert(t[i] == f2[i]); assert(f2[i] != 47); }
        if f1.len() < k { if r1 is Some { assert(p[f1.len() as int] == 47); } }
        if f1.len() > k { assert(p[k] == f1[k]); }
        assert(f1.len() == k);
        assert forall|i: int| 0 <= i < k implies same_byte(cs, #[trigger] f1[i], f2[i]) by { assert(same_byte(cs, h[i], t[i])); }
    }
    if same_text(cs, f1, f2) && r1 is Some {
        let k = f1.len() as int;
        if r2 is None { assert(p.subrange(0, n) =~= f1); }
        else {
            let (a, b) = (r1->0, r2->0);
            if below(cs, p, t) {
                assert(a[b.len() as int] == p[n]);
                assert forall|i: int| 0 <= i < b.len() implies same_byte(cs, #[trigger] a.subrange(0, b.len() as int)[i], b[i]) by { assert(same_byte(cs, p.subrange(0, n)[k + 1 + i], t[k + 1 + i])); }
            }
            if below(cs, a, b) {
                assert(a[b.len() as int] == p[n]);
                assert forall|i: int| 0 <= i < n implies same_byte(cs, #[trigger] p.subrange(0, n)[i], t[i]) by {
                    if i < k { assert(same_byte(cs, f1[i], f2[i])); } else if i > k { assert(same_byte(cs, a.subrange(0, b.len() as int)[i - k - 1], b[i - k - 1])); }
                }
            }
        }
    }
}
//@fn strip_path_prefix
//@sig fn strip_path_prefix<'x>(vfs: &VxFs, case_sensitive: bool, mut path: &'x str, to_strip: &str, Ghost(p0): Ghost<Seq<u8>>, Ghost(t0): Ghost<Seq<u8>>) -> (r: Option<&'x str>)
    requires bts(path) == p0, bts(to_strip) == t0,
    ensures r is Some <==> below(case_sensitive, p0, t0), r is Some ==> bts(r->0) == p0.subrange((t0.len() + 1) as int, p0.len() as int),
//@begin
    proof { assert(p0.subrange(0, p0.len() as int) =~= p0); }
//@loop 0
    invariant below(case_sensitive, p0, t0) <==> below(case_sensitive, bts(path), bts(to_strip)),
        p0.len() - bts(path).len() == t0.len() - bts(to_strip).len() >= 0, bts(path) == p0.subrange(p0.len() - bts(path).len(), p0.len() as int),
    decreases bts(path).len(),
//@before if !match_case
    proof {
        first_items(case_sensitive, bts(path), bts(to_strip), bts(folder1), opt(rest), bts(folder2), opt(rest_to_strip));
        if rest is Some { assert(bts(rest->0) =~= bts(path).subrange((bts(folder1).len() + 1) as int, bts(path).len() as int)); assert(bts(rest->0) =~= p0.subrange(p0.len() - bts(rest->0).len(), p0.len() as int)); }
    }
//@end

// ---- components (std::path, Unix): the root, '.', '..' and names
ghost enum C { Root, Cur, Up, Name(Seq<u8>) }
#[verifier::external_body]
struct OsStr { x: u8 }
impl OsStr {
    uninterp spec fn c(&self) -> C;
    #[verifier::external_body]
    fn to_str<'a>(&'a self) -> (r: Option<&'a str>) ensures r is Some && (self.c() is Name ==> bts(r->0) == self.c()->Name_0) { unimplemented!() }
}
#[derive(Clone, Copy)]
enum Component<'a> { RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
impl<'a> Component<'a> {
    spec fn c(self) -> C { match self { Component::RootDir => C::Root, Component::CurDir => C::Cur, Component::ParentDir => C::Up, Component::Normal(n) => n.c() } }
    #[verifier::external_body]
    fn as_os_str(self) -> (r: &'a OsStr) ensures r.c() == self.c() { unimplemented!() }
}
trait VxC: Copy { spec fn cc(self) -> C; }
impl<'a> VxC for Component<'a> { spec fn cc(self) -> C { self.c() } }
impl<'b, 'a> VxC for &'b Component<'a> { spec fn cc(self) -> C { (*self).c() } }
/// == of components
#[verifier::external_body]
fn vx_comp_eq<A: VxC>(a: A, b: A) -> (r: bool) ensures r == (a.cc() == b.cc()) { unimplemented!() }
/// Path::components of a text, and the text of a list of components (join by separators)
uninterp spec fn comps(b: Seq<u8>) -> Seq<C>;
uninterp spec fn render(c: Seq<C>) -> Seq<u8>;
uninterp spec fn ok_name(c: C) -> bool;
/// A list that goes nowhere but down
spec fn clean(c: Seq<C>) -> bool { forall|i: int| 0 <= i < c.len() ==> (i == 0 && #[trigger] c[i] == C::Root) || (c[i] is Name && ok_name(c[i])) }
/// std: names come out as they are, the root only in front; the text of a clean list is read as this list.
#[verifier::external_body]
proof fn std_components(b: Seq<u8>) ensures forall|i: int| 0 <= i < comps(b).len() ==> (#[trigger] comps(b)[i] is Name ==> ok_name(comps(b)[i])) && (comps(b)[i] == C::Root ==> i == 0) { }
#[verifier::external_body]
proof fn std_render(c: Seq<C>) requires clean(c) ensures comps(render(c)) == c { }
#[verifier::external_body]
struct Components<'a> { x: &'a u8 }
impl<'a> Components<'a> {
    uninterp spec fn all(&self) -> Seq<C>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<Component<'a>>)
        requires 0 <= old(self).at() <= old(self).all().len(),
        ensures final(self).all() == old(self).all(), r is Some <==> old(self).at() < old(self).all().len(),
            r is Some ==> (r->0).c() == old(self).all()[old(self).at()] && final(self).at() == old(self).at() + 1 && (r->0 is Normal <==> (r->0).c() is Name), r is None ==> final(self).at() == old(self).at(),
    { unimplemented!() }
    fn next(&mut self) -> (r: Option<Component<'a>>)
        requires 0 <= old(self).at() <= old(self).all().len(),
        ensures final(self).all() == old(self).all(), r is Some <==> old(self).at() < old(self).all().len(),
            r is Some ==> (r->0).c() == old(self).all()[old(self).at()] && final(self).at() == old(self).at() + 1, r is None ==> final(self).at() == old(self).at(),
    { self.vx_next() }
    #[verifier::external_body]
    fn peek<'b>(&'b self) -> (r: Option<&'b Component<'a>>)
        requires 0 <= self.at() <= self.all().len(),
        ensures r is Some <==> self.at() < self.all().len(), r is Some ==> (*r->0).c() == self.all()[self.at()],
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_components<'a>(p: &'a str) -> (r: Components<'a>) ensures r.all() == comps(bts(p)), r.at() == 0 { unimplemented!() }
/// PathBuf as the list it holds: push of the root starts over, pop goes up unless at the root.
#[verifier::external_body]
struct PathBuf { x: u8 }
impl PathBuf {
    uninterp spec fn v(&self) -> Seq<C>;
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self) ensures r.v() == Seq::<C>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, o: &OsStr)
        requires o.c() == C::Root || o.c() is Name, clean(old(self).v()),
        ensures final(self).v() == if o.c() == C::Root { seq![C::Root] } else { old(self).v().push(o.c()) } { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: bool)
        requires clean(old(self).v()),
        ensures final(self).v() == if old(self).v().len() > 0 && old(self).v().last() is Name { old(self).v().drop_last() } else { old(self).v() } { unimplemented!() }
    #[verifier::external_body]
    fn to_str<'a>(&'a self) -> (r: Option<&'a str>) requires clean(self.v()), ensures r is Some && bts(r->0) == render(self.v()) { unimplemented!() }
}
/// What a list of components denotes: '.' stays, '..' goes up.
spec fn walk(from: Seq<C>, c: Seq<C>) -> Seq<C> decreases c.len() {
    if c.len() == 0 { from } else {
        let p = walk(from, c.drop_last());
        match c.last() { C::Cur => p, C::Up => if p.len() > 0 && p.last() is Name { p.drop_last() } else { p }, C::Root => seq![C::Root], x => p.push(x) }
    }
}
spec fn denotes(b: Seq<u8>) -> Seq<C> { walk(Seq::empty(), comps(b)) }
proof fn walk_clean(c: Seq<C>)
    requires forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i] is Name ==> ok_name(c[i])),
    ensures clean(walk(Seq::empty(), c)),
    decreases c.len(),
{
    if c.len() > 0 { walk_clean(c.drop_last()); }
}
/// Clean lists are walked as they are.
proof fn walk_same(from: Seq<C>, c: Seq<C>)
    requires clean(c), c.len() > 0 && c[0] == C::Root ==> from.len() == 0,
    ensures walk(from, c) == from + c,
    decreases c.len(),
{
    if c.len() > 0 {
        assert(clean(c.drop_last()));
        walk_same(from, c.drop_last());
        assert(c.last() == c[c.len() - 1]);
        assert(from + c =~= if c.last() == C::Root { seq![C::Root] } else { (from + c.drop_last()).push(c.last()) });
    } else { assert(from + c =~= from); }
}
/// Normalising keeps what a path denotes, gives a clean path, and normalising that changes nothing.
proof fn normal_form(b: Seq<u8>)
    ensures denotes(render(denotes(b))) == denotes(b), clean(comps(render(denotes(b)))), render(denotes(render(denotes(b)))) == render(denotes(b)),
{
    std_components(b);
    walk_clean(comps(b));
    std_render(denotes(b));
    walk_same(Seq::empty(), denotes(b));
    assert(Seq::<C>::empty() + denotes(b) =~= denotes(b));
}
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: VxArc) ensures r.b() == bts(s) { unimplemented!() }
#[verifier::external_body]
struct VxArc { x: u8 }
impl VxArc { uninterp spec fn b(&self) -> Seq<u8>; }
//@rwclear
//@file crates/vfs/src/normalized_path.rs
//@rw $x.as_ref().components() ==> vx_components($x)
//@rw $x == &**$y ==> vx_str_eq($x, $y)
//@rw AbsPath::new_arc($x.into()) ==> vx_owned($x)
//@rw path.len() ==> vx_len(path)
//@fn normalize
//@sig fn normalize(path: &str) -> (r: Option<VxArc>)
    ensures r is Some <==> bts(path) != render(denotes(bts(path))), r is Some ==> (r->0).b() == render(denotes(bts(path))),
//@begin
    proof { std_components(bts(path)); walk_clean(comps(bts(path))); }
//@loop 0
    invariant it__0.all() == comps(bts(path)), 0 <= it__0.at() <= it__0.all().len(), normalized.v() == walk(Seq::empty(), it__0.all().subrange(0, it__0.at())),
        forall|i: int| 0 <= i < it__0.all().len() ==> (#[trigger] it__0.all()[i] is Name ==> ok_name(it__0.all()[i])) && (it__0.all()[i] == C::Root ==> i == 0),
    ensures it__0.at() == it__0.all().len(),
    decreases it__0.all().len() - it__0.at(),
//@loopbegin 0
    let ghost k = it__0.at();
    proof {
        walk_clean(it__0.all().subrange(0, k));
        if k < it__0.all().len() { assert(it__0.all().subrange(0, k + 1).drop_last() =~= it__0.all().subrange(0, k)); }
    }
//@before let s =
    proof { assert(comps(bts(path)).subrange(0, comps(bts(path)).len() as int) =~= comps(bts(path))); }
//@end

enum Cow<'a> { Borrowed(&'a str), Owned(VxArc) }
spec fn cow(c: Cow) -> Seq<u8> { match c { Cow::Borrowed(s) => bts(s), Cow::Owned(o) => o.b() } }
//@fn NormalizedPath::normalize
//@sig fn normalize_path(path: &str) -> (r: Cow<'_>)
//@rw Self::new_arc($x) ==> $x
//@rw Self::new($x) ==> $x
    // borrowed iff nothing changes
    ensures cow(r) == render(denotes(bts(path))), r is Borrowed <==> bts(path) == render(denotes(bts(path))), clean(comps(cow(r))), denotes(cow(r)) == denotes(bts(path)),
//@begin
    proof { normal_form(bts(path)); }
//@end
//@file crates/vfs/src/lib.rs
impl VxArc {
    #[verifier::external_body]
    fn r(&self) -> (r: &str) ensures bts(r) == self.b() { unimplemented!() }
}
//@rwclear
impl VxFs {
//@fn VfsHandler::normalize_rc_path
//@sig fn normalize_rc_path(&self, path: VxArc) -> (r: VxArc)
//@rw self.normalize_path(&path) ==> normalize_path(path.r())
//@rw NormalizedPath::new_arc($x) ==> $x
    ensures r.b() == render(denotes(path.b())), clean(comps(r.b())), denotes(r.b()) == denotes(path.b()),
//@end
//@fn VfsHandler::unchecked_abs_path
//@sig fn unchecked_abs_path(&self, mut path: &str, Ghost(p0): Ghost<Seq<u8>>) -> (r: VxArc)
//@rw AbsPath::new_arc($x.into()) ==> vx_owned($x)
    requires bts(path) == p0,
    // one separator at the end goes (known finding: also that of the root itself)
    ensures r.b() == if p0.len() > 0 && p0.last() == 47 { p0.drop_last() } else { p0 },
//@begin
    proof { if p0.len() > 0 { assert(p0.drop_last().push(p0.last()) =~= p0); } assert forall|x: Seq<u8>| #[trigger] x.push(SEP) == p0 implies x == p0.drop_last() by { assert(x.push(SEP).drop_last() =~= x); } }
//@end
}
// ---- one path relative to another
/// String: text being built
#[verifier::external_body]
struct VxOut { x: String }
impl VxOut {
    uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.b() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push_str(&mut self, s: &str) ensures final(self).b() == old(self).b() + bts(s) { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, c: char) ensures c == '/' ==> final(self).b() == old(self).b().push(SEP) { unimplemented!() }
}
#[verifier::external_body]
fn vx_dots<'a>() -> (r: &'a str) ensures bts(r) == seq![46u8, 46] { ".." }
/// '../' k times, then names with separators between them
spec fn rel_text(k: nat, names: Seq<C>) -> Seq<u8> decreases names.len() {
    if names.len() == 0 { dots(k) } else if names.len() == 1 { dots(k) + names.last()->Name_0 } else { rel_text(k, names.drop_last()).push(SEP) + names.last()->Name_0 }
}
spec fn dots(k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { (dots((k - 1) as nat) + seq![46u8, 46]).push(SEP) } }
spec fn all_names(c: Seq<C>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] is Name && ok_name(c[i]) }
spec fn ups(k: nat) -> Seq<C> { Seq::new(k, |i: int| C::Up) }
/// std: such a text is read as the components it was made of.
#[verifier::external_body]
proof fn std_relative(k: nat, names: Seq<C>) requires all_names(names) ensures comps(rel_text(k, names)) == ups(k) + names { }
spec fn rooted(c: Seq<C>) -> bool { clean(c) && c.len() > 0 && c[0] == C::Root }
proof fn walk_ups(a: Seq<C>, k: nat)
    requires k < a.len(), rooted(a),
    ensures walk(a, ups(k)) == a.take(a.len() - k),
    decreases k,
{
    if k > 0 { walk_ups(a, (k - 1) as nat); assert(ups(k).drop_last() =~= ups((k - 1) as nat)); let p = a.take(a.len() - (k - 1)); assert(p.last() == a[a.len() - k]); assert(p.drop_last() =~= a.take(a.len() - k)); }
    else { assert(a.take(a.len() as int) =~= a); }
}
proof fn walk_add(a: Seq<C>, x: Seq<C>, y: Seq<C>)
    ensures walk(a, x + y) == walk(walk(a, x), y),
    decreases y.len(),
{
    if y.len() > 0 { walk_add(a, x, y.drop_last()); assert((x + y).drop_last() =~= x + y.drop_last()); assert((x + y).last() == y.last()); } else { assert(x + y =~= x); }
}
/// Joined back onto the directory, the relative path denotes the path.
proof fn joins_back(f: Seq<C>, t: Seq<C>, n: int)
    requires rooted(f), rooted(t), 1 <= n <= f.len(), n <= t.len(), f.take(n) == t.take(n),
    ensures walk(t, comps(rel_text((t.len() - n) as nat, f.skip(n)))) == f,
{
    let (k, names) = ((t.len() - n) as nat, f.skip(n));
    assert(all_names(names));
    std_relative(k, names);
    walk_ups(t, k);
    walk_add(t, ups(k), names);
    walk_same(t.take(n), names);
    assert(t.take(n) + names =~= f);
}
//@rw $x.as_ref().components().peekable() ==> vx_components($x)
//@rw $x.components().peekable() ==> vx_components($x)
//@rw a == b ==> vx_comp_eq(a, b)
//@rw String::new() ==> VxOut::new()
//@rw out.push_str("..") ==> out.push_str(vx_dots())
//@fn path_relative_to
//@sig fn path_relative_to(from: &str, to: &str, separator: char) -> (r: Option<VxOut>)
    requires separator == '/', rooted(comps(bts(from))), rooted(comps(bts(to))),
    ensures r is Some, walk(comps(bts(to)), comps((r->0).b())) == comps(bts(from)),
//@begin
    let ghost (f, t) = (comps(bts(from)), comps(bts(to)));
//@loop 0
    invariant from_it.all() == f, to_it.all() == t, 1 <= from_it.at() == to_it.at() <= f.len(), to_it.at() <= t.len(), f.take(from_it.at()) == t.take(from_it.at()),
        rooted(f), rooted(t),
    decreases f.len() - from_it.at(),
//@loopbegin 0
    let ghost m = from_it.at();
    proof { if m < f.len() && m < t.len() && f[m] == t[m] { assert(f.take(m + 1) =~= f.take(m).push(f[m])); assert(t.take(m + 1) =~= t.take(m).push(t[m])); } }
//@before let mut out
    let ghost n = from_it.at();
//@loop 1
    invariant it__1.all() == t, 1 <= n <= it__1.at() <= t.len(), out.b() == dots((it__1.at() - n) as nat), separator == '/',
    ensures it__1.at() == t.len(),
    decreases t.len() - it__1.at(),
//@before let mut needs_separator
    let ghost k = (t.len() - n) as nat;
    proof { assert(f.subrange(n, n) =~= Seq::<C>::empty()); }
//@loop 2
    invariant it__2.all() == f, 1 <= n <= it__2.at() <= f.len(), out.b() == rel_text(k, f.subrange(n, it__2.at())), needs_separator == (it__2.at() > n), separator == '/', rooted(f),
    ensures it__2.at() == f.len(),
    decreases f.len() - it__2.at(),
//@loopbegin 2
    let ghost j = it__2.at();
    proof { if j < f.len() { assert(f.subrange(n, j + 1).drop_last() =~= f.subrange(n, j)); assert(f.subrange(n, j + 1).last() == f[j]); } }
//@before Some(out)
    proof { assert(f.subrange(n, f.len() as int) =~= f.skip(n)); joins_back(f, t, n); }
//@end
}
fn main() {}
