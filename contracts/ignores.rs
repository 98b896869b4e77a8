#![allow(warnings)]
// C24: ignore comments (crates/parsa_python_cst/src/{lib,code_actions}.rs, crates/zuban_python/src/diagnostics.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
type CodeIndex = u32;
type B = Seq<u8>;
//@include str_spec.inc
// ---- std, on bytes
/// A text of ASCII characters as bytes
spec fn asc(s: Seq<char>) -> B { Seq::new(s.len(), |i: int| s[i] as u8) }
spec fn is_asc(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
trait VxPat { spec fn pat(&self) -> Seq<char>; }
impl VxPat for char { spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl VxPat for &str { spec fn pat(&self) -> Seq<char> { self@ } }
spec fn pre(b: B, p: B) -> bool { b.len() >= p.len() && b.take(p.len() as int) == p }
spec fn suf(b: B, p: B) -> bool { b.len() >= p.len() && b.skip(b.len() - p.len()) == p }
#[verifier::external_body]
fn vx_strip_prefix<'a, P: VxPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    requires is_asc(p.pat()),
    ensures r is Some <==> pre(bts(s), asc(p.pat())), r is Some ==> bts(r->0) == bts(s).skip(p.pat().len() as int),
{ unimplemented!() }
#[verifier::external_body]
fn vx_strip_suffix_p<'a, P: VxPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    requires is_asc(p.pat()),
    ensures r is Some <==> suf(bts(s), asc(p.pat())), r is Some ==> bts(r->0) == bts(s).take(bts(s).len() - p.pat().len()),
{ unimplemented!() }
spec fn lead(b: B, x: u8) -> nat decreases b.len() { if b.len() > 0 && b[0] == x { 1 + lead(b.skip(1), x) } else { 0 } }
spec fn cut(b: B, x: u8) -> B decreases b.len() { if b.len() > 0 && b.last() == x { cut(b.drop_last(), x) } else { b } }
/// char::is_ascii_whitespace
spec fn aw(x: u8) -> bool { x == 32 || x == 9 || x == 10 || x == 12 || x == 13 }
spec fn cut_aw(b: B) -> B decreases b.len() { if b.len() > 0 && aw(b.last()) { cut_aw(b.drop_last()) } else { b } }
#[verifier::external_body]
fn vx_trim_start<'a>(s: &'a str, c: char) -> (r: &'a str) requires (c as u32) < 128 ensures bts(r) == bts(s).skip(lead(bts(s), c as u8) as int) { s.trim_start_matches(c) }
#[verifier::external_body]
fn vx_trim_end<'a>(s: &'a str, c: char) -> (r: &'a str) requires (c as u32) < 128 ensures bts(r) == cut(bts(s), c as u8) { s.trim_end_matches(c) }
#[verifier::external_body]
fn vx_trim<'a>(s: &'a str, c: char) -> (r: &'a str) requires (c as u32) < 128 ensures bts(r) == trim(bts(s), c as u8) { s.trim_matches(c) }
#[verifier::external_body]
fn vx_trim_ascii_end<'a>(s: &'a str) -> (r: &'a str) ensures bts(r) == cut_aw(bts(s)) { s.trim_ascii_end() }
#[verifier::external_body]
fn vx_starts2(s: &str, a: char, c: char) -> (r: bool) requires (a as u32) < 128, (c as u32) < 128 ensures r == (bts(s).len() > 0 && (bts(s)[0] == a as u8 || bts(s)[0] == c as u8)) { s.starts_with([a, c]) }
#[verifier::external_body]
fn vx_ends(s: &str, c: char) -> (r: bool) requires (c as u32) < 128 ensures r == (bts(s).len() > 0 && bts(s).last() == c as u8) { s.ends_with(c) }
#[verifier::external_body]
fn vx_empty(s: &str) -> (r: bool) ensures r == (bts(s).len() == 0) { s.is_empty() }
/// find of one of two ASCII characters: the first one, which is at a character boundary
#[verifier::external_body]
fn vx_find2(s: &str, a: char, c: char) -> (r: Option<usize>)
    requires (a as u32) < 128, (c as u32) < 128,
    ensures
        r is Some ==> r->0 < bts(s).len() && (bts(s)[r->0 as int] == a as u8 || bts(s)[r->0 as int] == c as u8) && (forall|i: int| 0 <= i < r->0 ==> #[trigger] bts(s)[i] != a as u8 && bts(s)[i] != c as u8),
        r is None ==> forall|i: int| 0 <= i < bts(s).len() ==> #[trigger] bts(s)[i] != a as u8 && bts(s)[i] != c as u8,
{ s.find([a, c]) }
spec fn trim(b: B, x: u8) -> B { cut(b.skip(lead(b, x) as int), x) }

/// Pieces between separators (kind 0: line breaks, 1: number signs, 2: commas), in order
spec fn nl(x: u8) -> bool { x == 10 || x == 13 }
spec fn sep(k: int, x: u8) -> bool { if k == 0 { nl(x) } else if k == 1 { x == 35 } else { x == 44 } }
spec fn first(b: B, k: int) -> nat decreases b.len() { if b.len() == 0 || sep(k, b[0]) { 0 } else { 1 + first(b.skip(1), k) } }
spec fn split(b: B, k: int) -> Seq<B> decreases b.len() {
    let n = first(b, k);
    if n < b.len() { seq![b.take(n as int)] + split(b.skip(n as int + 1), k) } else { seq![b] }
}
#[verifier::external_body]
struct VxSplit<'a> { x: &'a str }
spec fn texts(v: Seq<&str>) -> Seq<B> { Seq::new(v.len(), |i: int| bts(v[i])) }
impl<'a> VxSplit<'a> {
    uninterp spec fn rest(&self) -> Seq<&'a str>;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<&'a str>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
spec fn sepk(c: char) -> int { if c == '#' { 1 } else { 2 } }
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: VxSplit<'a>) requires c == '#' || c == ',' ensures texts(r.rest()) == split(bts(s), sepk(c)) { unimplemented!() }
#[verifier::external_body]
fn vx_split2<'a>(s: &'a str, a: char, c: char) -> (r: VxSplit<'a>) requires a == '\n', c == '\r' ensures texts(r.rest()) == split(bts(s), 0) { unimplemented!() }
fn vx_unwrap<T>(x: Option<T>) -> (r: T) requires x is Some ensures r == x->0 { x.unwrap() }

proof fn first_is(b: B, k: int)
    ensures first(b, k) <= b.len(), forall|i: int| 0 <= i < first(b, k) ==> !sep(k, #[trigger] b[i]), first(b, k) < b.len() ==> sep(k, b[first(b, k) as int]),
    decreases b.len(),
{
    if b.len() > 0 && !sep(k, b[0]) {
        let r = b.skip(1);
        first_is(r, k);
        assert forall|i: int| 0 <= i < first(b, k) implies !sep(k, #[trigger] b[i]) by { if i > 0 { assert(r[i - 1] == b[i]); } }
        if first(b, k) < b.len() { assert(r[first(r, k) as int] == b[first(b, k) as int]); }
    }
}
proof fn first_at(b: B, k: int, n: int)
    requires 0 <= n <= b.len(), forall|i: int| 0 <= i < n ==> !sep(k, #[trigger] b[i]), n < b.len() ==> sep(k, b[n]),
    ensures first(b, k) == n,
{
    first_is(b, k);
    if first(b, k) < n { assert(sep(k, b[first(b, k) as int])); }
    if first(b, k) > n { assert(!sep(k, b[n])); }
}
/// Length of pieces with one separator after each
spec fn total(l: Seq<B>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { l[0].len() + 1 + total(l.skip(1)) } }
proof fn split_total(b: B, k: int) ensures split(b, k).len() >= 1, total(split(b, k)) == b.len() + 1 decreases b.len()
{
    first_is(b, k);
    let n = first(b, k);
    if n < b.len() {
        split_total(b.skip(n as int + 1), k);
        assert(split(b, k).skip(1) =~= split(b.skip(n as int + 1), k));
    } else { assert(split(b, k).skip(1) =~= Seq::empty()); assert(total(Seq::<B>::empty()) == 0); }
}

// ---- specification
/// What one ignore comment says: everything, or the codes at a place of the text
ghost struct Ign { all: bool, kind: Seq<char>, at: int, codes: B }
spec fn directive(kind: Seq<char>, s: int, t: B) -> Option<Ign> {
    if !pre(t, asc("ignore"@)) { None } else {
        let after = t.skip(6);
        let o = lead(after, 32);
        let x = cut_aw(after.skip(o as int));
        if x.len() > 2 && x[0] == 91 && x.last() == 93 { Some(Ign { all: false, kind, at: s + 6 + o + 1, codes: x.subrange(1, x.len() - 1) }) }
        else if after.len() == 0 || after[0] == 32 || after[0] == 9 { Some(Ign { all: true, kind, at: 0, codes: Seq::empty() }) }
        else { None }
    }
}
/// What the comment c at place s (after its number sign) says
spec fn said(c: B, s: int) -> Option<Ign> {
    let o = lead(c, 32);
    let r = c.skip(o as int);
    if pre(r, asc("type:"@)) { let i = r.skip(5); directive("type"@, s + o + 5 + lead(i, 32), i.skip(lead(i, 32) as int)) }
    else if pre(r, asc("zuban:"@)) { let i = r.skip(6); directive("zuban"@, s + o + 6 + lead(i, 32), i.skip(lead(i, 32) as int)) }
    else { None }
}
spec fn one(o: Option<Ign>) -> Seq<Ign> { match o { Some(g) => seq![g], None => Seq::empty() } }
spec fn comments_say(l: Seq<B>, s: int) -> Seq<Ign> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { one(said(l[0], s)) + comments_say(l.skip(1), s + l[0].len() + 1) }
}
spec fn line_says(b: B, s: int) -> Seq<Ign> { let l = split(b, 1); comments_say(l.skip(1), s + l[0].len() + 1) }
spec fn lines_say(l: Seq<B>, s: int) -> Seq<Ign> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { line_says(l[0], s) + lines_say(l.skip(1), s + l[0].len() + 1) }
}
/// The ignore comments of text b at place s, in order
spec fn says(b: B, s: int) -> Seq<Ign> { lines_say(split(b, 0), s) }
/// r is what the comments w say together: everything as soon as one says so
spec fn res(r: Option<TypeIgnoreComment>, w: Seq<Ign>) -> bool {
    match r {
        None => w.len() == 0,
        Some(TypeIgnoreComment::WithoutCode) => exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).all,
        Some(TypeIgnoreComment::WithCodes { codes, kind, codes_start_at_index, codes_of_later_type_ignores }) => {
            &&& w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> !(#[trigger] w[i]).all
            &&& bts(codes) == w[0].codes && kind@ == w[0].kind && codes_start_at_index == w[0].at
            &&& codes_of_later_type_ignores@.len() == w.len() - 1 && forall|i: int| 0 <= i < w.len() - 1 ==> bts(#[trigger] codes_of_later_type_ignores@[i]) == w[i + 1].codes
        },
    }
}
/// end of the line that i is on
spec fn eol(b: B, i: int) -> int { i + first(b.skip(i), 0) }
proof fn lits()
    ensures
        asc("ignore"@) == seq![105u8, 103, 110, 111, 114, 101], asc("type:"@) == seq![116u8, 121, 112, 101, 58], asc("zuban:"@) == seq![122u8, 117, 98, 97, 110, 58],
        is_asc("ignore"@), is_asc("type:"@), is_asc("zuban:"@), is_asc("type"@), is_asc("zuban"@), "ignore"@.len() == 6, "type:"@.len() == 5, "zuban:"@.len() == 6,
        "type"@ != "zuban"@, asc("type"@) == seq![116u8, 121, 112, 101], asc("zuban"@) == seq![122u8, 117, 98, 97, 110],
{
    reveal_strlit("ignore"); reveal_strlit("type:"); reveal_strlit("zuban:"); reveal_strlit("type"); reveal_strlit("zuban");
    assert(asc("ignore"@) =~= seq![105u8, 103, 110, 111, 114, 101]);
    assert(asc("type:"@) =~= seq![116u8, 121, 112, 101, 58]);
    assert(asc("zuban:"@) =~= seq![122u8, 117, 98, 97, 110, 58]);
    assert(asc("type"@) =~= seq![116u8, 121, 112, 101]);
    assert(asc("zuban"@) =~= seq![122u8, 117, 98, 97, 110]);
    assert("type"@.len() == 4 && "zuban"@.len() == 5);
}
proof fn lead_len(b: B, x: u8) ensures lead(b, x) <= b.len(), forall|i: int| 0 <= i < lead(b, x) ==> #[trigger] b[i] == x, lead(b, x) < b.len() ==> b[lead(b, x) as int] != x decreases b.len()
{
    if b.len() > 0 && b[0] == x {
        let r = b.skip(1);
        lead_len(r, x);
        assert forall|i: int| 0 <= i < lead(b, x) implies #[trigger] b[i] == x by { if i > 0 { assert(r[i - 1] == b[i]); } }
        if lead(b, x) < b.len() { assert(r[lead(r, x) as int] == b[lead(b, x) as int]); }
    }
}
proof fn lead_at(b: B, x: u8, n: int) requires 0 <= n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] b[i] == x, n < b.len() ==> b[n] != x ensures lead(b, x) == n
{
    lead_len(b, x);
    if lead(b, x) < n { assert(b[lead(b, x) as int] == x); }
    if lead(b, x) > n { assert(b[n] == x); }
}
proof fn cut_aw_is(b: B) ensures cut_aw(b).len() <= b.len(), cut_aw(b) == b.take(cut_aw(b).len() as int), cut_aw(b).len() > 0 ==> !aw(cut_aw(b).last()), forall|i: int| cut_aw(b).len() <= i < b.len() ==> aw(#[trigger] b[i]) decreases b.len()
{
    if b.len() > 0 && aw(b.last()) { cut_aw_is(b.drop_last()); assert(b.drop_last().take(cut_aw(b).len() as int) =~= b.take(cut_aw(b).len() as int));
        assert forall|i: int| cut_aw(b).len() <= i < b.len() implies aw(#[trigger] b[i]) by { if i < b.len() - 1 { assert(b.drop_last()[i] == b[i]); } } }
    else { assert(b.take(b.len() as int) =~= b); }
}
proof fn cut_aw_at(b: B, n: int) requires 0 <= n <= b.len(), n > 0 ==> !aw(b[n - 1]), forall|i: int| n <= i < b.len() ==> aw(#[trigger] b[i]) ensures cut_aw(b) == b.take(n)
{
    cut_aw_is(b);
    let m = cut_aw(b).len();
    if m < n { assert(aw(b[n - 1])); }
    if m > n { assert(cut_aw(b).last() == b[m - 1]); assert(aw(b[m - 1])); }
}
proof fn cut_is(b: B, x: u8) ensures cut(b, x).len() <= b.len(), cut(b, x) == b.take(cut(b, x).len() as int), cut(b, x).len() > 0 ==> cut(b, x).last() != x, forall|i: int| cut(b, x).len() <= i < b.len() ==> #[trigger] b[i] == x decreases b.len()
{
    if b.len() > 0 && b.last() == x { cut_is(b.drop_last(), x); assert(b.drop_last().take(cut(b, x).len() as int) =~= b.take(cut(b, x).len() as int));
        assert forall|i: int| cut(b, x).len() <= i < b.len() implies #[trigger] b[i] == x by { if i < b.len() - 1 { assert(b.drop_last()[i] == b[i]); } } }
    else { assert(b.take(b.len() as int) =~= b); }
}
proof fn cut_at(b: B, x: u8, n: int) requires 0 <= n <= b.len(), n > 0 ==> b[n - 1] != x, forall|i: int| n <= i < b.len() ==> #[trigger] b[i] == x ensures cut(b, x) == b.take(n)
{
    cut_is(b, x);
    let m = cut(b, x).len();
    if m < n { assert(b[n - 1] == x); }
    if m > n { assert(cut(b, x).last() == b[m - 1]); assert(b[m - 1] == x); }
}

proof fn pre1(b: B, y: u8) ensures pre(b, seq![y]) <==> b.len() > 0 && b[0] == y {
    if b.len() > 0 { assert(b.take(1)[0] == b[0]); assert(seq![y][0] == y); if b[0] == y { assert(b.take(1) =~= seq![y]); } }
}
proof fn suf1(b: B, y: u8) ensures suf(b, seq![y]) <==> b.len() > 0 && b.last() == y {
    if b.len() > 0 { assert(b.skip(b.len() - 1)[0] == b.last()); assert(seq![y][0] == y); if b.last() == y { assert(b.skip(b.len() - 1) =~= seq![y]); } }
}

//@file crates/parsa_python_cst/src/lib.rs
//@rw $x.trim_start_matches($c) ==> vx_trim_start($x, $c)
//@rw $x.trim_end_matches($c) ==> vx_trim_end($x, $c)
//@rw $x.trim_ascii_end() ==> vx_trim_ascii_end($x)
//@rw $x.strip_prefix($p) ==> vx_strip_prefix($x, $p)
//@rw $x.strip_suffix($p) ==> vx_strip_suffix_p($x, $p)
//@rw $x.starts_with([$a, $b]) ==> vx_starts2($x, $a, $b)
//@rw $x.is_empty() ==> vx_empty($x)
//@rw $x.len() ==> vx_len($x)
//@rw vec![] ==> Vec::new()
//@enum TypeIgnoreComment

//@fn maybe_type_ignore ret=r
    requires start_at + bts(text).len() < u32::MAX,
    ensures match directive(kind@, start_at as int, bts(text)) { Some(g) => r is Some && res(r, seq![g]), None => r is None },
//@begin
    proof {
        lits(); utf8(text);
        let d = directive(kind@, start_at as int, bts(text));
        assert(d is Some ==> seq![d->0][0] == d->0);
        assert(is_asc("["@)) by { reveal_strlit("["); }
        assert(seq!['['].len() == 1 && asc(seq!['[']) =~= seq![91u8] && asc(seq![']']) =~= seq![93u8]);
        let after = bts(text).skip(6);
        lead_len(after, 32);
        let y = after.skip(lead(after, 32) as int);
        cut_aw_is(y);
        let x = cut_aw(y);
        pre1(x, 91);
        if x.len() > 0 {
            let z = x.skip(1);
            suf1(z, 93);
            if z.len() > 0 { assert(z.take(z.len() - 1) =~= x.subrange(1, x.len() - 1)); assert(z.last() == x.last()); }
        }
    }
//@end

// ---- the tree, as C03 and C04 describe it
#[derive(Clone, Copy, PartialEq, Eq)]
enum TerminalType { Name, Operator, String, Bytes, Number, Endmarker, Newline, ErrorToken, Indent, Dedent, ErrorDedent, FStringStart, FStringString, FStringEnd, NeverMatch }
#[derive(Clone, Copy, PartialEq, Eq)]
enum PyNodeType { Terminal(TerminalType), Other }
use PyNodeType::Terminal;
#[verifier::external_body]
#[derive(Clone, Copy)]
struct PyNode<'t> { x: &'t str }
#[verifier::external_body]
struct PyTree { x: u8 }
struct Tree(PyTree);
uninterp spec fn st(n: PyNode) -> int;
uninterp spec fn en(n: PyNode) -> int;
uninterp spec fn ty(n: PyNode) -> PyNodeType;
uninterp spec fn of(n: PyNode) -> PyTree;
/// place among the leaves
uninterp spec fn ix(n: PyNode) -> int;
impl PyTree {
    uninterp spec fn src(&self) -> B;
    uninterp spec fn leaves(&self) -> Seq<PyNode<'_>>;
    /// start of the first child of the root: of the first statement, or of the end marker
    uninterp spec fn content_start(&self) -> int;
}
impl Tree {
    #[verifier::external_body]
    fn code(&self) -> (r: &str) ensures bts(r) == self.0.src(), self.0.src().len() < u32::MAX - 1 { unimplemented!() }
}
uninterp spec fn is_root(n: PyNode) -> bool;
impl PyTree {
    #[verifier::external_body]
    fn root_node(&self) -> (r: PyNode<'_>) ensures is_root(r), of(r) == *self { unimplemented!() }
    /// with C04's contract: the last leaf that starts at or before the position, unless it ends before it
    #[verifier::external_body]
    fn leaf_by_position(&self, position: CodeIndex) -> (r: PyNode<'_>)
        requires exists|k: int| 0 <= k < self.leaves().len() && begins(#[trigger] self.leaves()[k], position as int),
        ensures of(r) == *self, in_tree(r), begins(r, position as int),
    { unimplemented!() }
}
/// a token with text starts here
spec fn begins(n: PyNode, p: int) -> bool { st(n) == p < en(n) }
/// n is a leaf of its tree
spec fn in_tree(n: PyNode) -> bool { 0 <= ix(n) < of(n).leaves().len() && of(n).leaves()[ix(n)] == n && leaves_ok(of(n)) }
/// up to the next token there are blanks, or blanks and a comment, a line break, or a joined line (C01)
spec fn gap(b: B, a: int, z: int) -> bool { exists|j: int| #[trigger] gap_to(b, a, z, j) }
spec fn gap_to(b: B, a: int, z: int, j: int) -> bool {
    &&& a <= j <= z && forall|i: int| a <= i < j ==> blank(#[trigger] b[i])
    &&& j < z ==> b[j] == 35 || nl(b[j]) || (b[j] == 92 && j + 1 < z && nl(b[j + 1]))
}
spec fn blank(x: u8) -> bool { x == 32 || x == 9 || x == 12 }
spec fn next_ok(b: B, l: Seq<PyNode>, k: int) -> bool { en(l[k]) <= st(l[k + 1]) && gap(b, en(l[k]), st(l[k + 1])) }
spec fn leaves_ok(t: PyTree) -> bool {
    let l = t.leaves();
    let b = t.src();
    &&& b.len() < u32::MAX - 1
    &&& forall|k: int| 0 <= k < l.len() ==> 0 <= st(#[trigger] l[k]) <= en(l[k]) <= b.len() && bnd(b, st(l[k])) && bnd(b, en(l[k]))
    &&& forall|k: int| 0 <= k < l.len() - 1 ==> #[trigger] next_ok(b, l, k)
    &&& l.len() > 0 && en(l.last()) == b.len()
}
impl<'t> PyNode<'t> {
    #[verifier::external_body]
    fn start(&self) -> (r: CodeIndex) ensures r == st(*self) { unimplemented!() }
    #[verifier::external_body]
    fn end(&self) -> (r: CodeIndex) ensures r == en(*self) { unimplemented!() }
    #[verifier::external_body]
    fn nth_child(&self, i: usize) -> (r: PyNode<'t>) requires is_root(*self), i == 0 ensures st(r) == of(*self).content_start(), 0 <= st(r) <= of(*self).src().len(), bnd(of(*self).src(), st(r)) { unimplemented!() }
    #[verifier::external_body]
    fn is_type(&self, t: PyNodeType) -> (r: bool) ensures r == (ty(*self) == t) { unimplemented!() }
    #[verifier::external_body]
    fn next_leaf(&self) -> (r: Option<PyNode<'t>>)
        requires in_tree(*self),
        ensures r is None <==> ix(*self) == of(*self).leaves().len() - 1, r is Some ==> of(r->0) == of(*self) && in_tree(r->0) && ix(r->0) == ix(*self) + 1,
    { unimplemented!() }
}

impl Tree {
//@rw rest.strip_prefix($p).or_else(|| { kind = $k; rest.strip_prefix($q) }) ==> match vx_strip_prefix(rest, $p) { Some(x__) => Some(x__), None => { kind = $k; vx_strip_prefix(rest, $q) } }
//@rw $x.split([$a, $b]) ==> vx_split2($x, $a, $b)
//@rw $x.split($c) ==> vx_split($x, $c)
//@rw iterator.next().unwrap() ==> vx_unwrap(iterator.vx_next())
//@rw code[$a..].find([$x, $y]) ==> vx_find2(vx_slice_from(code, $a), $x, $y)
//@rw &code[$a..$b] ==> vx_slice(code, $a, $b)
//@rw &code[$a..] ==> vx_slice_from(code, $a)
//@fn Tree::type_ignore_comment_for_region ret=r nloops=2
    requires start_at + bts(region).len() < u32::MAX - 1,
    ensures res(r, says(bts(region), start_at as int)),
//@begin
    let ghost s0 = start_at as int;
    let ghost W = says(bts(region), s0);
    let ghost mut acc: Seq<Ign> = Seq::empty();
    proof { utf8(region); split_total(bts(region), 0); lits(); assert(acc + W =~= W); }
//@loop 0
    invariant
        s0 + bts(region).len() < u32::MAX - 1, W == says(bts(region), s0),
        res(result, acc), acc + lines_say(texts(it__0.rest()), start_at as int) == W, start_at + total(texts(it__0.rest())) == s0 + bts(region).len() + 1,
    ensures acc == W, res(result, acc),
    decreases it__0.rest().len()
//@loopbegin 0
    let ghost ls = start_at as int;
    let ghost L = texts(it__0.rest());
//@after let line =
    proof {
        assert(L.skip(1) =~= texts(it__0.rest()));
        utf8(line); split_total(bts(line), 1);
    }
//@after let mut iterator
    let ghost P = split(bts(line), 1);
//@after #0 start_at +=
    proof {
        assert(texts(iterator.rest()) =~= P.skip(1));
    }
    let ghost tailw = lines_say(L.skip(1), ls + bts(line).len() + 1);
    proof { assert(acc + comments_say(texts(iterator.rest()), start_at as int) + tailw =~= acc + (line_says(bts(line), ls) + tailw)); }
//@loop 1
    invariant
        s0 + bts(region).len() < u32::MAX - 1, ls + bts(line).len() <= s0 + bts(region).len(),
        res(result, acc), acc + comments_say(texts(it__1.rest()), start_at as int) + tailw == W, start_at + total(texts(it__1.rest())) == ls + bts(line).len() + 1,
    ensures acc + tailw == W, res(result, acc), start_at == ls + bts(line).len() + 1,
    decreases it__1.rest().len()
//@loopbegin 1
    let ghost r0 = result;
    let ghost acc0 = acc;
    let ghost M = texts(it__1.rest());
//@after let comment =
    let ghost sd = said(bts(comment), start_at as int);
    proof {
        assert(M.skip(1) =~= texts(it__1.rest()));
        utf8(comment); lits(); lead_len(bts(comment), 32);
        let r = bts(comment).skip(lead(bts(comment), 32) as int);
        if pre(r, asc("type:"@)) { lead_len(r.skip(5), 32); }
        if pre(r, asc("zuban:"@)) { lead_len(r.skip(6), 32); }
        acc = acc + one(sd);
        assert(sd is Some ==> seq![sd->0][0] == sd->0);
        assert(acc0 + one(sd) + comments_say(M.skip(1), start_at + bts(comment).len() + 1) =~= acc0 + (one(sd) + comments_say(M.skip(1), start_at + bts(comment).len() + 1)));
    }
//@before #1 start_at +=
    proof {
        if sd is None { assert(acc =~= acc0); } else {
            let n = acc0.len() as int;
            assert(acc =~= acc0.push(sd->0));
            assert(acc[n] == sd->0);
            assert forall|i: int| 0 <= i < n implies #[trigger] acc[i] == acc0[i] by { }
            match r0 {
                None => { assert(res(result, acc)); },
                Some(TypeIgnoreComment::WithoutCode) => { let j = choose|j: int| 0 <= j < acc0.len() && (#[trigger] acc0[j]).all; assert(acc[j].all); assert(result == Some(TypeIgnoreComment::WithoutCode)); },
                Some(TypeIgnoreComment::WithCodes { codes, kind, codes_start_at_index, codes_of_later_type_ignores }) => {
                    if (sd->0).all { assert(result == Some(TypeIgnoreComment::WithoutCode)); }
                    else { assert(acc[0] == acc0[0]); assert(result->0 is WithCodes); assert(res(result, acc)); }
                },
            }
        }
        assert(res(result, acc));
    }
//@end
//@fn Tree::type_ignore_comment_for ret=r
    requires start <= end <= self.0.src().len(), bnd(self.0.src(), start as int), bnd(self.0.src(), end as int),
    ensures res(r, says(self.0.src().subrange(start as int, eol(self.0.src(), end as int)), start as int)), end <= eol(self.0.src(), end as int) <= self.0.src().len(),
//@after let code
    proof {
        let b = bts(code);
        let e = eol(b, end as int);
        utf8(code);
        first_is(b.skip(end as int), 0);
        assert(b.skip(end as int) =~= b.subrange(end as int, b.len() as int));
        assert forall|k: int| #![trigger b.skip(end as int)[k]] 0 <= k && end + k <= b.len() && (forall|i: int| 0 <= i < k ==> !nl(#[trigger] b.skip(end as int)[i])) && (end + k < b.len() ==> nl(b.skip(end as int)[k])) implies e == end + k by { first_at(b.skip(end as int), 0, k); }
        if e < b.len() { assert(nl(b[e])); assert(bnd(b, e)); }
    }
//@end
//@fn Tree::before_first_statement ret=r
    ensures bts(r) == self.0.src().take(self.0.content_start()), bts(r).len() < u32::MAX - 1,
//@rw &self.code()[$a..$b] ==> vx_slice(self.code(), $a, $b)
//@end
//@fn Tree::has_type_ignore_at_start ret=r
    ensures ({ let w = says(self.0.src().take(self.0.content_start()), 0); match r {
        Ok(true) => exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).all,
        Ok(false) => w.len() == 0,
        Err(c) => w.len() > 0 && (forall|i: int| 0 <= i < w.len() ==> !(#[trigger] w[i]).all) && bts(c) == w[0].codes,
    } }),
//@end
}

// ---- comments by place: c is the comment at s..e of b
spec fn chunk(b: B, s: int, e: int) -> bool {
    &&& 0 < s <= e <= b.len() && b[s - 1] == 35 && (e < b.len() ==> b[e] == 35 || nl(b[e]))
    &&& forall|i: int| s <= i < e ==> #[trigger] b[i] != 35 && !nl(b[i])
}
proof fn line_has(b: B, s: int, e: int, at: int)
    requires chunk(b, s, e), forall|i: int| 0 <= i < b.len() ==> !nl(#[trigger] b[i]), said(b.subrange(s, e), at + s) is Some,
    ensures line_says(b, at).contains(said(b.subrange(s, e), at + s)->0),
    decreases b.len(),
{
    first_is(b, 1);
    let m = first(b, 1) as int;
    assert(m < s) by { if m >= s { assert(!sep(1, b[s - 1])); } }
    let rest = b.skip(m + 1);
    let g = said(b.subrange(s, e), at + s)->0;
    let l = split(b, 1);
    assert(l.skip(1) =~= split(rest, 1));
    assert(l[0].len() == m);
    let lr = split(rest, 1);
    split_total(rest, 1);
    if s - 1 == m {
        assert forall|i: int| 0 <= i < e - s implies !sep(1, #[trigger] rest[i]) by { assert(rest[i] == b[i + s]); }
        if e < b.len() { assert(rest[e - s] == b[e]); }
        first_at(rest, 1, e - s);
        assert(lr[0] =~= b.subrange(s, e)) by { if e < b.len() { assert(rest.take(e - s) =~= b.subrange(s, e)); } else { assert(rest =~= b.subrange(s, e)); } }
        let w = comments_say(lr, at + s);
        assert(w[0] == g);
        assert(line_says(b, at) == w);
    } else {
        let (s2, e2) = (s - m - 1, e - m - 1);
        assert(rest[s2 - 1] == b[s - 1]);
        if e < b.len() { assert(rest[e2] == b[e]); }
        assert forall|i: int| s2 <= i < e2 implies #[trigger] rest[i] != 35 && !nl(rest[i]) by { assert(rest[i] == b[i + m + 1]); }
        assert forall|i: int| 0 <= i < rest.len() implies !nl(#[trigger] rest[i]) by { assert(rest[i] == b[i + m + 1]); }
        assert(rest.subrange(s2, e2) =~= b.subrange(s, e));
        line_has(rest, s2, e2, at + m + 1);
        let w = line_says(rest, at + m + 1);
        let i = choose|i: int| 0 <= i < w.len() && w[i] == g;
        let o = one(said(lr[0], at + m + 1));
        assert(line_says(b, at) =~= o + w);
        assert(line_says(b, at)[o.len() + i] == g);
    }
}
/// Every comment that says something is heard.
proof fn says_has(b: B, s: int, e: int, at: int)
    requires chunk(b, s, e), said(b.subrange(s, e), at + s) is Some,
    ensures says(b, at).contains(said(b.subrange(s, e), at + s)->0),
    decreases b.len(),
{
    first_is(b, 0);
    let n = first(b, 0) as int;
    let g = said(b.subrange(s, e), at + s)->0;
    let l = split(b, 0);
    if s - 1 < n {
        assert(e <= n) by { if e > n { if s <= n { assert(!nl(b[n])); } } }
        let f = b.take(n);
        assert(n == b.len() ==> f =~= b);
        assert(l[0] == f);
        assert(f.subrange(s, e) =~= b.subrange(s, e));
        assert forall|i: int| 0 <= i < f.len() implies !nl(#[trigger] f[i]) by { assert(!sep(0, b[i])); }
        assert(f[s - 1] == b[s - 1]);
        if e < n { assert(f[e] == b[e]); }
        assert(chunk(f, s, e));
        line_has(f, s, e, at);
        let w = line_says(f, at);
        let i = choose|i: int| 0 <= i < w.len() && w[i] == g;
        assert(says(b, at)[i] == g);
    } else {
        assert(n < b.len());
        assert(nl(b[n]) && s - 1 != n);
        let rest = b.skip(n + 1);
        let (s2, e2) = (s - n - 1, e - n - 1);
        assert(rest[s2 - 1] == b[s - 1]);
        if e < b.len() { assert(rest[e2] == b[e]); }
        assert forall|i: int| s2 <= i < e2 implies #[trigger] rest[i] != 35 && !nl(rest[i]) by { assert(rest[i] == b[i + n + 1]); }
        assert(rest.subrange(s2, e2) =~= b.subrange(s, e));
        says_has(rest, s2, e2, at + n + 1);
        let w = says(rest, at + n + 1);
        let i = choose|i: int| 0 <= i < w.len() && w[i] == g;
        assert(l.skip(1) =~= split(rest, 0));
        let o = line_says(l[0], at);
        assert(says(b, at) =~= o + w);
        assert(says(b, at)[o.len() + i] == g);
    }
}
/// g is what the comment at s..e says
spec fn from(b: B, at: int, g: Ign, s: int, e: int) -> bool { chunk(b, s, e) && said(b.subrange(s, e), at + s) == Some(g) }
proof fn line_only(b: B, at: int, g: Ign)
    requires line_says(b, at).contains(g), forall|i: int| 0 <= i < b.len() ==> !nl(#[trigger] b[i]),
    ensures exists|s: int, e: int| #[trigger] from(b, at, g, s, e),
    decreases b.len(),
{
    first_is(b, 1);
    let m = first(b, 1) as int;
    let l = split(b, 1);
    if m < b.len() {
        let rest = b.skip(m + 1);
        let lr = split(rest, 1);
        assert(l.skip(1) =~= lr);
        split_total(rest, 1);
        first_is(rest, 1);
        let e = first(rest, 1) as int;
        let o = one(said(lr[0], at + m + 1));
        let w = line_says(rest, at + m + 1);
        assert(line_says(b, at) =~= o + w);
        assert forall|i: int| 0 <= i < rest.len() implies !nl(#[trigger] rest[i]) by { assert(rest[i] == b[i + m + 1]); }
        let i = choose|i: int| 0 <= i < line_says(b, at).len() && line_says(b, at)[i] == g;
        if i < o.len() {
            let (s1, e1) = (m + 1, m + 1 + e);
            assert(lr[0] =~= b.subrange(s1, e1));
            assert forall|i: int| s1 <= i < e1 implies #[trigger] b[i] != 35 && !nl(b[i]) by { assert(!sep(1, rest[i - s1])); }
            if e1 < b.len() { assert(sep(1, rest[e])); }
            assert(from(b, at, g, s1, e1));
        } else {
            assert(w[i - o.len()] == g);
            line_only(rest, at + m + 1, g);
            let (s2, e2) = choose|s: int, e: int| #[trigger] from(rest, at + m + 1, g, s, e);
            let (s1, e1) = (s2 + m + 1, e2 + m + 1);
            assert(rest.subrange(s2, e2) =~= b.subrange(s1, e1));
            assert(b[s1 - 1] == rest[s2 - 1]);
            if e1 < b.len() { assert(b[e1] == rest[e2]); }
            assert forall|i: int| s1 <= i < e1 implies #[trigger] b[i] != 35 && !nl(b[i]) by { assert(rest[i - m - 1] == b[i]); }
            assert(from(b, at, g, s1, e1));
        }
    } else {
        assert(l.skip(1) =~= Seq::empty());
        assert(comments_say(Seq::empty(), at + l[0].len() + 1).len() == 0);
    }
}
/// Nothing is heard that no comment says.
proof fn says_only(b: B, at: int, g: Ign)
    requires says(b, at).contains(g),
    ensures exists|s: int, e: int| #[trigger] from(b, at, g, s, e),
    decreases b.len(),
{
    first_is(b, 0);
    let n = first(b, 0) as int;
    let l = split(b, 0);
    let f = b.take(n);
    assert(n == b.len() ==> f =~= b);
    assert(l[0] == f);
    assert forall|i: int| 0 <= i < f.len() implies !nl(#[trigger] f[i]) by { assert(!sep(0, b[i])); }
    let o = line_says(f, at);
    let i = choose|i: int| 0 <= i < says(b, at).len() && says(b, at)[i] == g;
    if i < o.len() {
        assert(o[i] == g);
        line_only(f, at, g);
        let (s, e) = choose|s: int, e: int| #[trigger] from(f, at, g, s, e);
        assert(f.subrange(s, e) =~= b.subrange(s, e));
        assert(b[s - 1] == f[s - 1]);
        if e < n { assert(b[e] == f[e]); }
        assert forall|i: int| s <= i < e implies #[trigger] b[i] != 35 && !nl(b[i]) by { assert(f[i] == b[i]); }
        assert(from(b, at, g, s, e));
    } else if n < b.len() {
        let rest = b.skip(n + 1);
        assert(l.skip(1) =~= split(rest, 0));
        let w = says(rest, at + n + 1);
        assert(says(b, at) =~= o + w);
        assert(w[i - o.len()] == g);
        says_only(rest, at + n + 1, g);
        let (s2, e2) = choose|s: int, e: int| #[trigger] from(rest, at + n + 1, g, s, e);
        let (s1, e1) = (s2 + n + 1, e2 + n + 1);
        assert(rest.subrange(s2, e2) =~= b.subrange(s1, e1));
        assert(b[s1 - 1] == rest[s2 - 1]);
        if e1 < b.len() { assert(b[e1] == rest[e2]); }
        assert forall|i: int| s1 <= i < e1 implies #[trigger] b[i] != 35 && !nl(b[i]) by { assert(rest[i - n - 1] == b[i]); }
        assert(from(b, at, g, s1, e1));
    } else {
        assert(l.skip(1) =~= Seq::empty());
        assert(lines_say(Seq::empty(), at + l[0].len() + 1).len() == 0);
        assert(says(b, at) =~= o);
    }
}
/// Codes are where they are said to be.
proof fn said_at(c: B, s: int)
    requires said(c, s) is Some, !(said(c, s)->0).all,
    ensures ({ let g = said(c, s)->0; let a = g.at - s; 0 < a && a + g.codes.len() < c.len() && g.codes.len() > 0 && c.subrange(a, a + g.codes.len()) == g.codes && c[a - 1] == 91 && c[a + g.codes.len()] == 93 }),
{
    lits();
    lead_len(c, 32);
    let o = lead(c, 32) as int;
    let r = c.skip(o);
    let z = if pre(r, asc("type:"@)) { 5int } else { 6int };
    let i = r.skip(z);
    lead_len(i, 32);
    let t = i.skip(lead(i, 32) as int);
    let after = t.skip(6);
    lead_len(after, 32);
    let y = after.skip(lead(after, 32) as int);
    cut_aw_is(y);
    let x = cut_aw(y);
    let g = said(c, s)->0;
    let a = g.at - s;
    assert(y =~= c.skip(a - 1));
    assert(c.subrange(a, a + g.codes.len()) =~= x.subrange(1, x.len() - 1));
    assert(y[0] == x[0] && y[x.len() - 1] == x.last());
}

/// Codes lie in the text.
proof fn says_at(b: B, at: int, g: Ign) requires says(b, at).contains(g), !g.all ensures at < g.at, g.at - at + g.codes.len() < b.len(), b.subrange(g.at - at, g.at - at + g.codes.len()) == g.codes
{
    says_only(b, at, g);
    let (s, e) = choose|s: int, e: int| #[trigger] from(b, at, g, s, e);
    said_at(b.subrange(s, e), at + s);
    assert(b.subrange(g.at - at, g.at - at + g.codes.len()) =~= b.subrange(s, e).subrange(g.at - at - s, g.at - at - s + g.codes.len()));
}
// ---- the quick fix
/// An error code: no blanks, commas, number signs or line breaks
spec fn code_ok(e: B) -> bool { e.len() > 0 && forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] != 35 && !nl(e[i]) && e[i] != 44 && e[i] != 32 }
/// The codes cover e
spec fn covers(codes: B, e: B) -> bool { exists|i: int| 0 <= i < split(codes, 2).len() && trim(#[trigger] split(codes, 2)[i], 32) == e }
spec fn ign_covers(g: Ign, e: B) -> bool { g.all || covers(g.codes, e) }
/// A comment found lets an error with code e pass
spec fn hits(r: Option<TypeIgnoreComment>, e: B) -> bool {
    match r {
        None => false,
        Some(TypeIgnoreComment::WithoutCode) => true,
        Some(TypeIgnoreComment::WithCodes { codes, kind, codes_start_at_index, codes_of_later_type_ignores }) => covers(bts(codes), e) || exists|i: int| 0 <= i < codes_of_later_type_ignores@.len() && covers(bts(#[trigger] codes_of_later_type_ignores@[i]), e),
    }
}
proof fn res_hits(r: Option<TypeIgnoreComment>, w: Seq<Ign>, g: Ign, e: B) requires res(r, w), w.contains(g), ign_covers(g, e) ensures hits(r, e)
{
    let i = choose|i: int| 0 <= i < w.len() && w[i] == g;
    match r {
        Some(TypeIgnoreComment::WithCodes { codes, kind, codes_start_at_index, codes_of_later_type_ignores }) => {
            assert(!w[i].all);
            if i > 0 { let l = codes_of_later_type_ignores@; assert(bts(l[i - 1]) == w[i - 1 + 1].codes); assert(covers(bts(l[i - 1]), e)); }
        },
        _ => { },
    }
}
/// A piece between commas is one of the split's pieces.
proof fn comma_has(b: B, s: int, e: int)
    requires 0 <= s <= e <= b.len(), s > 0 ==> b[s - 1] == 44, e < b.len() ==> b[e] == 44, forall|i: int| s <= i < e ==> #[trigger] b[i] != 44,
    ensures exists|i: int| 0 <= i < split(b, 2).len() && #[trigger] split(b, 2)[i] == b.subrange(s, e),
    decreases b.len(),
{
    first_is(b, 2);
    let n = first(b, 2) as int;
    if s == 0 {
        assert forall|i: int| 0 <= i < e implies !sep(2, #[trigger] b[i]) by { }
        first_at(b, 2, e);
        assert(n == b.len() ==> b =~= b.subrange(0, e));
        assert(b.take(n) =~= b.subrange(s, e));
        assert(split(b, 2)[0] == b.subrange(s, e));
    } else {
        assert(n < s) by { if n >= s { assert(!sep(2, b[s - 1])); } }
        let rest = b.skip(n + 1);
        if s - n - 1 > 0 { assert(rest[s - n - 2] == b[s - 1]); }
        if e < b.len() { assert(rest[e - n - 1] == b[e]); }
        assert forall|i: int| s - n - 1 <= i < e - n - 1 implies #[trigger] rest[i] != 44 by { assert(rest[i] == b[i + n + 1]); }
        comma_has(rest, s - n - 1, e - n - 1);
        assert(rest.subrange(s - n - 1, e - n - 1) =~= b.subrange(s, e));
        let i = choose|i: int| 0 <= i < split(rest, 2).len() && #[trigger] split(rest, 2)[i] == b.subrange(s, e);
        assert(split(b, 2)[i + 1] == split(rest, 2)[i]);
    }
}
spec fn put(b: B, i: int, m: B) -> B { b.take(i) + m + b.skip(i) }
spec fn kind_ok(k: B) -> bool { k == asc("type"@) || k == asc("zuban"@) }
spec fn new_comment(k: B, e: B) -> B { seq![32u8, 32, 35, 32] + k + seq![58u8, 32, 105, 103, 110, 111, 114, 101, 91] + e + seq![93u8] }
spec fn more_codes(e: B) -> B { seq![44u8, 32] + e }
proof fn self_covers(e: B) requires code_ok(e) ensures covers(e, e)
{
    comma_has(e, 0, e.len() as int);
    assert(e.subrange(0, e.len() as int) =~= e);
    let i = choose|i: int| 0 <= i < split(e, 2).len() && #[trigger] split(e, 2)[i] == e;
    lead_at(e, 32, 0);
    assert(e.skip(0) =~= e);
    cut_at(e, 32, e.len() as int);
    assert(e.take(e.len() as int) =~= e);
    assert(trim(split(e, 2)[i], 32) == e);
}
/// What a new comment says
proof fn new_said(c: B, k: B, e: B, ws: B, at: int)
    requires c == seq![32u8] + k + seq![58u8, 32, 105, 103, 110, 111, 114, 101, 91] + e + seq![93u8] + ws, kind_ok(k), code_ok(e), forall|x: int| 0 <= x < ws.len() ==> blank(#[trigger] ws[x]),
    ensures said(c, at) is Some, !(said(c, at)->0).all, (said(c, at)->0).codes == e,
{
    hide(lead); hide(cut_aw);
    lits();
    let kn = k.len() as int;
    let n = e.len() as int;
    assert(c[0] == 32 && c[1] == k[0] && k[0] != 32);
    lead_at(c, 32, 1);
    let r = c.skip(1);
    assert(r =~= k + seq![58u8, 32, 105, 103, 110, 111, 114, 101, 91] + e + seq![93u8] + ws);
    if k == asc("type"@) { assert(r.take(5) =~= asc("type:"@)); }
    else { assert(r.take(6) =~= asc("zuban:"@)); assert(r.take(5)[0] == 122); assert(!pre(r, asc("type:"@))); }
    let y = r.skip(kn + 1);
    assert(y =~= seq![32u8, 105, 103, 110, 111, 114, 101, 91] + e + seq![93u8] + ws);
    lead_at(y, 32, 1);
    let t = y.skip(1);
    assert(t.take(6) =~= asc("ignore"@));
    let after = t.skip(6);
    assert(after =~= seq![91u8] + e + seq![93u8] + ws);
    lead_at(after, 32, 0);
    assert(after.skip(0) =~= after);
    assert forall|x: int| n + 2 <= x < after.len() implies aw(#[trigger] after[x]) by { assert(after[x] == ws[x - n - 2]); }
    cut_aw_at(after, n + 2);
    let x = cut_aw(after);
    assert(x.subrange(1, x.len() - 1) =~= e);
    assert(x[0] == 91 && x.last() == 93);
}
/// A new comment, before nothing but blanks up to the next comment or the end of the line, is heard.
#[verifier::rlimit(30)]
proof fn fix_new(b: B, at: int, i: int, j: int, k: B, e: B)
    requires 0 <= i <= j <= b.len(), j < b.len() ==> b[j] == 35, forall|x: int| i <= x < j ==> blank(#[trigger] b[x]), kind_ok(k), code_ok(e),
    ensures exists|g: Ign| #[trigger] says(put(b, i, new_comment(k, e)), at).contains(g) && ign_covers(g, e),
{
    hide(says); hide(split); hide(covers); hide(lead); hide(cut_aw); hide(cut);
    lits();
    let m = new_comment(k, e);
    let b2 = put(b, i, m);
    let kn = k.len() as int;
    let n = e.len() as int;
    let (s, z) = (i + 3, j + m.len());
    assert(m.len() == 14 + kn + n);
    assert(b2[s - 1] == m[2]);
    if z < b2.len() { assert(b2[z] == b[j]); }
    assert forall|x: int| s <= x < z implies #[trigger] b2[x] != 35 && !nl(b2[x]) by {
        if x >= i + m.len() { assert(b2[x] == b[x - m.len()]); assert(blank(b[x - m.len()])); }
        else { assert(b2[x] == m[x - i]); let y = x - i; if 13 + kn <= y < 13 + kn + n { assert(m[y] == e[y - 13 - kn]); } else if 4 <= y < 4 + kn { assert(m[y] == k[y - 4]); } }
    }
    assert(chunk(b2, s, z));
    let c = b2.subrange(s, z);
    let ws = b.subrange(i, j);
    assert(c =~= seq![32u8] + k + seq![58u8, 32, 105, 103, 110, 111, 114, 101, 91] + e + seq![93u8] + ws);
    assert forall|x: int| 0 <= x < ws.len() implies blank(#[trigger] ws[x]) by { assert(ws[x] == b[x + i]); }
    new_said(c, k, e, ws, at + s);
    let g = said(c, at + s)->0;
    assert(said(c, at + s) is Some && g.codes == e && !g.all);
    self_covers(e);
    says_has(b2, s, z, at);
}
/// The added code is a piece of its own.
proof fn codes_more(codes: B, e: B) requires code_ok(e)
    ensures covers(put(codes, cut(codes, 32).len() as int, more_codes(e)), e), cut(codes, 32).len() <= codes.len(),
{
    cut_is(codes, 32);
    let t = cut(codes, 32).len() as int;
    let m = more_codes(e);
    let codes2 = put(codes, t, m);
    let w = codes2.subrange(t + 1, codes2.len() as int);
    assert(codes2[t] == m[0]);
    assert forall|x: int| t + 1 <= x < codes2.len() implies #[trigger] codes2[x] != 44 by {
        if x < t + m.len() { assert(codes2[x] == m[x - t]); if x >= t + 2 { assert(m[x - t] == e[x - t - 2]); } } else { assert(codes2[x] == codes[x - m.len()]); }
    }
    comma_has(codes2, t + 1, codes2.len() as int);
    let pi = choose|pi: int| 0 <= pi < split(codes2, 2).len() && #[trigger] split(codes2, 2)[pi] == w;
    assert(w =~= seq![32u8] + e + codes.skip(t));
    assert(w[1] == e[0]);
    lead_at(w, 32, 1);
    let v = w.skip(1);
    assert(v =~= e + codes.skip(t));
    assert forall|x: int| e.len() <= x < v.len() implies #[trigger] v[x] == 32u8 by { assert(v[x] == codes[t + x - e.len()]); }
    assert(v[e.len() - 1] == e[e.len() - 1]);
    cut_at(v, 32, e.len() as int);
    assert(v.take(e.len() as int) =~= e);
    assert(trim(split(codes2, 2)[pi], 32) == e);
}
/// lead of a text changed behind it
proof fn lead_same(a: B, b: B, n: int) requires lead(a, 32) < n <= a.len(), n <= b.len(), a.take(n) == b.take(n) ensures lead(b, 32) == lead(a, 32)
{
    lead_len(a, 32);
    let o = lead(a, 32) as int;
    assert forall|x: int| 0 <= x <= o implies b[x] == a[x] by { assert(a.take(n)[x] == a[x]); assert(b.take(n)[x] == b[x]); }
    lead_at(b, 32, o);
}
proof fn pre_same(a: B, b: B, n: int, p: B) requires p.len() <= n <= a.len(), n <= b.len(), a.take(n) == b.take(n) ensures pre(a, p) == pre(b, p)
{
    assert(a.take(p.len() as int) =~= a.take(n).take(p.len() as int));
    assert(b.take(p.len() as int) =~= b.take(n).take(p.len() as int));
}
proof fn skip_same(a: B, b: B, n: int, k: int) requires 0 <= k <= n <= a.len(), n <= b.len(), a.take(n) == b.take(n) ensures a.skip(k).take(n - k) == b.skip(k).take(n - k)
{
    assert(a.skip(k).take(n - k) =~= a.take(n).skip(k));
    assert(b.skip(k).take(n - k) =~= b.take(n).skip(k));
}
/// More text inside the codes changes only the codes.
proof fn directive_more(kind: Seq<char>, s: int, t: B, k: int, m: B)
    requires directive(kind, s, t) is Some, !(directive(kind, s, t)->0).all, 0 <= k <= (directive(kind, s, t)->0).codes.len(),
    ensures ({ let g = directive(kind, s, t)->0; let a = g.at - s; 6 < a && g.kind == kind && a + k <= t.len() && directive(kind, s, put(t, a + k, m)) == Some(Ign { all: false, kind, at: g.at, codes: put(g.codes, k, m) }) }),
{
    lits();
    let after = t.skip(6);
    lead_len(after, 32);
    let la = lead(after, 32) as int;
    let u = after.skip(la);
    cut_aw_is(u);
    let x = cut_aw(u);
    let g = directive(kind, s, t)->0;
    let n = g.codes.len() as int;
    let a = g.at - s;
    assert(a == 6 + la + 1 && x.len() == n + 2);
    let t2 = put(t, a + k, m);
    assert(t2.take(a) =~= t.take(a));
    pre_same(t, t2, a, asc("ignore"@));
    skip_same(t, t2, a, 6);
    let after2 = t2.skip(6);
    lead_same(after, after2, a - 6);
    let u2 = after2.skip(la);
    assert(u2 =~= put(u, 1 + k, m));
    assert(u[n + 1] == x.last());
    assert(u2[n + 1 + m.len()] == u[n + 1]);
    assert forall|y: int| n + 2 + m.len() <= y < u2.len() implies aw(#[trigger] u2[y]) by { assert(u2[y] == u[y - m.len()]); }
    cut_aw_at(u2, n + 2 + m.len());
    let x2 = cut_aw(u2);
    let codes2 = put(g.codes, k, m);
    assert forall|y: int| 0 <= y < codes2.len() implies codes2[y] == #[trigger] x2[y + 1] by {
        if y < k { assert(u[y + 1] == g.codes[y]); } else if y >= k + m.len() { assert(u[y - m.len() + 1] == g.codes[y - m.len()]); }
    }
    assert(x2.subrange(1, x2.len() - 1) =~= codes2);
    assert(x2[0] == u[0] && u[0] == x[0]);
    assert(x2.last() == u[n + 1]);
}
proof fn said_more(c: B, s: int, k: int, m: B)
    requires said(c, s) is Some, !(said(c, s)->0).all, 0 <= k <= (said(c, s)->0).codes.len(),
    ensures ({ let g = said(c, s)->0; let a = g.at - s; 0 < a && a + k <= c.len() && said(put(c, a + k, m), s) == Some(Ign { all: false, kind: g.kind, at: g.at, codes: put(g.codes, k, m) }) }),
{
    hide(directive); hide(lead); hide(cut_aw); hide(put);
    lits();
    said_at(c, s);
    lead_len(c, 32);
    let o = lead(c, 32) as int;
    let r = c.skip(o);
    let y = if pre(r, asc("type:"@)) { 5int } else { 6int };
    let i = r.skip(y);
    lead_len(i, 32);
    let li = lead(i, 32) as int;
    let t = i.skip(li);
    let g = said(c, s)->0;
    let a = g.at - s;
    directive_more(if pre(r, asc("type:"@)) { "type"@ } else { "zuban"@ }, s + o + y + li, t, k, m);
    let c2 = put(c, a + k, m);
    assert(c2.take(a) =~= c.take(a) && c2.len() == c.len() + m.len()) by { reveal(put); }
    lead_same(c, c2, a);
    skip_same(c, c2, a, o);
    let r2 = c2.skip(o);
    pre_same(r, r2, a - o, asc("type:"@));
    pre_same(r, r2, a - o, asc("zuban:"@));
    skip_same(r, r2, a - o, y);
    let i2 = r2.skip(y);
    lead_same(i, i2, a - o - y);
    assert(i2.skip(li) =~= put(t, a + k - o - y - li, m)) by { reveal(put); }
}
/// A code added to the codes of a comment is heard.
proof fn fix_old(b: B, at: int, g: Ign, e: B)
    requires says(b, at).contains(g), !g.all, code_ok(e),
    ensures 0 <= g.at - at + cut(g.codes, 32).len() <= b.len(), exists|h: Ign| #[trigger] says(put(b, g.at - at + cut(g.codes, 32).len(), more_codes(e)), at).contains(h) && ign_covers(h, e),
{
    hide(said); hide(says); hide(split); hide(cut); hide(lead); hide(covers);
    says_only(b, at, g);
    let (s, z) = choose|s: int, z: int| #[trigger] from(b, at, g, s, z);
    let c = b.subrange(s, z);
    codes_more(g.codes, e);
    let t = cut(g.codes, 32).len() as int;
    let m = more_codes(e);
    let k = g.at - at + t;
    let q = g.at - (at + s);
    said_at(c, at + s);
    said_more(c, at + s, t, m);
    let b2 = put(b, k, m);
    let z2 = z + m.len();
    assert(s < k < z);
    assert(b2[s - 1] == b[s - 1]);
    if z2 < b2.len() { assert(b2[z2] == b[z]); }
    assert forall|x: int| s <= x < z2 implies #[trigger] b2[x] != 35 && !nl(b2[x]) by {
        if x < k { assert(b2[x] == b[x]); } else if x < k + m.len() { assert(b2[x] == m[x - k]); if x >= k + 2 { assert(m[x - k] == e[x - k - 2]); } } else { assert(b2[x] == b[x - m.len()]); }
    }
    assert(chunk(b2, s, z2));
    let c2 = b2.subrange(s, z2);
    assert(c2 =~= put(c, q + t, m));
    says_has(b2, s, z2, at);
}

//@file crates/parsa_python_cst/src/code_actions.rs
uninterp spec fn stb(s: String) -> B;
#[verifier::external_body]
fn vx_fmt_more(code: &str) -> (r: String) ensures stb(r) == more_codes(bts(code)) { format!(", {code}") }
#[verifier::external_body]
fn vx_fmt_new(kind: &str, code: &str) -> (r: String) ensures stb(r) == new_comment(bts(kind), bts(code)) { format!("  # {kind}: ignore[{code}]") }
#[verifier::external_body]
fn vx_ne(a: &str, b: &str) -> (r: bool) ensures r == (a@ != b@) { a != b }
//@struct TypeIgnoreInsertion
/// Where a comment for an error at p goes in text b
spec fn place(b: B, l: Seq<PyNode>, p: int, r: TypeIgnoreInsertion) -> bool {
    let w = says(b.subrange(p, eol(b, p)), p);
    match r.preexisting_type_ignore_kind {
        Some(k) => w.len() > 0 && !w[0].all && k@ == w[0].kind && r.insertion_index == w[0].at + cut(w[0].codes, 32).len(),
        // behind a token that starts on this line; up to the next comment or the end of the line there are only blanks, and no string goes on
        None => w.len() == 0 && p < r.insertion_index && (exists|j: int| #[trigger] free(b, r.insertion_index as int, eol(b, p), j))
            && (exists|k: int| #[trigger] behind(l, k, r.insertion_index as int)),
    }
}
/// No comment can be added: everything is ignored already, the line is joined with the next one, or a token or an f-string goes on there
spec fn no_place(b: B, l: Seq<PyNode>, p: int) -> bool {
    let z = eol(b, p);
    let w = says(b.subrange(p, z), p);
    ||| exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).all
    ||| p < z < b.len() && b[z - 1] == 92
    ||| exists|k: int| 0 <= k < l.len() && #[trigger] across(l[k], p, z)
    ||| exists|k: int| #[trigger] in_fstring(l, k, z)
}
spec fn across(n: PyNode, p: int, z: int) -> bool { (st(n) < z || st(n) == p) && z < en(n) }
spec fn in_fstring(l: Seq<PyNode>, k: int, z: int) -> bool { 0 <= k && k + 1 < l.len() && en(l[k]) <= z <= st(l[k + 1]) && ty(l[k + 1]) == Terminal(TerminalType::FStringString) }
spec fn behind(l: Seq<PyNode>, k: int, i: int) -> bool { 0 <= k < l.len() && en(l[k]) == i && (k + 1 < l.len() ==> i <= st(l[k + 1]) && ty(l[k + 1]) != Terminal(TerminalType::FStringString)) }
spec fn free(b: B, i: int, z: int, j: int) -> bool { i <= j <= z && (forall|x: int| i <= x < j ==> blank(#[trigger] b[x])) && (j < z ==> b[j] == 35) }
impl TypeIgnoreInsertion<'_> {
//@fn TypeIgnoreInsertion::format_for_kind ret=r
//@rw format!(", {error_code}") ==> vx_fmt_more(error_code)
//@rw format!("  # {ignore_kind}: ignore[{error_code}]") ==> vx_fmt_new(ignore_kind, error_code)
//@rw kind != ignore_kind ==> vx_ne(kind, ignore_kind)
    ensures match self.preexisting_type_ignore_kind {
        Some(k) => (k@ != ignore_kind@ ==> r is None) && (k@ == ignore_kind@ ==> r is Some && stb(r->0) == more_codes(bts(error_code))),
        None => r is Some && stb(r->0) == new_comment(bts(ignore_kind), bts(error_code)),
    },
//@end
}
/// Behind a leaf on this line there is nothing but room for a comment.
proof fn room(t: PyTree, position: int, k: int, z: int)
    requires leaves_ok(t), 0 <= k < t.leaves().len(), 0 <= position < en(t.leaves()[k]) <= z, z == eol(t.src(), position),
        z <= t.src().len(), k + 1 < t.leaves().len() ==> st(t.leaves()[k + 1]) >= z,
        z < t.src().len() ==> z == position || t.src()[z - 1] != 92,
        forall|i: int| position <= i < z ==> !nl(#[trigger] t.src()[i]),
    ensures exists|j: int| #[trigger] free(t.src(), en(t.leaves()[k]), z, j),
{
    let b = t.src(); let l = t.leaves(); let i = en(l[k]);
            if k + 1 < l.len() {
                let y = st(l[k + 1]);
                assert(next_ok(b, l, k));
                let j = choose|j: int| #[trigger] gap_to(b, i, y, j);
                if j >= z { assert(free(b, i, z, z)); }
                else {
                    assert(!nl(b[j]));
                    if b[j] == 92 { assert(nl(b[j + 1])); assert(j + 1 == z); assert(false); }
                    assert(free(b, i, z, j));
                }
            } else { assert(free(b, i, z, z)); }
}
impl Tree {
//@fn Tree::insertion_point_for_type_ignore ret=r nloops=1
//@rw &self.code()[$a..] ==> vx_slice_from(self.code(), $a)
//@rw line.find([$x, $y]) ==> vx_find2(line, $x, $y)
//@rw &line[..$a] ==> vx_slice(line, 0, $a)
//@rw $x.ends_with($c) ==> vx_ends($x, $c)
    requires leaves_ok(self.0), exists|k: int| 0 <= k < self.0.leaves().len() && begins(#[trigger] self.0.leaves()[k], position as int),
    ensures r is Some ==> place(self.0.src(), self.0.leaves(), position as int, r->0), r is None ==> no_place(self.0.src(), self.0.leaves(), position as int),
//@begin
    let ghost b = self.0.src();
    let ghost l = self.0.leaves();
    let ghost z = eol(b, position as int);
    proof {
        let k = choose|k: int| 0 <= k < l.len() && begins(#[trigger] l[k], position as int);
        let tail = b.skip(position as int);
        first_is(tail, 0);
        let r = b.subrange(position as int, z);
        let w = says(r, position as int);
        if w.len() > 0 && !w[0].all { assert(w.contains(w[0])); says_at(r, position as int, w[0]); cut_is(w[0].codes, 32); }
        assert(tail =~= b.subrange(position as int, b.len() as int));
        assert forall|k: int| #![trigger tail[k]] 0 <= k && position + k <= b.len() && (forall|i: int| 0 <= i < k ==> !nl(#[trigger] tail[i])) && (position + k < b.len() ==> nl(tail[k])) implies z == position + k by { first_at(tail, 0, k); }
        if z < b.len() { assert(nl(b[z])); assert(bnd(tail, z - position)); }
    }
//@after let last_valid_position
    assert(last_valid_position == z);
    assert forall|i: int| position <= i < z implies !nl(#[trigger] b[i]) by { assert(!sep(0, b.skip(position as int)[i - position])); }
    assert(z < b.len() ==> z == position || b[z - 1] != 92);
//@loop 0
    invariant leaves_ok(self.0), in_tree(leaf), of(leaf) == self.0, l == self.0.leaves(), last_valid_position == z, position < en(leaf), st(leaf) < z || st(leaf) == position,
    ensures in_tree(leaf), of(leaf) == self.0, position < en(leaf), st(leaf) < z || st(leaf) == position, ix(leaf) + 1 < l.len() ==> st(l[ix(leaf) + 1]) >= z,
    decreases l.len() - ix(leaf)
//@before leaf = next
    proof { if ix(leaf) + 1 < l.len() { assert(next_ok(self.0.src(), l, ix(leaf))); assert(l[ix(leaf)] == leaf && l[ix(leaf) + 1] == next); assert(st(l[ix(next)]) <= en(l[ix(next)])); } }
//@before if leaf.end() > last_valid_position
    proof {
        let k = ix(leaf);
        assert(l[k] == leaf);
        if en(leaf) <= z { room(self.0, position as int, k, z); } else { assert(across(l[k], position as int, z)); }
        if en(leaf) <= z && k + 1 < l.len() && ty(l[k + 1]) == Terminal(TerminalType::FStringString) { assert(in_fstring(l, k, z)); }
    }
//@before #0 Some(TypeIgnoreInsertion
    proof {
        let k = ix(leaf);
        assert(l[k] == leaf && en(leaf) <= z);
        if k + 1 < l.len() { assert(next_ok(b, l, k)); assert(l[k + 1] == l[k + 1]); }
        assert(behind(l, k, en(leaf)));
        assert(exists|j: int| #[trigger] free(b, en(leaf), z, j));
        assert(says(b.subrange(position as int, eol(b, position as int)), position as int).len() == 0);
        assert(position < en(leaf));
        let j = choose|j: int| #[trigger] free(b, en(leaf), z, j);
        assert(free(b, en(leaf), eol(b, position as int), j));
        assert(en(leaf) == en(l[k]));
        let x = TypeIgnoreInsertion { insertion_index: en(leaf) as u32, preexisting_type_ignore_kind: None };
        assert(x.insertion_index as int == en(leaf));
        assert(place(b, l, position as int, x));
    }
//@end
}

/// After the suggested change an error at this place with this code is ignored.
proof fn fix_works(b: B, l: Seq<PyNode>, p: int, ins: TypeIgnoreInsertion, kind: &str, code: &str, new: String, r: Option<TypeIgnoreComment>)
    requires
        0 <= p < b.len(), place(b, l, p, ins), code_ok(bts(code)), kind@ == "type"@ || kind@ == "zuban"@,
        // format_for_kind
        match ins.preexisting_type_ignore_kind { Some(k) => k@ == kind@ && stb(new) == more_codes(bts(code)), None => stb(new) == new_comment(bts(kind), bts(code)) },
        // type_ignore_comment_for(p, p) in the new text
        ({ let b2 = put(b, ins.insertion_index as int, stb(new)); res(r, says(b2.subrange(p, eol(b2, p)), p)) }),
    ensures hits(r, bts(code)),
{
    hide(says); hide(covers);
    let i = ins.insertion_index as int;
    let m = stb(new);
    let e = bts(code);
    let b2 = put(b, i, m);
    let z = eol(b, p);
    let t = b.subrange(p, z);
    first_is(b.skip(p), 0);
    lits();
    ascii_bytes(kind);
    assert(asc("type"@).len() == 4 && asc("zuban"@).len() == 5);
    assert(p <= i <= z) by {
        match ins.preexisting_type_ignore_kind {
            Some(k) => { let w = says(t, p); assert(w.contains(w[0])); says_at(t, p, w[0]); cut_is(w[0].codes, 32); },
            None => { },
        }
    }
    assert forall|x: int| 0 <= x < m.len() implies !nl(#[trigger] m[x]) by {
        match ins.preexisting_type_ignore_kind {
            Some(k) => { if x >= 2 { assert(m[x] == e[x - 2]); } },
            None => { let kn = bts(kind).len(); let y = x; if 13 + kn <= y < 13 + kn + e.len() { assert(m[y] == e[y - 13 - kn]); } else if 4 <= y < 4 + kn { assert(m[y] == bts(kind)[y - 4]); } },
        }
    }
    // the line has grown by the inserted text
    let u = b2.skip(p);
    assert forall|x: int| 0 <= x < z - p + m.len() implies !sep(0, #[trigger] u[x]) by {
        if x < i - p { assert(u[x] == b.skip(p)[x]); } else if x < i - p + m.len() { assert(u[x] == m[x - (i - p)]); } else { assert(u[x] == b.skip(p)[x - m.len()]); }
    }
    if z + m.len() < b2.len() { assert(u[z - p + m.len()] == b.skip(p)[z - p]); }
    first_at(u, 0, z - p + m.len());
    let t2 = b2.subrange(p, eol(b2, p));
    assert(t2 =~= put(t, i - p, m));
    match ins.preexisting_type_ignore_kind {
        Some(k) => {
            let w = says(t, p);
            assert(w.contains(w[0]));
            fix_old(t, p, w[0], e);
            let h = choose|h: Ign| #[trigger] says(put(t, w[0].at - p + cut(w[0].codes, 32).len(), more_codes(e)), p).contains(h) && ign_covers(h, e);
            res_hits(r, says(t2, p), h, e);
        },
        None => {
            let j = choose|j: int| #[trigger] free(b, i, z, j);
            assert forall|x: int| i - p <= x < j - p implies blank(#[trigger] t[x]) by { assert(t[x] == b[x + p]); }
            if j < z { assert(t[j - p] == b[j]); }
            fix_new(t, p, i - p, j - p, bts(kind), e);
            let h = choose|h: Ign| #[trigger] says(put(t, i - p, new_comment(bts(kind), e)), p).contains(h) && ign_covers(h, e);
            res_hits(r, says(t2, p), h, e);
        },
    }
}
/// UTF-8 of ASCII text
#[verifier::external_body]
proof fn ascii_bytes(s: &str) ensures is_asc(s@) ==> bts(s) == asc(s@) { }

// ---- which errors a comment lets pass
//@file crates/zuban_python/src/diagnostics.rs
#[verifier::external_body]
struct IssueKind { x: u8 }
#[verifier::external_body]
struct Diagnostics { x: u8 }
impl IssueKind {
    uninterp spec fn code(&self) -> Option<&'static str>;
    uninterp spec fn supercode(&self) -> Option<&'static str>;
    #[verifier::external_body]
    fn mypy_error_code(&self) -> (r: Option<&'static str>) ensures r == self.code() { unimplemented!() }
    #[verifier::external_body]
    fn mypy_error_supercode(&self) -> (r: Option<&'static str>) ensures r == self.supercode() { unimplemented!() }
}
/// once(a).chain(l).map(split at commas).flatten()
spec fn pieces(a: B, l: Seq<&str>) -> Seq<B> decreases l.len() { if l.len() == 0 { split(a, 2) } else { pieces(a, l.drop_last()) + split(bts(l.last()), 2) } }
#[verifier::external_body]
fn vx_pieces<'a>(a: &'a str, l: Vec<&'a str>) -> (r: VxSplit<'a>) ensures texts(r.rest()) == pieces(bts(a), l@) { unimplemented!() }
#[verifier::external_body]
fn vx_is(o: Option<&str>, s: &str) -> (r: bool) ensures r == (o is Some && bts(o->0) == bts(s)) { o == Some(s) }
spec fn any_covers(l: Seq<B>, e: B) -> bool { exists|i: int| 0 <= i < l.len() && trim(#[trigger] l[i], 32) == e }
proof fn pieces_cover(a: B, l: Seq<&str>, e: B)
    ensures any_covers(pieces(a, l), e) <==> (covers(a, e) || exists|i: int| 0 <= i < l.len() && covers(bts(#[trigger] l[i]), e)), pieces(a, l).len() > 0,
    decreases l.len(),
{
    split_total(a, 2);
    if l.len() > 0 {
        let d = l.drop_last();
        pieces_cover(a, d, e);
        let (x, y) = (pieces(a, d), split(bts(l.last()), 2));
        if any_covers(x + y, e) {
            let i = choose|i: int| 0 <= i < (x + y).len() && trim(#[trigger] (x + y)[i], 32) == e;
            if i < x.len() { assert(trim(x[i], 32) == e); if !covers(a, e) { let k = choose|k: int| 0 <= k < d.len() && covers(bts(#[trigger] d[k]), e); assert(covers(bts(l[k]), e)); } }
            else { assert(trim(y[i - x.len()], 32) == e); assert(covers(bts(l[l.len() - 1]), e)); }
        }
        if covers(a, e) || exists|i: int| 0 <= i < l.len() && covers(bts(#[trigger] l[i]), e) {
            if covers(a, e) || exists|i: int| 0 <= i < d.len() && covers(bts(#[trigger] d[i]), e) {
                let i = choose|i: int| 0 <= i < x.len() && trim(#[trigger] x[i], 32) == e;
                assert(trim((x + y)[i], 32) == e);
            } else {
                let k = choose|k: int| 0 <= k < l.len() && covers(bts(#[trigger] l[k]), e);
                if k < d.len() { assert(covers(bts(d[k]), e)); }
                let i = choose|i: int| 0 <= i < y.len() && trim(#[trigger] y[i], 32) == e;
                assert(trim((x + y)[x.len() + i], 32) == e);
            }
        }
    } else {
        if any_covers(split(a, 2), e) { let i = choose|i: int| 0 <= i < split(a, 2).len() && trim(#[trigger] split(a, 2)[i], 32) == e; assert(covers(a, e)); }
        if covers(a, e) { let i = choose|i: int| 0 <= i < split(a, 2).len() && trim(#[trigger] split(a, 2)[i], 32) == e; assert(any_covers(split(a, 2), e)); }
    }
}
impl Diagnostics {
//@rw std::iter::once($a).chain($b).map(|codes| codes.split(',')).flatten().any(|$p| $e) ==> { let mut it__ = vx_pieces($a, $b); let mut found__ = false; loop { match it__.vx_next() { Some(x__) => { let $p = x__; if $e { found__ = true; break; } }, None => { break; } } } found__ }
//@rw $x.trim_matches($c) ==> vx_trim($x, $c)
//@rw e == Some(code) ==> vx_is(e, code)
//@rw super_ == Some(code) ==> vx_is(super_, code)
//@fn Diagnostics::is_ignored_and_return_non_covered_error_code ret=r nloops=1
    ensures
        r.0 == (maybe_ignored is Some && (maybe_ignored->0 is WithoutCode || issue.code() is None || hits(maybe_ignored, bts(issue.code()->0)) || (issue.supercode() is Some && hits(maybe_ignored, bts(issue.supercode()->0))))),
        r.1 == if !r.0 && maybe_ignored is Some { issue.code() } else { None },
//@after let mut it__
    let ghost L = texts(it__.rest());
    let ghost later = codes_of_later_type_ignores@;
    proof {
        if e is Some { pieces_cover(bts(codes), later, bts(e->0)); } else { pieces_cover(bts(codes), later, Seq::empty()); }
        if super_ is Some { pieces_cover(bts(codes), later, bts(super_->0)); }
        assert(L.skip(0) =~= L);
        assert(maybe_ignored->0->codes == codes);
    }
//@loop 0
    invariant_except_break
        !found__, it__.rest().len() <= L.len(), texts(it__.rest()) == L.skip(L.len() - it__.rest().len()),
        forall|i: int| 0 <= i < L.len() - it__.rest().len() ==> e is Some && trim(#[trigger] L[i], 32) != bts(e->0) && (super_ is Some ==> trim(L[i], 32) != bts(super_->0)),
    invariant e == issue.code(), super_ == issue.supercode(), L.len() > 0,
    ensures
        found__ ==> e is None || any_covers(L, bts(e->0)) || (super_ is Some && any_covers(L, bts(super_->0))),
        !found__ ==> e is Some && !any_covers(L, bts(e->0)) && (super_ is Some ==> !any_covers(L, bts(super_->0))),
    decreases it__.rest().len()
//@loopbegin 0
    let ghost R0 = it__.rest();
    let ghost i0 = L.len() - R0.len();
    proof {
        if R0.len() > 0 { assert(texts(R0)[0] == L.skip(i0)[0]); assert(bts(R0[0]) == L[i0]); assert(texts(R0).skip(1) =~= texts(R0.skip(1))); assert(L.skip(i0).skip(1) =~= L.skip(i0 + 1)); }
        else { let y = L[0]; assert(e is Some); }
    }
//@end
}
} // verus!
fn main() {}
