#![allow(warnings)]
// C27: inline configuration comments (crates/zuban_python/src/file/python_file.rs, crates/parsa_python_cst/src/lib.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
type CodeIndex = u32;
type B = Seq<u8>;
//@include str_spec.inc
// ---- std, on bytes
/// str::trim; what is used of it: nothing comes out of nothing
uninterp spec fn tr(b: B) -> B;
#[verifier::external_body]
proof fn tr_nothing() ensures tr(Seq::<u8>::empty()) == Seq::<u8>::empty() { }
#[verifier::external_body]
fn vx_trim<'a>(s: &'a str) -> (r: &'a str) ensures bts(r) == tr(bts(s)) { s.trim() }
#[verifier::external_body]
fn vx_empty(s: &str) -> (r: bool) ensures r == (bts(s).len() == 0) { s.is_empty() }
spec fn upto(b: B, x: u8) -> nat decreases b.len() { if b.len() == 0 || b[0] == x { 0 } else { 1 + upto(b.skip(1), x) } }
spec fn inside(b: B, x: u8) -> bool { exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == x }
#[verifier::external_body]
fn vx_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    requires (c as u32) < 128,
    ensures r is Some <==> upto(bts(s), c as u8) < bts(s).len(),
        r is Some ==> bts((r->0).0) == bts(s).take(upto(bts(s), c as u8) as int) && bts((r->0).1) == bts(s).skip(upto(bts(s), c as u8) as int + 1),
{ s.split_once(c) }
#[verifier::external_body]
fn vx_contains(s: &str, c: char) -> (r: bool) requires (c as u32) < 128 ensures r == inside(bts(s), c as u8) { s.contains(c) }
#[verifier::external_body]
fn vx_starts(s: &str, c: char) -> (r: bool) requires (c as u32) < 128 ensures r == (bts(s).len() > 0 && bts(s)[0] == c as u8) { s.starts_with(c) }
#[verifier::external_body]
fn vx_ends(s: &str, c: char) -> (r: bool) requires (c as u32) < 128 ensures r == (bts(s).len() > 0 && bts(s).last() == c as u8) { s.ends_with(c) }
#[verifier::external_body]
fn vx_strip_prefix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    requires (c as u32) < 128,
    ensures r is Some <==> (bts(s).len() > 0 && bts(s)[0] == c as u8), r is Some ==> bts(r->0) == bts(s).skip(1) { s.strip_prefix(c) }
#[verifier::external_body]
fn vx_strip_suffix_c<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    requires (c as u32) < 128,
    ensures r is Some <==> (bts(s).len() > 0 && bts(s).last() == c as u8), r is Some ==> bts(r->0) == bts(s).drop_last() { s.strip_suffix(c) }
#[verifier::external_body]
fn vx_nothing() -> (r: &'static str) ensures bts(r) == Seq::<u8>::empty() { "" }
fn vx_unwrap_or<'a>(x: Option<&'a str>, d: &'a str) -> (r: &'a str) ensures r == if x is Some { x->0 } else { d } { match x { Some(s) => s, None => d } }
/// bytes().enumerate()
#[verifier::external_body]
struct VxBytes<'a> { x: &'a str }
impl<'a> VxBytes<'a> {
    uninterp spec fn b(&self) -> B;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<(usize, u8)>)
        ensures final(self).b() == old(self).b(),
            old(self).at() < old(self).b().len() ==> r == Some((old(self).at() as usize, old(self).b()[old(self).at()])) && final(self).at() == old(self).at() + 1,
            old(self).at() >= old(self).b().len() ==> r is None && final(self).at() == old(self).at(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_bytes<'a>(s: &'a str) -> (r: VxBytes<'a>) ensures r.b() == bts(s), r.at() == 0 { unimplemented!() }

// ---- the issues of a file: where they are, and what they say
ghost enum Err { Content, Key, Unterminated }
struct VxIssues { x: Vec<u8>, text: Ghost<B>, list: Ghost<Seq<(int, int, Err)>> }
/// The messages are not interpreted beyond telling them apart
spec fn err(m: Seq<char>) -> Err { if m == "Content after quote in configuration comment"@ { Err::Content } else if m == "Quotes should not be part of the key"@ { Err::Key } else { Err::Unterminated } }
proof fn messages()
    ensures err("Content after quote in configuration comment"@) == Err::Content, err("Quotes should not be part of the key"@) == Err::Key, err("Unterminated quote in configuration comment"@) == Err::Unterminated,
{
    reveal_strlit("Content after quote in configuration comment"); reveal_strlit("Quotes should not be part of the key"); reveal_strlit("Unterminated quote in configuration comment");
    assert("Content after quote in configuration comment"@.len() == 44);
    assert("Quotes should not be part of the key"@.len() == 36);
    assert("Unterminated quote in configuration comment"@.len() == 43);
}
impl VxIssues {
    /// What can be shown to a user: a range between characters of the file
    #[verifier::external_body]
    fn vx_add(&mut self, a: CodeIndex, z: CodeIndex, m: &str)
        requires a <= z <= old(self).text@.len(), bnd(old(self).text@, a as int), bnd(old(self).text@, z as int),
        ensures final(self).text == old(self).text, final(self).list@ == old(self).list@.push((a as int, z as int, err(m@))),
    { }
}

// ---- specification
ghost struct Setting { name: B, value: Option<B> }
/// The first comma outside quotation marks
spec fn comma(t: B, q: bool) -> nat decreases t.len() {
    if t.len() == 0 { 0 } else if t[0] == 34 { 1 + comma(t.skip(1), !q) } else if t[0] == 44 && !q { 0 } else { 1 + comma(t.skip(1), q) }
}
/// Whether a quotation mark is open at the end
spec fn open(t: B, q: bool) -> bool decreases t.len() { if t.len() == 0 { q } else { open(t.skip(1), if t[0] == 34 { !q } else { q }) } }
spec fn opened(v: B) -> bool { v.len() > 0 && v[0] == 34 }
spec fn surrounded(v: B) -> bool { v.len() >= 2 && v[0] == 34 && v.last() == 34 }
spec fn unquoted(v: B) -> B { if surrounded(v) { v.subrange(1, v.len() - 1) } else if opened(v) { v.skip(1) } else { v } }
spec fn vname(p: B) -> B { if upto(p, 61) < p.len() { tr(p.take(upto(p, 61) as int)) } else { tr(p) } }
spec fn raw(p: B) -> B { tr(p.skip(upto(p, 61) as int + 1)) }
spec fn setting(p: B) -> Setting {
    Setting { name: vname(p), value: if upto(p, 61) < p.len() { Some(if inside(p, 34) { unquoted(raw(p)) } else { raw(p) }) } else { None } }
}
spec fn errs(at: int, p: B) -> Seq<(int, int, Err)> {
    (if upto(p, 61) < p.len() && inside(p, 34) && !surrounded(raw(p)) { seq![(at, at + p.len(), Err::Content)] } else { seq![] })
        + (if inside(vname(p), 34) { seq![(at, at + p.len(), Err::Key)] } else { seq![] })
}
/// The settings of a comment's text, in order, and what is wrong with it
spec fn settings(t: B) -> Seq<Setting> decreases t.len() {
    let n = comma(t, false);
    if n < t.len() { seq![setting(t.take(n as int))] + settings(t.skip(n as int + 1)) }
    else if open(t, false) || tr(t).len() == 0 { seq![] }
    else { seq![setting(t)] }
}
spec fn faults(at: int, t: B) -> Seq<(int, int, Err)> decreases t.len() {
    let n = comma(t, false);
    if n < t.len() { errs(at, t.take(n as int)) + faults(at + n + 1, t.skip(n as int + 1)) }
    else if open(t, false) { seq![(at, at + t.len(), Err::Unterminated)] }
    else if tr(t).len() == 0 { seq![] }
    else { errs(at, t) }
}
proof fn nothing_left() ensures forall|at: int| #![trigger faults(at, Seq::<u8>::empty())] faults(at, Seq::<u8>::empty()) == Seq::<(int, int, Err)>::empty(), settings(Seq::<u8>::empty()) == Seq::<Setting>::empty()
{ tr_nothing(); }
/// comma and open, over a beginning that has been read
proof fn read(t: B, k: int, q: bool)
    requires 0 <= k <= t.len(), comma(t, q) >= k,
    ensures comma(t, q) == k + comma(t.skip(k), open(t.take(k), q)), open(t, q) == open(t.skip(k), open(t.take(k), q)),
    decreases k,
{
    if k == 0 { assert(t.skip(0) =~= t); assert(t.take(0) =~= Seq::<u8>::empty()); } else {
        let q1 = if t[0] == 34 { !q } else { q };
        read(t.skip(1), k - 1, q1);
        assert(t.skip(1).skip(k - 1) =~= t.skip(k));
        assert(t.take(k).skip(1) =~= t.skip(1).take(k - 1));
        assert(t.take(k)[0] == t[0]);
    }
}
proof fn open_push(t: B, k: int, q: bool)
    requires 0 <= k < t.len(),
    ensures open(t.take(k + 1), q) == if t[k] == 34 { !open(t.take(k), q) } else { open(t.take(k), q) },
    decreases k,
{
    if k == 0 {
        assert(t.take(1).skip(1) =~= Seq::<u8>::empty()); assert(t.take(0) =~= Seq::<u8>::empty());
        assert(t.take(1)[0] == t[0]);
        reveal_with_fuel(open, 3);
    } else {
        open_push(t.skip(1), k - 1, if t[0] == 34 { !q } else { q });
        assert(t.take(k).skip(1) =~= t.skip(1).take(k - 1));
        assert(t.take(k + 1).skip(1) =~= t.skip(1).take(k));
        assert(t.take(k)[0] == t[0]); assert(t.take(k + 1)[0] == t[0]); assert(t.skip(1)[k - 1] == t[k]);
    }
}
/// One more byte is read: where the first comma is
proof fn one_more(t: B, k: int)
    requires 0 <= k < t.len(), comma(t, false) >= k,
    ensures comma(t, false) == k <==> t[k] == 44 && !open(t.take(k), false),
{
    read(t, k, false);
    assert(t.skip(k)[0] == t[k]);
}
proof fn comma_in(t: B, q: bool) ensures comma(t, q) <= t.len(), comma(t, q) < t.len() ==> t[comma(t, q) as int] == 44 decreases t.len()
{
    if t.len() > 0 { comma_in(t.skip(1), q); comma_in(t.skip(1), !q); }
}
spec fn at_place(text: B, a: int, b: B) -> bool { 0 <= a && a + b.len() <= text.len() && text.subrange(a, a + b.len()) == b && bnd(text, a) && bnd(text, a + b.len()) }
proof fn gone(text: B, a: int, b: B) requires at_place(text, a, b) ensures at_place(text, a, Seq::<u8>::empty()) { assert(text.subrange(a, a) =~= Seq::<u8>::empty()); }
proof fn inside_push(t: B, k: int)
    requires 0 <= k < t.len(),
    ensures inside(t.take(k + 1), 34) == (inside(t.take(k), 34) || t[k] == 34),
{
    if inside(t.take(k), 34) { let i = choose|i: int| 0 <= i < k && #[trigger] t.take(k)[i] == 34; assert(t.take(k + 1)[i] == 34); }
    if t[k] == 34 { assert(t.take(k + 1)[k] == 34); }
    if inside(t.take(k + 1), 34) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] t.take(k + 1)[i] == 34; if i < k { assert(t.take(k)[i] == 34); } }
}
spec fn file_ok(text: B) -> bool { utf8_ends(text) && starts_ok(text) && text.len() < u32::MAX }
/// The part before a comma, and what comes after it
proof fn parted(text: B, a: int, b: B, n: int)
    requires at_place(text, a, b), file_ok(text), 0 <= n < b.len(), b[n] == 44,
    ensures at_place(text, a, b.take(n)), at_place(text, a + n + 1, b.skip(n + 1)), bnd(b, n), bnd(b, n + 1),
{
    assert(text[a + n] == b[n]);
    assert(text.subrange(a, a + n) =~= b.take(n));
    assert(text.subrange(a + n + 1, a + b.len()) =~= b.skip(n + 1));
    if n + 1 < b.len() { assert(text[a + n + 1] == b[n + 1]); assert(text[a + n + 1 - 1] < 0x80); }
    else { }
}

// ---- the code
//@file crates/zuban_python/src/file/python_file.rs
//@rw self.issues.add(Issue::from_start_stop($a, $b, IssueKind::DirectiveSyntaxError($m.into()), true)) ==> self.issues.vx_add($a, $b, $m)
//@rw "" ==> vx_nothing()
//@rw $s.trim() ==> vx_trim($s)
//@rw $s.is_empty() ==> vx_empty($s)
//@rw $s.split_once($c) ==> vx_split_once($s, $c)
//@rw $s.contains($c) ==> vx_contains($s, $c)
//@rw $s.starts_with($c) ==> vx_starts($s, $c)
//@rw $s.ends_with($c) ==> vx_ends($s, $c)
//@rw $s.strip_prefix($c) ==> vx_strip_prefix($s, $c)
//@rw $s.strip_suffix($c) ==> vx_strip_suffix_c($s, $c)
//@rw $x.and_then(|$p| $b) ==> match $x { Some($p) => $b, None => None }
//@rw $s.unwrap_or($d) ==> vx_unwrap_or($s, $d)
//@rw $s.bytes().enumerate() ==> vx_bytes($s)
//@rw $s.len() ==> vx_len($s)
//@rw &$s[..$i] ==> vx_slice($s, 0, $i)
//@rw &$s[$i..$j] ==> vx_slice($s, $i, $j)
//@rw &$s[$i..] ==> vx_slice_from($s, $i)
//@tyrw &'db Diagnostics ==> VxIssues
//@tyrw DirectiveSplitter<'db, 'code> ==> DirectiveSplitter<'code>
//@struct DirectiveSplitter
impl<'code> DirectiveSplitter<'code> {
    spec fn wf(&self) -> bool { file_ok(self.issues.text@) && at_place(self.issues.text@, self.start_position as int, bts(self.rest)) }
}
//@fn DirectiveSplitter:Iterator::next/split_name_value name=split_name_value ret=r
//@sig fn split_name_value<'code>(issues: &mut VxIssues, start_position: CodeIndex, directive: &'code str, had_quotation_marks: bool) -> (r: Option<(&'code str, Option<&'code str>)>)
//@rw self.issues ==> issues
    requires file_ok(old(issues).text@), at_place(old(issues).text@, start_position as int, bts(directive)), had_quotation_marks == inside(bts(directive), 34),
    ensures final(issues).text == old(issues).text, final(issues).list@ == old(issues).list@ + errs(start_position as int, bts(directive)),
        r is Some, said(r->0) == setting(bts(directive)),
//@begin
    proof { messages(); }
//@before #* Some((name, value))
    proof {
        if value is Some && had_quotation_marks {
            let v = raw(bts(directive));
            if surrounded(v) { assert(v.skip(1).drop_last() =~= v.subrange(1, v.len() - 1)); assert(v.skip(1).last() == v.last()); }
            else if v.len() >= 2 && v[0] == 34 { assert(v.skip(1).last() == v.last()); }
        }
        assert(issues.list@ =~= old(issues).list@ + errs(start_position as int, bts(directive)));
    }
//@end
spec fn said(r: (&str, Option<&str>)) -> Setting { Setting { name: bts(r.0), value: if r.1 is Some { Some(bts(r.1->0)) } else { None } } }
impl<'code> DirectiveSplitter<'code> {
//@fn DirectiveSplitter:Iterator::next ret=r
//@tyrw Option<Self::Item> ==> Option<(&'code str, Option<&'code str>)>
//@drop split_name_value
//@rw !split_name_value($a, $b, $c) ==> split_name_value(&mut self.issues, $a, $b, $c)
    requires old(self).wf(),
    ensures final(self).wf(), final(self).issues.text == old(self).issues.text,
        r is Some ==> settings(bts(old(self).rest)) == seq![said(r->0)] + settings(bts(final(self).rest)) && bts(final(self).rest).len() < bts(old(self).rest).len(),
        r is None ==> settings(bts(old(self).rest)) == Seq::<Setting>::empty() && bts(final(self).rest).len() == 0,
        final(self).issues.list@ + faults(final(self).start_position as int, bts(final(self).rest)) == old(self).issues.list@ + faults(old(self).start_position as int, bts(old(self).rest)),
//@begin
    let ghost t = bts(self.rest);
    proof { utf8(self.rest); comma_in(t, false); nothing_left(); gone(self.issues.text@, self.start_position as int, t); assert(!inside(t.take(0), 34)); assert(t.take(0) =~= Seq::<u8>::empty()); messages(); }
//@loop 0
    invariant_except_break self.wf(), t == bts(self.rest), *self == *old(self), it__0.b() == t, 0 <= it__0.at() <= t.len(), comma(t, false) >= it__0.at(), comma(t, false) <= t.len(), opened_quotation_mark == open(t.take(it__0.at()), false), had_quotation_marks == inside(t.take(it__0.at()), 34), opened_quotation_mark ==> had_quotation_marks,
    ensures it__0.at() == t.len(), self.wf(), t == bts(self.rest), *self == *old(self), comma(t, false) == t.len(), opened_quotation_mark == open(t, false), had_quotation_marks == inside(t, 34),
    decreases t.len() - it__0.at(),
//@loopbegin 0
    proof {
        let k = it__0.at();
        assert(t.take(t.len() as int) =~= t);
        if k < t.len() {
            one_more(t, k); open_push(t, k, false); inside_push(t, k);
            if t[k] == 44 { parted(self.issues.text@, self.start_position as int, t, k); }
        }
        assert(t.subrange(0, k) =~= t.take(k));
        if k < t.len() { assert(t.subrange(k + 1, t.len() as int) =~= t.skip(k + 1)); }
    }
//@before #* self.rest =
    proof { if comma(t, false) == t.len() && (open(t, false) || tr(t).len() == 0) { let l = old(self).issues.list@; assert(l + Seq::<(int, int, Err)>::empty() =~= l); assert(self.issues.list@ + Seq::<(int, int, Err)>::empty() =~= l + faults(old(self).start_position as int, t)); } }
//@end
}

// ---- where the comments are: lines that begin with the prefix
spec fn prefix() -> B { seq![35, 32, 109, 121, 112, 121, 58, 32] }
spec fn pre(b: B, p: B) -> bool { b.len() >= p.len() && b.take(p.len() as int) == p }
spec fn lines(b: B) -> Seq<B> decreases b.len() {
    let n = upto(b, 10);
    if n < b.len() { seq![b.take(n as int)] + lines(b.skip(n as int + 1)) } else { seq![b] }
}
ghost struct Comment { at: int, text: B }
/// One line that starts at a place
spec fn here(a: int, line: B) -> Seq<Comment> { if pre(line, prefix()) { seq![Comment { at: a + 8, text: line.skip(8) }] } else { seq![] } }
spec fn over(a: int, l: Seq<B>) -> Seq<Comment> decreases l.len() { if l.len() == 0 { seq![] } else { here(a, l[0]) + over(a + l[0].len() + 1, l.skip(1)) } }
/// The comments of a text from a line's start on
spec fn comments(b: B, a: int) -> Seq<Comment> decreases b.len() + 1 - a {
    if a < 0 || a > b.len() { seq![] } else {
        let n = a + upto(b.skip(a), 10) as int;
        here(a, b.subrange(a, n)) + if n < b.len() { comments(b, n + 1) } else { seq![] }
    }
}
proof fn upto_in(b: B, x: u8) ensures upto(b, x) <= b.len(), upto(b, x) < b.len() ==> b[upto(b, x) as int] == x, forall|i: int| 0 <= i < upto(b, x) ==> #[trigger] b[i] != x decreases b.len()
{
    if b.len() > 0 && b[0] != x {
        let r = b.skip(1);
        upto_in(r, x);
        assert forall|i: int| 0 <= i < upto(b, x) implies #[trigger] b[i] != x by { if i > 0 { assert(r[i - 1] == b[i]); } }
        if upto(b, x) < b.len() { assert(r[upto(r, x) as int] == b[upto(b, x) as int]); }
    }
}
proof fn over_lines(b: B, a: int)
    requires 0 <= a <= b.len(),
    ensures over(a, lines(b.skip(a))) == comments(b, a),
    decreases b.len() - a,
{
    let r = b.skip(a);
    upto_in(r, 10);
    let n = upto(r, 10) as int;
    assert(b.subrange(a, a + n) =~= r.take(n));
    if n < r.len() {
        over_lines(b, a + n + 1);
        assert(b.skip(a + n + 1) =~= r.skip(n + 1));
        assert(lines(r).skip(1) =~= lines(r.skip(n + 1)));
        assert(lines(r)[0] == r.take(n));
    } else {
        assert(r.take(n) =~= r);
        assert(lines(r).skip(1) =~= Seq::<B>::empty());
        assert(over(a + n + 1, Seq::<B>::empty()) == Seq::<Comment>::empty());
        assert(comments(b, a + n + 1) == Seq::<Comment>::empty());
    }
}
/// Each comment's text is what is in the file at its place, after the prefix and up to the end of its line
spec fn is_comment(b: B, c: Comment) -> bool {
    at_place(b, c.at, c.text) && 8 <= c.at && (c.at == 8 || b[c.at - 9] == 10) && b.subrange(c.at - 8, c.at) == prefix() && (c.at + c.text.len() == b.len() || b[c.at + c.text.len()] == 10) && !inside(c.text, 10)
}
proof fn comments_are(b: B, a: int)
    requires 0 <= a, file_ok(b), a == 0 || a > b.len() || b[a - 1] == 10,
    ensures forall|i: int| 0 <= i < comments(b, a).len() ==> is_comment(b, #[trigger] comments(b, a)[i]),
    decreases b.len() + 1 - a,
{
    if a <= b.len() {
        let r = b.skip(a);
        upto_in(r, 10);
        let n = a + upto(r, 10);
        if n < b.len() { assert(b[n] == r[n - a]); }
        comments_are(b, n + 1);
        let line = b.subrange(a, n);
        if pre(line, prefix()) {
            let c = Comment { at: a + 8, text: line.skip(8) };
            assert(line.take(8) =~= b.subrange(a, a + 8));
            assert(b.subrange(a + 8, n) =~= line.skip(8));
            assert(b[a + 7] == line.take(8)[7]);
            assert(c.at + c.text.len() == n);
            if a + 8 < b.len() { assert(b[a + 8 - 1] < 0x80); }
            assert forall|i: int| 0 <= i < c.text.len() implies #[trigger] c.text[i] != 10 by { assert(c.text[i] == r[8 + i]); }
            assert(is_comment(b, c));
        }
        let h = here(a, line);
        assert forall|i: int| 0 <= i < comments(b, a).len() implies is_comment(b, #[trigger] comments(b, a)[i]) by {
            if i >= h.len() { assert(comments(b, a)[i] == comments(b, n + 1)[i - h.len()]); }
        }
    }
}
/// split and filter_map: the pieces in order, each given to the function that is verified below
#[verifier::external_body]
struct VxComments { x: u8 }
impl VxComments { uninterp spec fn all(&self) -> Seq<Comment>; }
#[verifier::external_body]
fn vx_scan(s: &str, c: char, start: CodeIndex) -> (r: VxComments) requires c == '\n', start == 0, bts(s).len() < u32::MAX ensures r.all() == over(0, lines(bts(s))) { unimplemented!() }
spec fn asc(s: Seq<char>) -> B { Seq::new(s.len(), |i: int| s[i] as u8) }
spec fn is_asc(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
#[verifier::external_body]
proof fn ascii_bytes(s: &str) ensures is_asc(s@) ==> bts(s) == asc(s@) { }
#[verifier::external_body]
fn vx_strip_prefix_s<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> pre(bts(s), bts(p)), r is Some ==> bts(r->0) == bts(s).skip(bts(p).len() as int) { s.strip_prefix(p) }
proof fn the_prefix() ensures bts("# mypy: ") == prefix()
{
    reveal_strlit("# mypy: ");
    ascii_bytes("# mypy: ");
    assert(asc("# mypy: "@) =~= prefix());
}
#[verifier::external_body]
struct Tree { x: u8 }
impl Tree {
    uninterp spec fn text(&self) -> B;
    #[verifier::external_body]
    fn code(&self) -> (r: &str) ensures bts(r) == self.text() { unimplemented!() }
}
//@rwclear
//@file crates/parsa_python_cst/src/lib.rs
//@rw $s.len() ==> vx_len($s)
//@rw $s.strip_prefix($c) ==> vx_strip_prefix_s($s, $c)
//@rw $x.map(|$p| $b) ==> match $x { Some($p) => Some($b), None => None }
//@rw $x.and_then(|$p| $b) ==> match $x { Some($p) => $b, None => None }
//@fn Tree::mypy_inline_config_directives name=one_line ret=r
//@only move |line|
//@rw !code_index_start ==> (*vx_at)
//@sig fn one_line<'a>(vx_at: &mut CodeIndex, line: &'a str) -> (r: Option<(CodeIndex, &'a str)>)
    requires *old(vx_at) + bts(line).len() < u32::MAX,
    ensures *final(vx_at) == *old(vx_at) + bts(line).len() + 1,
        here(*old(vx_at) as int, bts(line)) == if r is Some { seq![Comment { at: (r->0).0 as int, text: bts((r->0).1) }] } else { seq![] },
//@begin
    proof { the_prefix(); }
//@end
impl Tree {
//@fn Tree::mypy_inline_config_directives ret=r
//@rw !self.code().split($c).filter_map($f) ==> vx_scan(self.code(), $c, code_index_start)
//@tyrw impl Iterator<Item = (CodeIndex, &str)> ==> VxComments
    requires file_ok(self.text()),
    ensures r.all() == comments(self.text(), 0), forall|i: int| 0 <= i < r.all().len() ==> is_comment(self.text(), #[trigger] r.all()[i]),
//@begin
    proof { over_lines(self.text(), 0); comments_are(self.text(), 0); assert(self.text().skip(0) =~= self.text()); }
//@end
}
}
fn main() {}
