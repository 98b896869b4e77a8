#![allow(warnings)]
// C10: applying editor changes (crates/zuban_python/src/lsp_utils.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;

type CodeIndex = u32;
struct VxErr;
fn vx_err() -> VxErr { VxErr }

//@include lines_spec.inc

// ---- the protocol types, reduced to the fields used
#[derive(Clone, Copy)]
struct Position { line: u32, character: u32 }
#[derive(Clone, Copy)]
struct Range { start: Position, end: Position }
struct TextDocumentContentChangeEvent { range: Option<Range>, text: String }
/// derive(PartialOrd) of lsp_types::Position: line first, then character
spec fn after(a: Position, b: Position) -> bool { a.line > b.line || (a.line == b.line && a.character > b.character) }
fn vx_pos_gt(a: Position, b: Position) -> (r: bool) ensures r == after(a, b) { a.line > b.line || (a.line == b.line && a.character > b.character) }

// ---- strings
uninterp spec fn bs(s: String) -> Seq<u8>;
/// A String is UTF-8 too.
#[verifier::external_body]
proof fn utf8_string(s: String) ensures starts_ok(bs(s)), utf8_ends(bs(s)) { }
#[verifier::external_body]
fn vx_str(s: &String) -> (r: &str) ensures bts(r) == bs(*s) { s.as_str() }
#[verifier::external_body]
fn vx_to_string(s: &str) -> (r: String) ensures bs(r) == bts(s) { s.to_string() }
#[verifier::external_body]
fn vx_take_text(v: &mut Vec<TextDocumentContentChangeEvent>, i: usize) -> (r: String)
    requires i < old(v)@.len(),
    ensures r == old(v)@[i as int].text, final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < old(v)@.len() && k != i ==> #[trigger] final(v)@[k] == old(v)@[k]
{ std::mem::take(&mut v[i].text) }
#[verifier::external_body]
fn vx_replace(s: &mut String, a: usize, z: usize, t: &String)
    requires a <= z <= bs(*old(s)).len(), bnd(bs(*old(s)), a as int), bnd(bs(*old(s)), z as int),
    ensures bs(*final(s)) == bs(*old(s)).subrange(0, a as int) + bs(*t) + bs(*old(s)).subrange(z as int, bs(*old(s)).len() as int)
{ s.replace_range(a..z, t) }
fn vx_tail(v: &Vec<TextDocumentContentChangeEvent>, a: usize) -> (r: &[TextDocumentContentChangeEvent])
    requires a <= v@.len(), ensures r@ == v@.subrange(a as int, v@.len() as int)
{ vstd::slice::slice_subrange(v.as_slice(), a, v.len()) }
struct VxIter<'a> { v: &'a [TextDocumentContentChangeEvent], k: usize }
fn vx_iter<'a>(v: &'a [TextDocumentContentChangeEvent]) -> (r: VxIter<'a>) ensures r.v@ == v@, r.k == 0 { VxIter { v, k: 0 } }
impl<'a> VxIter<'a> {
    fn vx_next(&mut self) -> (r: Option<&'a TextDocumentContentChangeEvent>)
        requires old(self).k <= old(self).v@.len(),
        ensures final(self).v == old(self).v,
            old(self).k < old(self).v@.len() ==> r == Some(&old(self).v@[old(self).k as int]) && final(self).k == old(self).k + 1,
            old(self).k == old(self).v@.len() ==> r is None && final(self).k == old(self).k,
    { if self.k < self.v.len() { let x = &self.v[self.k]; self.k += 1; Some(x) } else { None } }
}
#[verifier::external_body]
fn vx_borrow(x: &NewlineIndices) -> (r: NewlineIndices) ensures r == *x { NewlineIndices(x.0.clone()) }

#[verifier::opaque]
spec fn accepted(b: Seq<u8>, input: InputPosition, byte: u32) -> bool { conv(b, ends(b), input, Ok(BytePositionInfos { byte, column_out_of_bounds: false })) }
#[verifier::opaque]
spec fn refused(b: Seq<u8>, input: InputPosition) -> bool { exists|x: Result<BytePositionInfos, VxErr>| #[trigger] conv(b, ends(b), input, x) && (x is Err || x->Ok_0.column_out_of_bounds) }
// ---- the line index: these contracts are proved in unit `lines`
impl NewlineIndices {
    fn new() -> (r: NewlineIndices) ensures r.0 is None { NewlineIndices(None) }
    #[verifier::external_body]
    fn line_column_to_safe_byte(&mut self, code: &str, input: InputPosition) -> (r: Result<CodeIndex, VxErr>)
        requires bts(code).len() < u32::MAX, old(self).agrees(bts(code), line_no(input)),
        ensures
            line_ends(bts(code), ends(bts(code))),
            line_no(input) >= 0 ==> final(self).0 is Some && final(self).0->0@ == old(self).idx(bts(code)),
            line_no(input) < 0 ==> *final(self) == *old(self),
            match r { Ok(byte) => accepted(bts(code), input, byte), Err(_) => refused(bts(code), input) },
    { unimplemented!() }
}

// ---- specification: one change after the other, each on the then-current text
/// The unit in which the client counts columns, any of the three.
uninterp spec fn unit() -> int;
spec fn inp(p: Position) -> InputPosition {
    if unit() == 0 { InputPosition::Utf8Bytes { line: p.line as usize, column: p.character as usize } }
    else if unit() == 1 { InputPosition::Utf16CodeUnits { line: p.line as usize, column: p.character as usize } }
    else { InputPosition::CodePoints { line: p.line as usize, column: p.character as usize } }
}
/// p denotes byte k of the text b.
spec fn hit(b: Seq<u8>, p: Position, k: int) -> bool {
    0 <= k <= b.len() && k <= u32::MAX && conv(b, ends(b), inp(p), Ok(BytePositionInfos { byte: k as u32, column_out_of_bounds: false }))
}
spec fn place(b: Seq<u8>, p: Position) -> Option<int> { if exists|k: int| hit(b, p, k) { Some(choose|k: int| hit(b, p, k)) } else { None } }
spec fn spliced(b: Seq<u8>, s: int, e: int, t: Seq<u8>) -> Seq<u8> { b.subrange(0, s) + t + b.subrange(e, b.len() as int) }
spec fn one(b: Seq<u8>, c: TextDocumentContentChangeEvent) -> Option<Seq<u8>> {
    match c.range {
        None => Some(bs(c.text)),
        Some(r) => if after(r.start, r.end) { None } else {
            match (place(b, r.start), place(b, r.end)) {
                (Some(s), Some(e)) => Some(spliced(b, s, e, bs(c.text))),
                _ => None,
            }
        },
    }
}
spec fn fold(b: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>, n: int) -> Option<Seq<u8>> decreases n {
    if n <= 0 { Some(b) } else { match fold(b, cs, n - 1) { None => None, Some(x) => one(x, cs[n - 1]) } }
}
/// A change that puts an LF right after a lone CR turns two line breaks into one: positions inside that break are unspecified.
spec fn joins(b: Seq<u8>, c: TextDocumentContentChangeEvent) -> bool {
    c.range is Some && place(b, (c.range->0).start) is Some && one(b, c) is Some && ({
        let s = place(b, (c.range->0).start)->0;
        let x = one(b, c)->0;
        0 < s < x.len() && b[s - 1] == 13 && x[s] == 10
    })
}
/// No such change, and every text on the way stays below 4 GiB.
spec fn ordinary(b: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>) -> bool {
    forall|n: int| 0 <= n <= cs.len() && (#[trigger] fold(b, cs, n)) is Some ==> (fold(b, cs, n)->0).len() < u32::MAX && (n < cs.len() ==> !joins(fold(b, cs, n)->0, cs[n]))
}
spec fn last_full(cs: Seq<TextDocumentContentChangeEvent>, i: int) -> bool {
    0 <= i < cs.len() && cs[i].range is None && forall|k: int| i < k < cs.len() ==> (#[trigger] cs[k]).range is Some
}

spec fn has_full(cs: Seq<TextDocumentContentChangeEvent>) -> bool { exists|i: int| last_full(cs, i) }
/// The text the last full replacement sets, or the old text; and the changes after it.
spec fn base(b: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>) -> Seq<u8> { if has_full(cs) { bs(cs[choose|i: int| last_full(cs, i)].text) } else { b } }
spec fn tail(cs: Seq<TextDocumentContentChangeEvent>) -> Seq<TextDocumentContentChangeEvent> { if has_full(cs) { cs.subrange((choose|i: int| last_full(cs, i)) + 1, cs.len() as int) } else { cs } }
spec fn outcome(b: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>) -> Option<Seq<u8>> { fold(base(b, cs), tail(cs), tail(cs).len() as int) }
/// That is what all the changes one after the other give, if those before the last full replacement can be applied at all.
proof fn outcome_is_fold(b: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>)
    requires has_full(cs) ==> fold(b, cs, choose|i: int| last_full(cs, i)) is Some,
    ensures outcome(b, cs) == fold(b, cs, cs.len() as int),
{
    if has_full(cs) { full_resets(b, cs, choose|i: int| last_full(cs, i), cs.len() as int); }
}
proof fn only_one(cs: Seq<TextDocumentContentChangeEvent>, i: int, j: int) requires last_full(cs, i), last_full(cs, j), ensures i == j { }
proof fn fold_stays(b: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>, i: int, n: int)
    requires 0 <= i <= n, fold(b, cs, i) is None, ensures fold(b, cs, n) is None, decreases n - i
{ if i < n { fold_stays(b, cs, i, n - 1); } }
proof fn line_starts_ok(b: Seq<u8>, line: int)
    requires starts_ok(b), utf8_ends(b), line_ends(b, ends(b)), 0 <= line <= ends(b).len(),
    ensures starts_ok(line_of(b, ends(b), line)), bnd(b, lstart(ends(b), line)), bnd(b, lstop(b, ends(b), line)), 0 <= lstart(ends(b), line) <= lstop(b, ends(b), line) <= b.len(),
{
    line_bnd(b, ends(b), line);
    let l = line_of(b, ends(b), line);
    if l.len() > 0 && lstart(ends(b), line) > 0 { assert(l[0] == b[lstart(ends(b), line)]); }
}
/// A hit lies on its line, at a boundary.
proof fn hit_props(b: Seq<u8>, p: Position, k: int)
    requires hit(b, p, k), starts_ok(b), utf8_ends(b), line_ends(b, ends(b)),
    ensures p.line <= ends(b).len(), lstart(ends(b), p.line as int) <= k <= lstop(b, ends(b), p.line as int), bnd(b, k),
{
    line_starts_ok(b, p.line as int);
    let s = lstart(ends(b), p.line as int);
    let l = line_of(b, ends(b), p.line as int);
    assert(bnd(l, k - s));
    if 0 < k - s < l.len() { assert(l[k - s] == b[k]); }
}
proof fn hit_order(b: Seq<u8>, p: Position, q: Position, j: int, k: int)
    requires hit(b, p, j), hit(b, q, k), !after(p, q), starts_ok(b), utf8_ends(b), line_ends(b, ends(b)),
    ensures j <= k, p == q ==> j == k,
{
    hit_props(b, p, j);
    hit_props(b, q, k);
    let v = ends(b);
    line_starts_ok(b, p.line as int);
    if p.line < q.line {
        assert(p.line < v.len());
        if p.line + 1 < q.line { assert(v[p.line as int] < v[q.line - 1]); }
    } else {
        let s = lstart(v, p.line as int);
        let l = line_of(b, v, p.line as int);
        if j < k { strict(l, j - s, k - s); }
        if k < j { strict(l, k - s, j - s); }
    }
}
proof fn placed(b: Seq<u8>, p: Position, k: int)
    requires hit(b, p, k), starts_ok(b), utf8_ends(b), line_ends(b, ends(b)),
    ensures place(b, p) == Some(k),
{
    let j = choose|k: int| hit(b, p, k);
    hit_order(b, p, p, j, k);
}
proof fn not_placed(b: Seq<u8>, p: Position, x: Result<BytePositionInfos, VxErr>)
    requires conv(b, ends(b), inp(p), x), x is Err || x->Ok_0.column_out_of_bounds, starts_ok(b), utf8_ends(b), line_ends(b, ends(b)),
    ensures place(b, p) is None,
{
    if exists|k: int| hit(b, p, k) {
        let k = choose|k: int| hit(b, p, k);
        hit_props(b, p, k);
        let l = line_of(b, ends(b), p.line as int);
        let s = lstart(ends(b), p.line as int);
        line_starts_ok(b, p.line as int);
        len_add(l, k - s, l.len() as int);
        assert(l.subrange(0, l.len() as int) =~= l);
        if unit() == 1 { assert(pos16(l, p.character as int, k - s)); } else if unit() != 0 { assert(pos1(l, p.character as int, k - s)); }
    }
}
/// An edit that starts on line m keeps the ends of all lines before m.
proof fn edit_keeps(b: Seq<u8>, c: Seq<u8>, s: int, e: int, t: Seq<u8>, m: int, v: Seq<u32>, n: int)
    requires
        b.len() < u32::MAX, c.len() < u32::MAX, 0 <= s <= e <= b.len(), c == spliced(b, s, e, t), !(0 < s < c.len() && b[s - 1] == 13 && c[s] == 10),
        line_ends(b, ends(b)), line_ends(c, ends(c)), 0 <= m <= ends(b).len(), lstart(ends(b), m) <= s, 0 <= n < m, agree(v, ends(b), n),
    ensures agree(v, ends(c), n),
{
    let (f, g) = (ends(b), ends(c));
    keeps(b, c, s, m, m);
    assert(n < m <= f.len());
    assert forall|k: int| 0 <= k <= n && k < v.len() implies #[trigger] v[k] == g[k] by { assert(v[k] == f[k]); assert(f[k] == g[k]); }
}
proof fn keeps(b: Seq<u8>, c: Seq<u8>, s: int, m: int, k: int)
    requires
        line_ends(b, ends(b)), line_ends(c, ends(c)), 0 <= m <= ends(b).len(), lstart(ends(b), m) <= s, 0 <= k <= m, 0 <= s <= b.len(), s <= c.len(),
        forall|i: int| 0 <= i < s ==> b[i] == c[i], !(0 < s < c.len() && b[s - 1] == 13 && c[s] == 10),
    ensures k <= ends(c).len(), forall|i: int| 0 <= i < k ==> ends(b)[i] == ends(c)[i],
    decreases k,
{
    if k > 0 {
        keeps(b, c, s, m, k - 1);
        let (f, g) = (ends(b), ends(c));
        let i = k - 1;
        assert(f[i] <= s) by { if i < m - 1 { assert(f[i] < f[m - 1]); } }
        assert(line_end(b, f[i] as int));
        assert(line_end(c, f[i] as int));
        let q = choose|q: int| 0 <= q < g.len() && #[trigger] g[q] == f[i];
        if q < i { assert(f[q] == g[q]); assert(f[q] < f[i]); }
        if q > i {
            assert(g[i] < g[q]);
            assert(line_end(c, g[i] as int));
            assert(line_end(b, g[i] as int));
            let w = choose|w: int| 0 <= w < f.len() && #[trigger] f[w] == g[i];
            if w < i { assert(f[w] == g[w]); assert(g[w] < g[i]); }
            if w > i { assert(f[i] < f[w]); }
        }
    }
}
/// Dropping the changes before a full one is the same as applying them all, where they can be applied.
proof fn full_resets(b: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>, i: int, n: int)
    requires 0 <= i < cs.len(), cs[i].range is None, fold(b, cs, i) is Some, i < n <= cs.len(),
    ensures fold(b, cs, n) == fold(bs(cs[i].text), cs.subrange(i + 1, cs.len() as int), n - i - 1),
    decreases n,
{
    let d = cs.subrange(i + 1, cs.len() as int);
    if n == i + 1 {
        assert(fold(b, cs, n) == one(fold(b, cs, i)->0, cs[i]));
    } else {
        full_resets(b, cs, i, n - 1);
        assert(cs[n - 1] == d[n - i - 2]);
    }
}

/// If the change at `at` cannot be applied, nothing comes of the whole.
proof fn no_way(b: Seq<u8>, start: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>, at: int)
    requires starts_ok(b), utf8_ends(b), line_ends(b, ends(b)), 0 <= at < cs.len(), cs[at].range is Some, fold(start, cs, at) == Some(b),
    ensures ({ let g = cs[at].range->0; after(g.start, g.end) || refused(b, inp(g.start)) || refused(b, inp(g.end)) ==> fold(start, cs, cs.len() as int) is None }),
{
    reveal(refused);
    let g = cs[at].range->0;
    if refused(b, inp(g.start)) { not_placed(b, g.start, choose|x: Result<BytePositionInfos, VxErr>| #[trigger] conv(b, ends(b), inp(g.start), x) && (x is Err || x->Ok_0.column_out_of_bounds)); }
    if refused(b, inp(g.end)) { not_placed(b, g.end, choose|x: Result<BytePositionInfos, VxErr>| #[trigger] conv(b, ends(b), inp(g.end), x) && (x is Err || x->Ok_0.column_out_of_bounds)); }
    if one(b, cs[at]) is None { assert(fold(start, cs, at + 1) is None); fold_stays(start, cs, at + 1, cs.len() as int); }
}
/// Both ends accepted: the splice is the next text.
proof fn one_way(b: Seq<u8>, start: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>, at: int, s: u32, e: u32)
    requires
        b.len() < u32::MAX, starts_ok(b), utf8_ends(b), line_ends(b, ends(b)), 0 <= at < cs.len(), cs[at].range is Some, fold(start, cs, at) == Some(b), ordinary(start, cs),
        ({ let g = cs[at].range->0; !after(g.start, g.end) && accepted(b, inp(g.start), s) && accepted(b, inp(g.end), e) }),
    ensures
        s <= e <= b.len(), bnd(b, s as int), bnd(b, e as int), lstart(ends(b), (cs[at].range->0).start.line as int) <= s, (cs[at].range->0).start.line <= ends(b).len(),
        ({ let x = spliced(b, s as int, e as int, bs(cs[at].text));
            fold(start, cs, at + 1) == Some(x) && x.len() < u32::MAX && line_ends(x, ends(x)) && !(0 < s < x.len() && b[s - 1] == 13 && x[s as int] == 10) }),
{
    reveal(accepted);
    let c = cs[at];
    let g = c.range->0;
    line_in(b, g.start, s);
    line_in(b, g.end, e);
    assert(hit(b, g.start, s as int));
    assert(hit(b, g.end, e as int));
    hit_props(b, g.start, s as int);
    hit_props(b, g.end, e as int);
    line_starts_ok(b, g.start.line as int);
    line_starts_ok(b, g.end.line as int);
    hit_order(b, g.start, g.end, s as int, e as int);
    placed(b, g.start, s as int);
    placed(b, g.end, e as int);
    let x = spliced(b, s as int, e as int, bs(c.text));
    assert(one(b, c) == Some(x));
    assert(fold(start, cs, at + 1) == Some(x));
    assert(!joins(b, c));
    ends_exist(x);
}
proof fn line_in(b: Seq<u8>, p: Position, k: u32)
    requires starts_ok(b), utf8_ends(b), line_ends(b, ends(b)), accepted(b, inp(p), k),
    ensures k <= b.len(),
{
    reveal(accepted);
    assert(p.line <= ends(b).len());
    line_starts_ok(b, p.line as int);
}
proof fn still_good(b: Seq<u8>, start: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>, at: int, s: u32, e: u32, v: Seq<u32>, n: int)
    requires
        b.len() < u32::MAX, starts_ok(b), utf8_ends(b), line_ends(b, ends(b)), 0 <= at < cs.len(), cs[at].range is Some, fold(start, cs, at) == Some(b), ordinary(start, cs),
        ({ let g = cs[at].range->0; !after(g.start, g.end) && accepted(b, inp(g.start), s) && accepted(b, inp(g.end), e) }),
        0 <= n < (cs[at].range->0).start.line, agree(v, ends(b), n),
    ensures agree(v, ends(spliced(b, s as int, e as int, bs(cs[at].text))), n),
{
    one_way(b, start, cs, at, s, e);
    edit_keeps(b, spliced(b, s as int, e as int, bs(cs[at].text)), s as int, e as int, bs(cs[at].text), (cs[at].range->0).start.line as int, v, n);
}

//@file crates/zuban_python/src/lsp_utils.rs
//@fn apply_document_changes
//@sig fn apply_document_changes(file_contents: &str, line_indices: &NewlineIndices, mut content_changes: Vec<TextDocumentContentChangeEvent>, to_input_position: impl Fn(Position) -> InputPosition, Ghost(orig__): Ghost<Seq<TextDocumentContentChangeEvent>>) -> (r: Result<String, VxErr>)
//@rw Cow::Borrowed($x) ==> vx_borrow($x)
//@rw Cow::Owned($x) ==> $x
//@rw std::mem::take(&mut content_changes[idx].text) ==> vx_take_text(&mut content_changes, idx)
//@rw $x.to_string() ==> vx_to_string($x)
//@rw &$v[..] ==> $v.as_slice()
//@rw &$v[$a..] ==> vx_tail(&$v, $a)
//@rw range.start > range.end ==> vx_pos_gt(range.start, range.end)
//@rw line_indices.line_column_to_safe_byte(&text, $p) ==> line_indices.line_column_to_safe_byte(vx_str(&text), $p)
//@rw text.replace_range($a..$b, &$t) ==> vx_replace(&mut text, $a, $b, &$t)
//@rw vx_into_iter($x) ==> vx_iter($x)
//@rw $v.iter().rposition(|$p| $b) ==> { let mut i__ = $v.len(); let mut found__ = None; while i__ > 0 && found__.is_none() { i__ = i__ - 1; let $p = &$v[i__]; if $b { found__ = Some(i__); } } found__ }
    requires
        forall|p: Position| call_requires(to_input_position, (p,)),
        forall|p: Position, i: InputPosition| call_ensures(to_input_position, (p,), i) ==> i == inp(p),
        line_indices.exact(bts(file_contents)), bts(file_contents).len() < u32::MAX, orig__ == content_changes@,
        // from the last full replacement on (or from the old text) the changes are ordinary
        ordinary(base(bts(file_contents), orig__), tail(orig__)),
    ensures
        r is Ok <==> outcome(bts(file_contents), orig__) is Some,
        r is Ok ==> bs(r->Ok_0) == outcome(bts(file_contents), orig__)->0,
//@begin
    let ghost cs__ = content_changes@;
    proof { ends_exist(bts(file_contents)); }
//@loop 0
    invariant
        content_changes@ == cs__, i__ <= cs__.len(),
        forall|k: int| i__ <= k < cs__.len() && found__ is None ==> (#[trigger] cs__[k]).range is Some,
        found__ is Some ==> last_full(cs__, found__->0 as int),
    decreases i__,
//@before if content_changes.is_empty()
    let ghost start__ = bs(text);
    let ghost rest__ = content_changes@;
    proof {
        if has_full(cs__) {
            let i = choose|i: int| last_full(cs__, i);
            assert forall|j: int| #[trigger] last_full(cs__, j) implies j == i by { only_one(cs__, i, j); }
            assert(rest__ =~= tail(cs__));
            assert(start__ == base(bts(file_contents), cs__));
        } else {
            assert(rest__ =~= tail(cs__));
            assert(start__ == base(bts(file_contents), cs__));
        }
        assert(fold(start__, rest__, 0) == Some(start__));
        assert(ordinary(start__, rest__));
        ends_exist(start__);
        assert(line_indices.exact(start__));
        assert forall|n: int| line_indices.agrees(start__, n) by { }
    }
    // what is left to show
    let ghost want__ = fold(start__, rest__, rest__.len() as int);
    assert(want__ == outcome(bts(file_contents), orig__));
    assert(forall|k: int| 0 <= k < rest__.len() ==> (#[trigger] rest__[k]).range is Some);
//@loop 1
    invariant
        it__1.v@ == rest__, it__1.k <= rest__.len(), forall|k: int| 0 <= k < rest__.len() ==> (#[trigger] rest__[k]).range is Some,
        forall|p: Position| call_requires(to_input_position, (p,)),
        forall|p: Position, i: InputPosition| call_ensures(to_input_position, (p,), i) ==> i == inp(p),
        want__ == fold(start__, rest__, rest__.len() as int),
        want__ == outcome(bts(file_contents), orig__),
        ordinary(start__, rest__),
        fold(start__, rest__, it__1.k as int) == Some(bs(text)),
        line_ends(bs(text), ends(bs(text))),
        forall|n: int| 0 <= n < index_valid ==> #[trigger] line_indices.agrees(bs(text), n),
    ensures
        fold(start__, rest__, rest__.len() as int) == Some(bs(text)),
    decreases rest__.len() - it__1.k,
//@loopbegin 1
    let ghost b__ = bs(text);
    let ghost at__ = it__1.k as int;
    let ghost valid__ = index_valid;
    proof {
        assert(b__.len() < u32::MAX);
        utf8_string(text);
        if at__ < rest__.len() { no_way(b__, start__, rest__, at__); }
    }
//@before let start = line_indices
    assert(forall|n: int| 0 <= n <= range.end.line ==> #[trigger] line_indices.agrees(b__, n));
    assert(range.start.line <= range.end.line);
    let ghost li__ = line_indices;
//@before let end = line_indices
    assert forall|n: int| 0 <= n <= range.end.line implies #[trigger] line_indices.agrees(b__, n) by { assert(li__.agrees(b__, n)); }
    let ghost lj__ = line_indices;
//@before vx_replace
    proof {
        one_way(b__, start__, rest__, at__, start, end);
        assert forall|n: int| 0 <= n < range.start.line implies line_indices.agrees(spliced(b__, start as int, end as int, bs(change.text)), n) by {
            if line_indices.0 is Some {
                assert(lj__.agrees(b__, n));
                assert(line_indices.agrees(b__, n));
                still_good(b__, start__, rest__, at__, start, end, line_indices.0->0@, n);
            }
        }
    }
//@end
}
fn main() {}
