#![allow(warnings)]
// C17: selection ranges (crates/parsa_python_cst/src/ranges.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
type CodeIndex = u32;
//@include str_spec.inc
#[verifier::external_body]
fn vx_ends_nl(s: &str) -> (r: bool) { s.ends_with("\n") }
/// rfind('\n'): the last line feed.
#[verifier::external_body]
fn vx_rfind_nl(s: &str) -> (r: Option<usize>)
    ensures r is Some ==> r->0 < bts(s).len() && bts(s)[r->0 as int] == 10, r is None ==> forall|i: int| 0 <= i < bts(s).len() ==> #[trigger] bts(s)[i] != 10
{ s.rfind('\n') }

// ---- the tree, as C03 and C04 describe it
#[derive(Clone, Copy, PartialEq, Eq)]
enum NonterminalType { file, stmt, kwargs, block, simple_stmts, other__ }
use NonterminalType::*;
#[derive(Clone, Copy, PartialEq, Eq)]
enum TerminalType { Name, Operator, String, Bytes, Number, Endmarker, Newline, ErrorToken, Indent, Dedent, ErrorDedent, FStringStart, FStringString, FStringEnd, NeverMatch }
#[derive(Clone, Copy, PartialEq, Eq)]
enum PyNodeType { Nonterminal(NonterminalType), Terminal(TerminalType), Keyword, ErrorNonterminal(NonterminalType), ErrorTerminal(TerminalType), ErrorKeyword }
use PyNodeType::Nonterminal;
#[verifier::external_body]
#[derive(Clone, Copy)]
struct PyNode<'t> { x: &'t str }
uninterp spec fn st(n: PyNode) -> int;
uninterp spec fn en(n: PyNode) -> int;
uninterp spec fn up<'t>(n: PyNode<'t>) -> Option<PyNode<'t>>;
uninterp spec fn depth(n: PyNode) -> nat;
uninterp spec fn ty(n: PyNode) -> PyNodeType;
uninterp spec fn text<'t>(n: PyNode<'t>) -> Seq<u8>;
uninterp spec fn root<'t>(n: PyNode<'t>) -> PyNode<'t>;
/// Nesting (C03): inside the text, on boundaries, inside the parent; the root spans the text.
spec fn nested(n: PyNode) -> bool {
    &&& 0 <= st(n) <= en(n) <= text(n).len() <= u32::MAX && bnd(text(n), st(n)) && bnd(text(n), en(n))
    &&& up(n) is Some ==> st(up(n)->0) <= st(n) && en(n) <= en(up(n)->0) && depth(up(n)->0) < depth(n) && text(up(n)->0) == text(n) && root(up(n)->0) == root(n)
    &&& up(n) is None ==> n == root(n) && st(n) == 0 && en(n) == text(n).len() && ty(n) == Nonterminal(file)
}
#[verifier::external_body]
broadcast proof fn tree(n: PyNode) ensures #[trigger] nested(n) { }
impl<'t> PyNode<'t> {
    #[verifier::external_body]
    fn start(&self) -> (r: CodeIndex) ensures r == st(*self), nested(*self) { unimplemented!() }
    #[verifier::external_body]
    fn end(&self) -> (r: CodeIndex) ensures r == en(*self), nested(*self) { unimplemented!() }
    #[verifier::external_body]
    fn parent(&self) -> (r: Option<PyNode<'t>>) ensures r == up(*self), nested(*self) { unimplemented!() }
    #[verifier::external_body]
    fn type_(&self) -> (r: PyNodeType) ensures r == ty(*self) { unimplemented!() }
    #[verifier::external_body]
    fn as_code(&self) -> (r: &'t str) ensures bts(r) == text(*self).subrange(st(*self), en(*self)) { unimplemented!() }
    #[verifier::external_body]
    fn previous_leaf(&self) -> (r: Option<PyNode<'t>>) ensures r is Some ==> text(r->0) == text(*self) && root(r->0) == root(*self) { unimplemented!() }
}
/// derive(PartialEq) of PyNodeType
#[verifier::external_body]
fn vx_is_keyword(t: PyNodeType) -> (r: bool) ensures r == (t == PyNodeType::Keyword) { unimplemented!() }
#[verifier::external_body]
struct PyTree { x: u8 }
struct Tree(PyTree);
uninterp spec fn src(t: Tree) -> Seq<u8>;
impl PyTree {
    uninterp spec fn src(&self) -> Seq<u8>;
    uninterp spec fn top(&self) -> PyNode;
    #[verifier::external_body]
    fn leaf_by_position(&self, position: CodeIndex) -> (r: PyNode<'_>) ensures text(r) == self.src(), root(r) == self.top() { unimplemented!() }
}
impl Tree {
    #[verifier::external_body]
    fn code(&self) -> (r: &str) ensures bts(r) == self.0.src() { unimplemented!() }
}

// ---- specification
spec fn holds(n: PyNode, p: int) -> bool { st(n) <= p <= en(n) }
spec fn around(r: Range, p: int) -> bool { r.start <= p <= r.end }
spec fn on_chars(r: Range, b: Seq<u8>) -> bool { r.start <= r.end <= b.len() && bnd(b, r.start as int) && bnd(b, r.end as int) }
/// b lies strictly inside a
spec fn wider(a: Range, b: Range) -> bool { a.start <= b.start && b.end <= a.end && a != b }
spec fn covers(r: Range, b: Seq<u8>) -> bool { r.start == 0 && r.end == b.len() }
/// What is kept from one range to the next: the next node surrounds the cursor and reaches as far as what was offered.
spec fn good<'t>(s: SelectionRanges<'t>, p: int, top: PyNode<'t>) -> bool {
    &&& s.node is Some ==> holds(s.node->0, p) && text(s.node->0) == bts(s.code) && root(s.node->0) == top
    &&& s.previous is Some ==> around(s.previous->0, p) && on_chars(s.previous->0, bts(s.code)) && (s.node is Some ==> en(s.node->0) >= (s.previous->0).end)
    &&& s.node is None ==> s.previous is Some && covers(s.previous->0, bts(s.code))
}
spec fn rest(n: Option<PyNode>) -> nat { match n { Some(x) => depth(x) + 1, None => 0 } }

/// After a line feed in the first k bytes there is a boundary of the whole.
proof fn lines_end(b: Seq<u8>, k: int)
    requires utf8_ends(b), 0 <= k <= b.len(), starts_ok(b),
    ensures forall|i: int| 0 <= i < k && #[trigger] b.subrange(0, k)[i] == 10 ==> bnd(b, i + 1)
{
    assert forall|i: int| 0 <= i < k && #[trigger] b.subrange(0, k)[i] == 10 implies bnd(b, i + 1) by {
        assert(b[(i + 1) - 1] == 10);
    }
}

//@file crates/parsa_python_cst/src/ranges.rs
//@struct Range #[derive(Clone, Copy)]
//@struct SelectionRanges
fn vx_same(a: Range, b: Range) -> (r: bool) ensures r == (a == b) { a.start == b.start && a.end == b.end }
fn vx_min(a: u32, b: u32) -> (r: u32) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
//@fn Tree::initial_node_for_selection_ranges/is_pos_in_node
    ensures r == holds(node, position as int),
//@end
//@fn Tree::initial_node_for_selection_ranges/node_includes_in_position
//@sig fn node_includes_in_position<'t>(initial: PyNode<'t>, position: CodeIndex) -> (r: PyNode<'t>)
    requires !holds(initial, position as int), position <= text(initial).len(),
    ensures holds(r, position as int), text(r) == text(initial), root(r) == root(initial),
    decreases depth(initial),
//@begin
    broadcast use tree;
    proof { assert(nested(initial)); if up(initial) is Some { assert(nested(up(initial)->0)); } }
//@end
impl Tree {
//@fn Tree::initial_node_for_selection_ranges
//@drop is_pos_in_node node_includes_in_position
//@rw node.type_() == PyNodeType::Keyword ==> vx_is_keyword(node.type_())
//@rw $x.ends_with("\n") ==> vx_ends_nl($x)
    requires position <= self.0.src().len(),
    ensures holds(r, position as int), text(r) == self.0.src(), root(r) == self.0.top(),
//@begin
    broadcast use tree;
//@end
//@fn Tree::selection_ranges
//@sig fn selection_ranges(&self, position: CodeIndex) -> (r: SelectionRanges<'_>)
    requires position <= self.0.src().len(),
    ensures good(r, position as int, self.0.top()), r.node is Some, bts(r.code) == self.0.src(),
//@end
}
impl<'tree> SelectionRanges<'tree> {
//@fn SelectionRanges:Iterator::next
//@sig fn next(&mut self, Ghost(p): Ghost<int>, Ghost(top): Ghost<PyNode<'tree>>) -> (r: Option<Range>)
//@rw self.next() ==> self.next(Ghost(p), Ghost(top))
//@rw previous == range ==> vx_same(previous, range)
//@rw range == previous ==> vx_same(range, previous)
//@rw previous != range ==> !vx_same(previous, range)
//@rw &self.code[..$z] ==> vx_slice(self.code, 0, $z)
//@rw $x.rfind('\n') ==> vx_rfind_nl($x)
//@rw before_node_code.len() ==> vx_len(before_node_code)
//@rw $a.min($b) ==> vx_min($a, $b)
    requires good(*old(self), p, top),
    ensures
        good(*final(self), p, top), final(self).code == old(self).code,
        r is Some ==> final(self).previous == r && around(r->0, p) && on_chars(r->0, bts(old(self).code)) && (old(self).previous is Some ==> wider(r->0, old(self).previous->0))
            && rest(final(self).node) < rest(old(self).node),
        // the end: the last range that was offered covers the whole file
        r is None ==> final(self).node is None && final(self).previous == old(self).previous && final(self).previous is Some && covers(final(self).previous->0, bts(old(self).code)),
    decreases rest(old(self).node),
//@begin
    broadcast use tree;
    proof {
        utf8(self.code); utf8_follow(self.code);
        if self.node is Some {
            assert(nested(self.node->0));
            if up(self.node->0) is Some { assert(nested(up(self.node->0)->0)); }
            lines_end(bts(self.code), st(self.node->0));
        }
    }
//@end
}
}
fn main() {}
