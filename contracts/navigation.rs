#![allow(warnings)]
// C04: tree navigation (the node methods __create_node! and create_grammar! define in crates/parsa/src/lib.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
type NodeIndex = u32;
type CodeIndex = u32;
type CodeLength = u32;
//@include str_spec.inc
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { panic!() }
#[verifier::external_body]
fn vx_panic() -> ! requires false { panic!() }
/// Option::unwrap and expect
fn vx_unwrap<T>(x: Option<T>) -> (r: T) requires x is Some ensures x == Some(r) { match x { Some(y) => y, None => vx_unreachable() } }

//@file crates/parsa/src/automaton.rs
//@const NODE_START
//@const ERROR_RECOVERY_BIT
//@struct InternalSquashedType #[derive(Clone,Copy)]
impl InternalSquashedType {
//@fn InternalSquashedType::is_leaf ret=r
    ensures r == (self.0 < NODE_START),
//@end
//@fn InternalSquashedType::set_error_recovery_bit ret=r
    ensures r.0 == (self.0 | ERROR_RECOVERY_BIT),
//@end
}
/// derive(PartialEq)
fn vx_type_eq(a: InternalSquashedType, b: InternalSquashedType) -> (r: bool) ensures r == (a == b) { a.0 == b.0 }
//@file crates/parsa/src/grammar.rs
//@struct InternalNode #[derive(Clone,Copy)]
//@struct InternalTree

// ---- slices and their iterators, executed and verified here; only their correspondence with std is assumed
fn vx_to<T>(v: &[T], b: usize) -> (r: &[T]) requires b <= v@.len() ensures r@ == v@.subrange(0, b as int) { vstd::slice::slice_subrange(v, 0, b) }
fn vx_from<T>(v: &[T], a: usize) -> (r: &[T]) requires a <= v@.len() ensures r@ == v@.subrange(a as int, v@.len() as int) { vstd::slice::slice_subrange(v, a, v.len()) }
fn vx_get_from<T>(v: &[T], a: usize) -> (r: Option<&[T]>)
    ensures a <= v@.len() ==> r is Some && r->0@ == v@.subrange(a as int, v@.len() as int), a > v@.len() ==> r is None
{ if a <= v.len() { Some(vx_from(v, a)) } else { None } }
/// slice.iter(): what is left is s[lo..hi]
struct VxIt<'a, T> { s: &'a [T], lo: usize, hi: usize }
struct VxItR<'a, T> { s: &'a [T], lo: usize, hi: usize }
/// with enumerate(): the count of the front element is lo
struct VxItE<'a, T> { s: &'a [T], lo: usize, hi: usize }
struct VxItER<'a, T> { s: &'a [T], lo: usize, hi: usize }
/// rev().enumerate()
struct VxItRE<'a, T> { s: &'a [T], lo: usize, hi: usize, k: usize }
fn vx_it<'a, T>(s: &'a [T]) -> (r: VxIt<'a, T>) ensures r.s == s, r.lo == 0, r.hi == s@.len() { VxIt { s, lo: 0, hi: s.len() } }
impl<'a, T> VxIt<'a, T> {
    fn rev(self) -> (r: VxItR<'a, T>) ensures r.s == self.s, r.lo == self.lo, r.hi == self.hi { VxItR { s: self.s, lo: self.lo, hi: self.hi } }
    fn enumerate(self) -> (r: VxItE<'a, T>) requires self.lo == 0 ensures r.s == self.s, r.lo == self.lo, r.hi == self.hi { VxItE { s: self.s, lo: self.lo, hi: self.hi } }
    fn vx_next(&mut self) -> (r: Option<&'a T>)
        requires old(self).lo <= old(self).hi <= old(self).s@.len(),
        ensures final(self).s == old(self).s, final(self).hi == old(self).hi,
            old(self).lo < old(self).hi ==> r is Some && *(r->0) == old(self).s@[old(self).lo as int] && final(self).lo == old(self).lo + 1,
            old(self).lo >= old(self).hi ==> r is None && final(self).lo == old(self).lo,
    { if self.lo < self.hi { let x = &self.s[self.lo]; self.lo = self.lo + 1; Some(x) } else { None } }
}
impl<'a, T> VxItR<'a, T> {
    fn enumerate(self) -> (r: VxItRE<'a, T>) ensures r.s == self.s, r.lo == self.lo, r.hi == self.hi, r.k == 0 { VxItRE { s: self.s, lo: self.lo, hi: self.hi, k: 0 } }
    fn vx_next(&mut self) -> (r: Option<&'a T>)
        requires old(self).lo <= old(self).hi <= old(self).s@.len(),
        ensures final(self).s == old(self).s, final(self).lo == old(self).lo,
            old(self).lo < old(self).hi ==> r is Some && *(r->0) == old(self).s@[old(self).hi - 1] && final(self).hi == old(self).hi - 1,
            old(self).lo >= old(self).hi ==> r is None && final(self).hi == old(self).hi,
    { if self.lo < self.hi { self.hi = self.hi - 1; Some(&self.s[self.hi]) } else { None } }
}
impl<'a, T> VxItE<'a, T> {
    fn rev(self) -> (r: VxItER<'a, T>) ensures r.s == self.s, r.lo == self.lo, r.hi == self.hi { VxItER { s: self.s, lo: self.lo, hi: self.hi } }
    fn vx_next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).lo <= old(self).hi <= old(self).s@.len(),
        ensures final(self).s == old(self).s, final(self).hi == old(self).hi,
            old(self).lo < old(self).hi ==> r is Some && (r->0).0 == old(self).lo && *((r->0).1) == old(self).s@[old(self).lo as int] && final(self).lo == old(self).lo + 1,
            old(self).lo >= old(self).hi ==> r is None && final(self).lo == old(self).lo,
    { if self.lo < self.hi { let i = self.lo; self.lo = i + 1; Some((i, &self.s[i])) } else { None } }
}
impl<'a, T> VxItER<'a, T> {
    fn vx_next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).lo <= old(self).hi <= old(self).s@.len(),
        ensures final(self).s == old(self).s, final(self).lo == old(self).lo,
            old(self).lo < old(self).hi ==> r is Some && (r->0).0 == old(self).hi - 1 && *((r->0).1) == old(self).s@[old(self).hi - 1] && final(self).hi == old(self).hi - 1,
            old(self).lo >= old(self).hi ==> r is None && final(self).hi == old(self).hi,
    { if self.lo < self.hi { self.hi = self.hi - 1; Some((self.hi, &self.s[self.hi])) } else { None } }
}
impl<'a, T> VxItRE<'a, T> {
    fn vx_next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).lo <= old(self).hi <= old(self).s@.len(), old(self).k + old(self).hi <= old(self).s@.len(), old(self).s@.len() <= usize::MAX,
        ensures final(self).s == old(self).s, final(self).lo == old(self).lo,
            old(self).lo < old(self).hi ==> r is Some && (r->0).0 == old(self).k && *((r->0).1) == old(self).s@[old(self).hi - 1] && final(self).hi == old(self).hi - 1 && final(self).k == old(self).k + 1,
            old(self).lo >= old(self).hi ==> r is None && final(self).hi == old(self).hi && final(self).k == old(self).k,
    { if self.lo < self.hi { self.hi = self.hi - 1; let k = self.k; self.k = k + 1; Some((k, &self.s[self.hi])) } else { None } }
}
/// unsafe { from_utf8_unchecked(&code.as_bytes()[a..z]) }: sound only on character boundaries
#[verifier::external_body]
fn vx_code_slice<'a>(c: &'a str, a: usize, z: usize) -> (r: &'a str)
    requires a <= z <= bts(c).len(), bnd(bts(c), a as int), bnd(bts(c), z as int)
    ensures bts(r) == bts(c).subrange(a as int, z as int)
{ &c[a..z] }

// ---- what a tree table is: pre-order nodes, e[i] is one past the last node of the subtree of i
spec fn leaf(x: InternalNode) -> bool { x.type_.0 < NODE_START }
/// p is the parent of c: the innermost node whose subtree contains c
spec fn par(e: Seq<int>, p: int, c: int) -> bool { 0 <= p < c < e.len() && c < e[p] && forall|q: int| p < q < c ==> #[trigger] e[q] <= c }
spec fn wfe(n: Seq<InternalNode>, e: Seq<int>) -> bool {
    &&& n.len() == e.len() && 0 < n.len() <= u32::MAX
    &&& e[0] == n.len() && n[0].next_node_offset == 0
    &&& forall|i: int| 0 <= i < n.len() ==> i < #[trigger] e[i] <= n.len()
    &&& forall|i: int| 0 <= i < n.len() ==> (leaf(#[trigger] n[i]) <==> e[i] == i + 1)
    &&& forall|i: int, j: int| 0 <= i < j < n.len() && j < e[i] ==> #[trigger] e[j] <= #[trigger] e[i]
    &&& forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).next_node_offset != 0 ==> n[i].next_node_offset == e[i] - i
    &&& forall|i: int, p: int| 0 <= p < i < n.len() && (#[trigger] n[i]).next_node_offset != 0 && i < #[trigger] e[p] ==> e[i] < e[p]
    &&& forall|i: int| 0 < i < n.len() && (#[trigger] n[i]).next_node_offset == 0 ==> last_child(e, i)
}
spec fn last_child(e: Seq<int>, i: int) -> bool { exists|p: int| #[trigger] par(e, p, i) && e[p] == e[i] }
spec fn en(n: Seq<InternalNode>) -> Seq<int> { choose|e: Seq<int>| wfe(n, e) }
spec fn wf(n: Seq<InternalNode>) -> bool { wfe(n, en(n)) }
spec fn fin(x: InternalNode) -> int { x.start_index + x.length }
spec fn wft(n: Seq<InternalNode>, b: Seq<u8>) -> bool {
    &&& n.len() > 0 && b.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < n.len() ==> fin(#[trigger] n[i]) <= b.len() && bnd(b, n[i].start_index as int) && bnd(b, fin(n[i]))
    &&& forall|i: int, j: int| 0 <= i < j < n.len() ==> (#[trigger] n[i]).start_index <= (#[trigger] n[j]).start_index
    &&& forall|i: int, j: int| 0 <= i < j < n.len() && leaf(#[trigger] n[i]) ==> fin(n[i]) <= (#[trigger] n[j]).start_index
    &&& n[n.len() - 1].start_index == b.len()
}
spec fn wfx(t: InternalTree) -> bool { wf(t.nodes@) && wft(t.nodes@, bts(&*t.code)) }
/// b is the sibling that follows a
spec fn sib(e: Seq<int>, a: int, b: int) -> bool { a < b && exists|p: int| #[trigger] par(e, p, a) && par(e, p, b) && forall|c: int| a < c < b ==> !par(e, p, c) }
/// the k-th child of p
spec fn nth(e: Seq<int>, p: int, k: nat) -> int decreases k { if k == 0 { p + 1 } else { e[nth(e, p, (k - 1) as nat)] } }
spec fn has_nth(e: Seq<int>, p: int, k: nat) -> bool decreases k { 0 <= p < e.len() && p + 1 < e[p] && (k == 0 || has_nth(e, p, (k - 1) as nat)) && nth(e, p, k) < e[p] }

// ---- lemmas
proof fn par_unique(e: Seq<int>, p: int, q: int, c: int) requires par(e, p, c), par(e, q, c) ensures p == q { }
/// the subtree after a child's is the next child
proof fn next_par(n: Seq<InternalNode>, e: Seq<int>, p: int, c: int)
    requires wfe(n, e), par(e, p, c), e[c] < e[p]
    ensures par(e, p, e[c]), sib(e, c, e[c])
{
    assert forall|q: int| p < q < e[c] implies #[trigger] e[q] <= e[c] by {
        if q < c { assert(e[q] <= c); } else if c < q { assert(e[q] <= e[c]); }
    }
    assert forall|d: int| c < d < e[c] implies !par(e, p, d) by { assert(e[c] > d); }
}
proof fn first_par(n: Seq<InternalNode>, e: Seq<int>, p: int) requires wfe(n, e), 0 <= p < n.len(), p + 1 < e[p] ensures par(e, p, p + 1) { }
/// next sibling by offset
proof fn offset_sib(n: Seq<InternalNode>, e: Seq<int>, i: int)
    requires wfe(n, e), 0 <= i < n.len()
    ensures
        n[i].next_node_offset != 0 ==> sib(e, i, i + n[i].next_node_offset),
        n[i].next_node_offset == 0 ==> forall|j: int| !sib(e, i, j),
        forall|j: int| #[trigger] sib(e, i, j) ==> j == e[i] && n[i].next_node_offset == j - i,
{
    if n[i].next_node_offset != 0 {
        assert(i > 0);
        par_exists(n, e, i);
        let p = choose|p: int| par(e, p, i);
        next_par(n, e, p, i);
    }
    assert forall|j: int| #[trigger] sib(e, i, j) implies j == e[i] && n[i].next_node_offset == j - i by {
        let p = choose|p: int| #[trigger] par(e, p, i) && par(e, p, j) && forall|c: int| i < c < j ==> !par(e, p, c);
        assert(par(e, p, j) && p < i < j);
        assert(e[i] <= j);
        if e[i] < j { next_par(n, e, p, i); assert(false); }
        if n[i].next_node_offset == 0 {
            let q = choose|q: int| #[trigger] par(e, q, i) && e[q] == e[i];
            par_unique(e, p, q, i);
        }
    }
    if n[i].next_node_offset == 0 {
        assert forall|j: int| !sib(e, i, j) by { if sib(e, i, j) { assert(n[i].next_node_offset == j - i); } }
    }
}
proof fn sib_range(e: Seq<int>, a: int, b: int) requires sib(e, a, b) ensures 0 <= a < b < e.len() { }
/// every node but the root has a parent
proof fn par_exists(n: Seq<InternalNode>, e: Seq<int>, i: int) requires wfe(n, e), 0 < i < n.len() ensures exists|p: int| par(e, p, i)
{ par_from(n, e, 0, i); }
proof fn par_from(n: Seq<InternalNode>, e: Seq<int>, p: int, i: int)
    requires wfe(n, e), 0 <= p < i < n.len(), i < e[p]
    ensures exists|q: int| par(e, q, i)
    decreases i - p
{
    if exists|q: int| p < q < i && i < #[trigger] e[q] {
        let q = choose|q: int| p < q < i && i < #[trigger] e[q];
        par_from(n, e, q, i);
    } else { assert(par(e, p, i)); }
}
/// a child that is not the first has a predecessor whose offset leads to it
proof fn pred_exists(n: Seq<InternalNode>, e: Seq<int>, x: int, c: int, s: int)
    requires wfe(n, e), par(e, x, s), par(e, x, c), c < s
    ensures exists|y: int| x < y < s && (#[trigger] n[y]).next_node_offset != 0 && y + n[y].next_node_offset == s
    decreases s - c
{
    assert(e[c] <= s);
    if e[c] == s {
        if n[c].next_node_offset == 0 {
            let q = choose|q: int| #[trigger] par(e, q, c) && e[q] == e[c];
            par_unique(e, x, q, c);
            assert(false);
        }
        assert(x < c < s && n[c].next_node_offset != 0);
    } else {
        next_par(n, e, x, c);
        pred_exists(n, e, x, e[c], s);
    }
}

// ---- node types: the generated repr(u16) enums are their discriminants
type NonterminalType = u16;
type TerminalType = u16;
//@file crates/parsa/src/lib.rs macro=__create_node $Tree=PyTree $Node=PyNode $NodeType=PyNodeType $NonterminalType=NonterminalType $TerminalType=TerminalType $crate=parsa
//@tyrw parsa :: ==>
//@tyrw Option < Self :: Item > ==> Option<PyNode<'a>>
//@tyrw Self :: Item ==> PyNode
//@rw $x.iter() ==> vx_it(&$x)
//@rw $x[..$b] ==> *vx_to(&$x, $b)
//@rw vx_into_iter(&*vx_from($x, $a)) ==> vx_it(vx_from($x, $a))
//@rw $x[$a..] ==> *vx_from(&$x, $a)
//@rw $x.get($a..) ==> vx_get_from(&$x, $a)
//@rw str::from_utf8_unchecked(&$c.as_bytes()[$a..$b]) ==> vx_code_slice(&$c, $a, $b)
//@rw $x.skip($n).next() ==> vx_nth($x, $n)
//@rw $x.last() ==> vx_last($x)
//@rw $x.unwrap() ==> vx_unwrap($x)
//@rw $x.expect($s) ==> vx_unwrap($x)
//@rw unreachable!() ==> vx_unreachable()
//@rw panic!($s) ==> vx_panic()
//@struct PyNode #[derive(Clone,Copy)]
//@struct SiblingIterator
//@enum PyNodeType #[derive(Clone,Copy)]

/// what to_internal gives
spec fn internal(t: PyNodeType) -> InternalSquashedType {
    match t {
        PyNodeType::Nonterminal(x) => InternalSquashedType(x),
        PyNodeType::Terminal(x) => InternalSquashedType(x),
        PyNodeType::ErrorNonterminal(x) => InternalSquashedType(x | ERROR_RECOVERY_BIT),
        PyNodeType::ErrorTerminal(x) => InternalSquashedType(x | ERROR_RECOVERY_BIT),
        _ => arbitrary(),
    }
}
spec fn searchable(t: PyNodeType) -> bool { !(t is Keyword) && !(t is ErrorKeyword) }
spec fn among(ts: Seq<PyNodeType>, x: InternalSquashedType) -> bool { exists|k: int| 0 <= k < ts.len() && internal(#[trigger] ts[k]) == x }
impl PyNodeType {
//@fn PyNodeType::to_internal ret=r
    requires searchable(self),
    ensures r == internal(self),
//@end
}
impl<'a> PyNode<'a> {
    spec fn n(&self) -> Seq<InternalNode> { self.internal_tree.nodes@ }
    spec fn e(&self) -> Seq<int> { en(self.n()) }
    spec fn b(&self) -> Seq<u8> { bts(&*self.internal_tree.code) }
    /// the node with this index of a well-formed tree
    spec fn ok(&self) -> bool { wfx(*self.internal_tree) && self.index < self.n().len() && *self.internal_node == self.n()[self.index as int] }
    /// node i of the tree of self
    spec fn is(&self, o: PyNode<'a>, i: int) -> bool { self.ok() && self.internal_tree == o.internal_tree && self.index == i }

//@fn PyNode::new ret=r
    ensures r.internal_tree == internal_tree, r.index == index, r.internal_node == internal_node,
//@end
//@fn PyNode::code_slice ret=r
    requires start <= end <= self.b().len(), bnd(self.b(), start as int), bnd(self.b(), end as int),
    ensures bts(r) == self.b().subrange(start as int, end as int),
//@end
//@fn PyNode::as_code ret=r
    requires self.ok(),
    ensures bts(r) == self.b().subrange(self.internal_node.start_index as int, fin(*self.internal_node)),
//@end
//@fn PyNode::start ret=r
    ensures r == self.internal_node.start_index,
//@end
//@fn PyNode::length ret=r
    ensures r == self.internal_node.length,
//@end
//@fn PyNode::end ret=r
    requires self.ok(),
    ensures r == fin(*self.internal_node),
//@end
//@fn PyNode::is_leaf ret=r
    ensures r == leaf(*self.internal_node),
//@end
//@fn PyNode::prefix_to_previous_leaf ret=r nloops=1
    requires self.ok(),
    ensures bts(r) == self.b().subrange(before(self.n(), self.index as int), self.internal_node.start_index as int),
//@loop 0
    invariant_except_break
        start == 0, before(self.n(), it__0.hi as int) == before(self.n(), self.index as int),
    invariant
        it__0.lo == 0, it__0.hi <= it__0.s@.len() == self.index, it__0.s@ == self.n().subrange(0, self.index as int), self.ok(),
    ensures start == before(self.n(), self.index as int),
    decreases it__0.hi
//@before self.code_slice
    proof { before_ok(self.n(), self.b(), self.index as int); }
//@end
//@fn PyNode::next_sibling ret=r
    requires self.ok(),
    ensures
        r is Some ==> r->0.is(*self, r->0.index as int) && sib(self.e(), self.index as int, r->0.index as int),
        r is None ==> forall|j: int| !sib(self.e(), self.index as int, j),
//@begin
    proof { offset_sib(self.n(), self.e(), self.index as int); }
//@end
//@fn PyNode::previous_sibling ret=r nloops=1
    requires self.ok(),
    ensures
        r is Some ==> r->0.is(*self, r->0.index as int) && sib(self.e(), r->0.index as int, self.index as int),
        r is None ==> forall|j: int| !sib(self.e(), j, self.index as int),
//@loop 0
    invariant
        self.ok(), it__0.lo == 0, it__0.hi + it__0.k == it__0.s@.len() == self.index, it__0.s@ == self.n().subrange(0, self.index as int),
        forall|y: int| it__0.hi <= y < self.index ==> !((#[trigger] self.n()[y]).next_node_offset != 0 && y + self.n()[y].next_node_offset == self.index),
    ensures it__0.hi == 0,
    decreases it__0.hi
//@after let offset
    let ghost x = it__0.hi as int;
    proof {
        assert(*n == self.n()[x]);
        offset_sib(self.n(), self.e(), x);
        if x + self.n()[x].next_node_offset > self.index {
            assert forall|j: int| !sib(self.e(), j, self.index as int) by {
                if sib(self.e(), j, self.index as int) {
                    sib_range(self.e(), j, self.index as int);
                    offset_sib(self.n(), self.e(), j);
                    if j < x { assert(self.e()[x] <= self.e()[j]); }
                }
            }
        }
    }
//@begin
    proof {
        assert forall|j: int| #[trigger] sib(self.e(), j, self.index as int) implies 0 <= j < self.index && self.n()[j].next_node_offset != 0 && j + self.n()[j].next_node_offset == self.index by {
            sib_range(self.e(), j, self.index as int);
            offset_sib(self.n(), self.e(), j);
        }
    }
//@end
//@fn PyNode::parent ret=r nloops=1
    requires self.ok(),
    ensures
        r is Some ==> r->0.is(*self, r->0.index as int) && par(self.e(), r->0.index as int, self.index as int),
        r is None ==> self.index == 0,
//@loop 0
    invariant
        self.ok(), it__0.lo == 0, it__0.hi + it__0.k == it__0.s@.len() == self.index, it__0.s@ == self.n().subrange(0, self.index as int),
        sibling_i <= it__0.k,
        // no node so far contains this one
        forall|y: int| it__0.hi <= y < self.index ==> #[trigger] self.e()[y] <= self.index,
        // the node sibling_i back is on the chain of earlier siblings of this one
        forall|p: int| 0 <= p < self.index - sibling_i ==> (self.index < #[trigger] self.e()[p] <==> self.index - sibling_i < self.e()[p]),
        // and nothing seen so far leads to it
        forall|y: int| it__0.hi <= y < self.index - sibling_i ==> !((#[trigger] self.n()[y]).next_node_offset != 0 && y + self.n()[y].next_node_offset == self.index - sibling_i),
    ensures it__0.hi == 0,
    decreases it__0.hi
//@after let offset
    proof {
        let x = it__0.hi as int; let s = self.index - sibling_i; let nn = self.n(); let e = self.e();
        assert(*n == nn[x]);
        assert(e[s] > s);
        // if x contains this node and its own offset does not say so, then it is right before the chain of siblings
        if e[x] > self.index {
            assert(par(e, x, self.index as int));
            assert(s < e[x]);
            assert(forall|q: int| x < q < s ==> #[trigger] e[q] <= s);
            assert(par(e, x, s));
            if nn[x].next_node_offset == 0 && x + 1 < s {
                first_par(nn, e, x);
                pred_exists(nn, e, x, x + 1, s);
                assert(false);
            }
        }
        if nn[x].next_node_offset == 0 && x + 1 == s && !leaf(nn[x]) { assert(e[x] > s); }
    }
//@end
//@fn PyNode::previous_leaf ret=r nloops=1
    requires self.ok(),
    ensures
        r is Some ==> r->0.is(*self, r->0.index as int) && prev_leaf(self.n(), r->0.index as int, self.index as int),
        r is None ==> no_leaf(self.n(), 0, self.index as int),
//@loop 0
    invariant
        self.ok(), it__0.lo == 0, it__0.hi <= it__0.s@.len() == self.index, it__0.s@ == self.n().subrange(0, self.index as int),
        no_leaf(self.n(), it__0.hi as int, self.index as int),
    ensures it__0.hi == 0,
    decreases it__0.hi
//@end
//@fn PyNode::next_leaf ret=r nloops=1
    requires self.ok(),
    ensures
        r is Some ==> r->0.is(*self, r->0.index as int) && leaf(*r->0.internal_node) && self.index < r->0.index && no_leaf(self.n(), self.index + 1, r->0.index as int),
        r is None ==> no_leaf(self.n(), self.index + 1, self.n().len() as int),
//@loop 0
    invariant
        self.ok(), it__0.lo <= it__0.hi == it__0.s@.len(), it__0.s@ == self.n().subrange(self.index + 1, self.n().len() as int),
        no_leaf(self.n(), self.index + 1, self.index + 1 + it__0.lo),
    ensures it__0.lo == it__0.hi,
    decreases it__0.hi - it__0.lo
//@end
//@fn PyNode::iter_children ret=r
    requires self.ok(),
    ensures
        r.internal_tree == self.internal_tree,
        leaf(*self.internal_node) ==> r.ended,
        !leaf(*self.internal_node) ==> !r.ended && r.next_index == self.index + 1 && par(self.e(), self.index as int, r.next_index as int),
//@end
//@fn PyNode::nth_child ret=r
    requires self.ok(), has_nth(self.e(), self.index as int, index as nat),
    ensures r.is(*self, nth(self.e(), self.index as int, index as nat)), par(self.e(), self.index as int, r.index as int),
//@end
//@fn PyNode::last_leaf_in_subtree ret=r
    requires self.ok(),
    ensures r.is(*self, self.e()[self.index as int] - 1), leaf(*r.internal_node),
    decreases self.n().len() - self.index,
//@end
//@fn PyNode::is_type ret=r
    requires searchable(type_),
    ensures r == (self.internal_node.type_ == internal(type_)),
//@rw $a == $b ==> vx_type_eq($a, $b)
//@end
//@fn PyNode::parent_until ret=r nloops=2
    requires self.ok(), forall|k: int| 0 <= k < types@.len() ==> #[trigger] searchable(types@[k]),
    ensures
        // the closest enclosing node of one of the types
        r is Some ==> r->0.is(*self, r->0.index as int) && r->0.index < self.index && self.index < self.e()[r->0.index as int] && among(types@, r->0.internal_node.type_)
            && forall|q: int| r->0.index < q < self.index && self.index < #[trigger] self.e()[q] ==> !among(types@, self.n()[q].type_),
        r is None ==> forall|q: int| 0 <= q < self.index && self.index < #[trigger] self.e()[q] ==> !among(types@, self.n()[q].type_),
//@loop 0
    invariant
        self.ok(), forall|k: int| 0 <= k < types@.len() ==> #[trigger] searchable(types@[k]),
        node is Some ==> node->0.is(*self, node->0.index as int) && node->0.index < self.index && self.index < self.e()[node->0.index as int]
            && forall|q: int| node->0.index < q < self.index && self.index < #[trigger] self.e()[q] ==> !among(types@, self.n()[q].type_),
        node is None ==> forall|q: int| 0 <= q < self.index && self.index < #[trigger] self.e()[q] ==> !among(types@, self.n()[q].type_),
    ensures node is None,
    decreases (if node is Some { 1 + node->0.index } else { 0int })
//@rw vx_into_iter(types) ==> vx_it(types)
//@loop 1
    invariant
        self.ok(), n.is(*self, n.index as int), node == Some(n), forall|k: int| 0 <= k < types@.len() ==> #[trigger] searchable(types@[k]),
        n.index < self.index, self.index < self.e()[n.index as int],
        forall|q: int| n.index < q < self.index && self.index < #[trigger] self.e()[q] ==> !among(types@, self.n()[q].type_),
        it__1.s == types, it__1.lo <= it__1.hi == types@.len(),
        forall|k: int| 0 <= k < it__1.lo ==> internal(#[trigger] types@[k]) != n.internal_node.type_,
    ensures it__1.lo == it__1.hi,
    decreases it__1.hi - it__1.lo
//@before node = n.parent
    proof {
        assert(!among(types@, n.internal_node.type_));
        // whatever contains this node and is not inside n contains n
        assert(forall|q: int| 0 <= q < n.index && self.index < #[trigger] self.e()[q] ==> n.index < self.e()[q]);
    }
//@begin
    proof { assert(self.index > 0 ==> self.index < self.e()[0]); }
//@end
//@fn PyNode::suffix ret=r nloops=1
    requires self.ok(),
    ensures bts(r) == self.b().subrange(fin(*self.internal_node), after(self.n(), self.index as int, fin(*self.internal_node))),
//@loop 0
    invariant
        self.ok(), it__0.lo <= it__0.hi == it__0.s@.len(), it__0.s@ == self.n().subrange(self.index as int, self.n().len() as int),
        after(self.n(), self.index + it__0.lo, fin(*self.internal_node)) == after(self.n(), self.index as int, fin(*self.internal_node)),
        it__0.lo == it__0.hi ==> self.n()[self.n().len() - 1].start_index < fin(*self.internal_node),
    ensures false,
    decreases it__0.hi - it__0.lo
//@end
}
/// i is the closest leaf before j
spec fn prev_leaf(n: Seq<InternalNode>, i: int, j: int) -> bool { 0 <= i < j <= n.len() && leaf(n[i]) && no_leaf(n, i + 1, j) }
spec fn no_leaf(n: Seq<InternalNode>, a: int, z: int) -> bool { forall|i: int| a <= i < z ==> !leaf(#[trigger] n[i]) }
/// the end of the closest leaf before node i, or the start of the text
spec fn before(n: Seq<InternalNode>, i: int) -> int decreases i { if i <= 0 { 0 } else if leaf(n[i - 1]) { fin(n[i - 1]) } else { before(n, i - 1) } }
proof fn before_ok(n: Seq<InternalNode>, b: Seq<u8>, i: int) requires wft(n, b), 0 <= i < n.len() ensures 0 <= before(n, i) <= n[i].start_index, bnd(b, before(n, i)) decreases i
{ if i > 0 { if !leaf(n[i - 1]) { before_ok(n, b, i - 1); } } }
/// the start of the first node from i on that starts at or after `at`
spec fn after(n: Seq<InternalNode>, i: int, at: int) -> int decreases n.len() - i { if i >= n.len() { at } else if n[i].start_index >= at { n[i].start_index as int } else { after(n, i + 1, at) } }

impl<'a> SiblingIterator<'a> {
    /// stands on a child of p, or is done
    spec fn on(&self, t: &InternalTree, p: int) -> bool { self.internal_tree == t && wfx(*t) && (!self.ended ==> par(en(t.nodes@), p, self.next_index as int)) }
//@fn SiblingIterator:Iterator::next ret=r
    requires wfx(*old(self).internal_tree), !old(self).ended ==> 0 < old(self).next_index < old(self).internal_tree.nodes@.len(),
    ensures
        final(self).internal_tree == old(self).internal_tree,
        old(self).ended ==> r is None && final(self).ended,
        !old(self).ended ==> r is Some && r->0.ok() && r->0.internal_tree == old(self).internal_tree && r->0.index == old(self).next_index,
        // after the last child it ends, otherwise it stands on the next child
        !old(self).ended ==> forall|p: int| #[trigger] par(en(old(self).internal_tree.nodes@), p, old(self).next_index as int) ==>
            (if final(self).ended { en(old(self).internal_tree.nodes@)[old(self).next_index as int] == en(old(self).internal_tree.nodes@)[p] }
             else { final(self).next_index == en(old(self).internal_tree.nodes@)[old(self).next_index as int] && par(en(old(self).internal_tree.nodes@), p, final(self).next_index as int) }),
//@begin
    proof {
        let n = self.internal_tree.nodes@; let e = en(n); let c = self.next_index as int;
        if !self.ended {
            offset_sib(n, e, c);
            assert forall|p: int| #[trigger] par(e, p, c) implies (if n[c].next_node_offset == 0 { e[c] == e[p] } else { e[c] < e[p] && par(e, p, e[c]) }) by {
                if n[c].next_node_offset == 0 {
                    let q = choose|q: int| #[trigger] par(e, q, c) && e[q] == e[c];
                    par_unique(e, p, q, c);
                } else { next_par(n, e, p, c); }
            }
        }
    }
//@end
}

/// skip(k).next(), executed and verified here; only its correspondence with std is assumed
fn vx_nth<'a>(it: SiblingIterator<'a>, k: usize) -> (r: Option<PyNode<'a>>)
    requires wfx(*it.internal_tree), !it.ended, 0 < it.next_index < it.internal_tree.nodes@.len(), par(en(it.internal_tree.nodes@), it.next_index - 1, it.next_index as int),
    ensures has_nth(en(it.internal_tree.nodes@), it.next_index - 1, k as nat) ==>
        r is Some && r->0.ok() && r->0.internal_tree == it.internal_tree && r->0.index == nth(en(it.internal_tree.nodes@), it.next_index - 1, k as nat)
        && par(en(it.internal_tree.nodes@), it.next_index - 1, r->0.index as int),
{
    let ghost e = en(it.internal_tree.nodes@);
    let ghost p = it.next_index - 1;
    let mut it2 = it;
    let mut i = 0;
    while i < k
        invariant i <= k, it2.internal_tree == it.internal_tree, wfx(*it.internal_tree), e == en(it.internal_tree.nodes@),
            has_nth(e, p, i as nat) ==> !it2.ended && it2.next_index == nth(e, p, i as nat) && par(e, p, it2.next_index as int),
            !it2.ended ==> 0 < it2.next_index < it.internal_tree.nodes@.len() && par(e, p, it2.next_index as int),
        decreases k - i
    {
        let ghost o = it2;
        let x = it2.next();
        proof { assert(has_nth(e, p, (i + 1) as nat) ==> has_nth(e, p, i as nat)); if !o.ended { assert(par(e, p, o.next_index as int)); } }
        i = i + 1;
    }
    proof { has_prefix(e, p, k as nat, k as nat); }
    it2.next()
}
proof fn has_prefix(e: Seq<int>, p: int, k: nat, j: nat) requires j <= k ensures has_nth(e, p, k) ==> has_nth(e, p, j) decreases k { if j < k { has_prefix(e, p, (k - 1) as nat, j); } }
/// Iterator::last
fn vx_last<'a>(it: SiblingIterator<'a>) -> (r: Option<PyNode<'a>>)
    requires wfx(*it.internal_tree), !it.ended ==> 0 < it.next_index < it.internal_tree.nodes@.len(),
    ensures
        it.ended ==> r is None,
        !it.ended ==> r is Some && r->0.ok() && r->0.internal_tree == it.internal_tree && r->0.index >= it.next_index
            && forall|p: int| #[trigger] par(en(it.internal_tree.nodes@), p, it.next_index as int) ==> par(en(it.internal_tree.nodes@), p, r->0.index as int) && en(it.internal_tree.nodes@)[r->0.index as int] == en(it.internal_tree.nodes@)[p],
{
    let ghost e = en(it.internal_tree.nodes@);
    let mut it2 = it;
    let mut last: Option<PyNode<'a>> = None;
    if it2.ended { return None; }
    proof { par_exists(it.internal_tree.nodes@, e, it.next_index as int); }
    let ghost p = choose|p: int| par(e, p, it.next_index as int);
    while !it2.ended
        invariant it2.internal_tree == it.internal_tree, wfx(*it.internal_tree), e == en(it.internal_tree.nodes@), par(e, p, it.next_index as int),
            !it2.ended ==> it.next_index <= it2.next_index < it.internal_tree.nodes@.len() && par(e, p, it2.next_index as int),
            it2.ended ==> last is Some && last->0.ok() && last->0.internal_tree == it.internal_tree && last->0.index >= it.next_index && par(e, p, last->0.index as int) && e[last->0.index as int] == e[p],
        decreases (if it2.ended { 0int } else { 1 + it.internal_tree.nodes@.len() - it2.next_index })
    {
        let ghost o = it2;
        last = it2.next();
        proof { assert(par(e, p, o.next_index as int)); }
    }
    proof {
        assert forall|q: int| #[trigger] par(e, q, it.next_index as int) implies par(e, q, last->0.index as int) && e[last->0.index as int] == e[q] by { par_unique(e, p, q, it.next_index as int); }
    }
    last
}
/// iter_children().collect(): exactly the children, in order
fn vx_children<'a>(x: PyNode<'a>) -> (r: Vec<PyNode<'a>>)
    requires x.ok(),
    ensures
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).is(x, r@[k].index as int) && par(x.e(), x.index as int, r@[k].index as int),
        forall|k: int, l: int| 0 <= k < l < r@.len() ==> (#[trigger] r@[k]).index < (#[trigger] r@[l]).index,
        forall|c: int| par(x.e(), x.index as int, c) ==> exists|k: int| 0 <= k < r@.len() && (#[trigger] r@[k]).index == c,
{
    let mut it = x.iter_children();
    let mut r: Vec<PyNode<'a>> = Vec::new();
    let ghost e = x.e();
    let ghost p = x.index as int;
    while !it.ended
        invariant it.on(x.internal_tree, p), x.ok(), e == x.e(), p == x.index,
            !it.ended ==> p < it.next_index < e.len(),
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).is(x, r@[k].index as int) && par(x.e(), x.index as int, r@[k].index as int) && (!it.ended ==> r@[k].index < it.next_index),
            forall|k: int, l: int| 0 <= k < l < r@.len() ==> (#[trigger] r@[k]).index < (#[trigger] r@[l]).index,
            forall|c: int| par(e, p, c) ==> (!it.ended && c >= it.next_index) || exists|k: int| 0 <= k < r@.len() && (#[trigger] r@[k]).index == c,
        decreases (if it.ended { 0int } else { 1 + e.len() - it.next_index })
    {
        let ghost o = it;
        let ghost r0 = r@;
        if let Some(y) = it.next() {
            r.push(y);
            proof {
                let c0 = o.next_index as int;
                assert(par(e, p, c0));
                assert(r@[r@.len() - 1].index == c0);
                assert forall|c: int| par(e, p, c) implies (!it.ended && c >= it.next_index) || exists|k: int| 0 <= k < r@.len() && (#[trigger] r@[k]).index == c by {
                    if c < c0 { let k = choose|k: int| 0 <= k < r0.len() && (#[trigger] r0[k]).index == c; assert(r@[k].index == c); }
                    else if c > c0 { assert(e[c0] <= c); assert(c < e[p]); }
                }
            }
        }
    }
    r
}
//@struct SearchIterator
spec fn hit(n: Seq<InternalNode>, ts: Seq<PyNodeType>, end: u32, i: int) -> bool { among(ts, n[i].type_) && n[i].start_index < end }
impl<'a> SearchIterator<'a> {
    spec fn n(&self) -> Seq<InternalNode> { self.internal_tree.nodes@ }
    spec fn e(&self) -> Seq<int> { en(self.n()) }
    /// What the caller has to see to: searchable types, and no match whose subtree reaches the end of the table while
    /// found subtrees are skipped (only the root's does).
    spec fn ok(&self) -> bool {
        wfx(*self.internal_tree) && self.next_index < self.n().len() && self.end_code_index <= bts(&*self.internal_tree.code).len()
        && (forall|k: int| 0 <= k < self.search_types@.len() ==> #[trigger] searchable(self.search_types@[k]))
        && (self.avoid_found_subtrees ==> forall|i: int| self.next_index <= i < self.n().len() && #[trigger] hit(self.n(), self.search_types@, self.end_code_index, i) ==> self.e()[i] < self.n().len())
    }
//@fn SearchIterator:Iterator::next ret=r nloops=2
    requires old(self).ok(),
    ensures
        final(self).ok(),
        final(self).internal_tree == old(self).internal_tree, final(self).end_code_index == old(self).end_code_index, final(self).search_types == old(self).search_types, final(self).avoid_found_subtrees == old(self).avoid_found_subtrees,
        // the first match from the current position on; the search goes on behind it or behind its subtree
        r is Some ==> r->0.ok() && r->0.internal_tree == old(self).internal_tree && old(self).next_index <= r->0.index && hit(old(self).n(), old(self).search_types@, old(self).end_code_index, r->0.index as int)
            && (forall|i: int| old(self).next_index <= i < r->0.index ==> !#[trigger] hit(old(self).n(), old(self).search_types@, old(self).end_code_index, i))
            && final(self).next_index == (if old(self).avoid_found_subtrees { old(self).e()[r->0.index as int] } else { r->0.index + 1 }),
        r is None ==> forall|i: int| old(self).next_index <= i < old(self).n().len() ==> !#[trigger] hit(old(self).n(), old(self).search_types@, old(self).end_code_index, i),
//@rw vx_into_iter(self.search_types) ==> vx_it(self.search_types)
//@rw $a.to_internal() == $b ==> vx_type_eq($a.to_internal(), $b)
//@loop 0
    invariant
        *self == *old(self), self.ok(),
        it__0.lo <= it__0.hi == it__0.s@.len(), it__0.s@ == self.n().subrange(self.next_index as int, self.n().len() as int),
        forall|i: int| self.next_index <= i < self.next_index + it__0.lo ==> !#[trigger] hit(self.n(), self.search_types@, self.end_code_index, i),
        forall|i: int| self.next_index <= i < self.next_index + it__0.lo ==> (#[trigger] self.n()[i]).start_index < self.end_code_index,
    ensures false,
    decreases it__0.hi - it__0.lo
//@loop 1
    invariant
        *self == *old(self), self.ok(), i == it__0.lo - 1, 0 < it__0.lo <= it__0.s@.len(), it__0.s@ == self.n().subrange(self.next_index as int, self.n().len() as int), *n == self.n()[self.next_index + i],
        n.start_index < self.end_code_index,
        forall|i: int| self.next_index <= i < self.next_index + it__0.lo - 1 ==> !#[trigger] hit(self.n(), self.search_types@, self.end_code_index, i),
        it__1.s == self.search_types, it__1.lo <= it__1.hi == self.search_types@.len(),
        forall|k: int| 0 <= k < it__1.lo ==> internal(#[trigger] self.search_types@[k]) != n.type_,
    ensures it__1.lo == it__1.hi,
    decreases it__1.hi - it__1.lo
//@after let node
    proof {
        let o = *old(self); let j = node.index as int;
        assert(among(o.search_types@, o.n()[j].type_));
        assert(hit(o.n(), o.search_types@, o.end_code_index, j));
        assert(o.n()[j].start_index < o.n()[o.n().len() - 1].start_index);
        assert(j + 1 < o.n().len());
    }
//@end
}
impl<'a> PyNode<'a> {
//@fn PyNode::search ret=r
    requires self.ok(), !leaf(*self.internal_node),
    ensures r.internal_tree == self.internal_tree, r.next_index == self.index, r.end_code_index == fin(*self.internal_node), r.search_types == types, r.avoid_found_subtrees == avoid_found_subtrees,
//@end
}
/// the description of a table is satisfiable: a root with one leaf
proof fn vx_witness(a: InternalNode, b: InternalNode)
    requires !leaf(a), leaf(b), a.next_node_offset == 0, b.next_node_offset == 0, a.start_index == 0, a.length == 0, b.start_index == 0, b.length == 0
    ensures wf(seq![a, b]), wft(seq![a, b], seq![])
{
    let n = seq![a, b]; let e = seq![2int, 2int];
    assert(par(e, 0, 1));
    assert(last_child(e, 1));
    assert(wfe(n, e));
}
/// siblings are inverse steps, and leaf steps too
fn vx_inverse_next<'a>(x: PyNode<'a>) requires x.ok() {
    if let Some(y) = x.next_sibling() {
        let z = y.previous_sibling();
        proof { assert(sib(y.e(), x.index as int, y.index as int)); if z is Some { sib_inj(x.n(), x.e(), z->0.index as int, x.index as int, y.index as int); } }
        assert(z is Some && z->0.index == x.index);
    }
}
fn vx_inverse_previous<'a>(x: PyNode<'a>) requires x.ok() {
    if let Some(y) = x.previous_sibling() {
        let z = y.next_sibling();
        proof { assert(sib(y.e(), y.index as int, x.index as int)); offset_sib(x.n(), x.e(), y.index as int); }
        assert(z is Some && z->0.index == x.index);
    }
}
fn vx_inverse_leaf<'a>(x: PyNode<'a>) requires x.ok(), leaf(*x.internal_node) {
    if let Some(y) = x.next_leaf() { let z = y.previous_leaf(); assert(leaf(x.n()[x.index as int])); assert(z is Some && z->0.index == x.index); }
    if let Some(y) = x.previous_leaf() { let z = y.next_leaf(); assert(leaf(x.n()[x.index as int])); assert(z is Some && z->0.index == x.index); }
}
proof fn sib_inj(n: Seq<InternalNode>, e: Seq<int>, a: int, b: int, c: int) requires wfe(n, e), sib(e, a, c), sib(e, b, c), 0 <= a < n.len(), 0 <= b < n.len() ensures a == b {
    let p = choose|p: int| #[trigger] par(e, p, a) && par(e, p, c) && forall|d: int| a < d < c ==> !par(e, p, d);
    let q = choose|q: int| #[trigger] par(e, q, b) && par(e, q, c) && forall|d: int| b < d < c ==> !par(e, q, d);
    par_unique(e, p, q, c);
}

//@file crates/parsa/src/lib.rs macro=create_grammar $Tree=PyTree $Node=PyNode $NodeType=PyNodeType $NonterminalType=NonterminalType $TerminalType=TerminalType $crate=parsa
//@rw unreachable!($s) ==> vx_unreachable()
//@struct PyTree
/// the leaf the lookup has to return: the last leaf starting at or before the position, the one after it when that
/// leaf ends before the position; the first leaf when none starts early enough
spec fn at_position(n: Seq<InternalNode>, pos: int, r: int) -> bool {
    0 <= r < n.len() && leaf(n[r]) && (
        (exists|l: int| 0 <= l < n.len() && leaf(#[trigger] n[l]) && n[l].start_index <= pos && (forall|m: int| l < m < n.len() && leaf(#[trigger] n[m]) ==> n[m].start_index > pos)
            && (if fin(n[l]) < pos && !no_leaf(n, l + 1, n.len() as int) { l < r && no_leaf(n, l + 1, r) } else { r == l }))
        || ((forall|m: int| 0 <= m < n.len() && leaf(#[trigger] n[m]) ==> n[m].start_index > pos) && no_leaf(n, 0, r)))
}
impl PyTree {
//@fn PyTree::node ret=r
    ensures r.index == index, r.internal_tree == self.internal_tree, r.internal_node == internal_node,
//@end
//@fn PyTree::root_node ret=r
    requires wfx(self.internal_tree),
    ensures r.ok(), r.index == 0, r.internal_tree == self.internal_tree,
//@end
//@fn PyTree::node_by_index ret=r
    requires wfx(self.internal_tree), index < self.internal_tree.nodes@.len(),
    ensures r.ok(), r.index == index, r.internal_tree == self.internal_tree,
//@end
//@fn PyTree::leaf_by_position ret=r nloops=3
    requires wfx(self.internal_tree),
    ensures r.ok(), r.internal_tree == self.internal_tree, at_position(self.internal_tree.nodes@, position as int, r.index as int),
//@loop 0
    invariant c__ <= nodes@.len(), nodes == &self.internal_tree.nodes, forall|i: int| 0 <= i < c__ ==> (#[trigger] nodes@[i]).start_index <= position,
    ensures c__ < nodes@.len() ==> nodes@[c__ as int].start_index > position,
    decreases nodes@.len() - c__
//@after let index
    // the condition splits the table in two, which is what partition_point asks for
    assert(forall|j: int| index <= j < nodes@.len() ==> (#[trigger] nodes@[j]).start_index > position);
//@loop 1
    invariant
        wfx(self.internal_tree), nodes == &self.internal_tree.nodes, it__1.lo == 0, it__1.hi <= it__1.s@.len() == index <= nodes@.len(), it__1.s@ == nodes@.subrange(0, index as int),
        no_leaf(nodes@, it__1.hi as int, index as int),
        forall|i: int| 0 <= i < index ==> (#[trigger] nodes@[i]).start_index <= position,
        forall|j: int| index <= j < nodes@.len() ==> (#[trigger] nodes@[j]).start_index > position,
    ensures no_leaf(nodes@, 0, index as int),
    decreases it__1.hi
//@loop 2
    invariant
        wfx(self.internal_tree), nodes == &self.internal_tree.nodes, it__2.lo <= it__2.hi == it__2.s@.len() == nodes@.len(), it__2.s@ == nodes@,
        no_leaf(nodes@, 0, index as int),
        no_leaf(nodes@, 0, it__2.lo as int),
        forall|j: int| index <= j < nodes@.len() ==> (#[trigger] nodes@[j]).start_index > position,
    ensures false,
    decreases it__2.hi - it__2.lo
//@end
}
}
fn main() {}
