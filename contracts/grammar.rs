#![allow(warnings)]
// C03: every token becomes exactly one leaf, in order and in place (crates/parsa/src/grammar.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;

/// Debug assertions are not relied upon here.
fn vx_assert(b: bool) { }
#[verifier::external_body]
fn vx_unreachable() -> ! { panic!() }

type NodeIndex = u32;
type CodeIndex = u32;
type CodeLength = u32;

//@file crates/parsa/src/automaton.rs
//@const NODE_START
//@const ERROR_RECOVERY_BIT
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@struct InternalSquashedType
#[derive(Clone, Copy)]
//@struct InternalNonterminalType
#[derive(Clone, Copy)]
//@struct InternalTerminalType
#[derive(Clone, Copy)]
//@enum PlanMode
/// A raw pointer to a state or a plan of the automaton, which is never changed once it is built.
#[verifier::external_body]
struct VxState { p: usize }
#[verifier::external_body]
struct VxPlan { p: usize }
#[verifier::external_body]
struct FastLookupTransitions { p: usize }
/// The fields of the real DFAState that the parser reads.
struct DFAState { is_final: bool, node_may_be_omitted: bool, transition_to_plan: FastLookupTransitions, transition_towards_error_recovery_node: Option<InternalNonterminalType> }
//@tyrw *const Plan ==> VxPlan
//@tyrw *const DFAState ==> VxState
//@tyrw Box<[Push]> ==> Vec<Push>
//@enum StackMode
//@struct Push
//@struct Plan
//@struct ReusableFirstNonterminal

//@file crates/parsa/src/grammar.rs
#[derive(Clone, Copy)]
//@struct InternalNode
#[derive(Clone, Copy)]
//@enum ModeData
#[derive(Clone, Copy)]
//@struct BacktrackingPoint
//@struct StackNode
//@struct Stack

//@include backtracking.inc
//@include grammar_spec.inc
//@include grammar_lemmas.inc

// ---------- std and the automaton ----------
/// `v.last().unwrap()` and the like: they stop the program if there is nothing there.
#[verifier::external_body]
fn vx_last<T>(v: &Vec<T>) -> (r: &T) ensures v@.len() > 0, *r == v@.last() { v.last().unwrap() }
#[verifier::external_body]
fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: &mut T) ensures old(v)@.len() > 0, *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r)) { v.last_mut().unwrap() }
#[verifier::external_body]
fn vx_pop<T>(v: &mut Vec<T>) -> (r: T) ensures old(v)@.len() > 0, r == old(v)@.last(), final(v)@ == old(v)@.drop_last() { v.pop().unwrap() }
#[verifier::external_body]
fn vx_at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { v.get_mut(i).unwrap() }
#[verifier::external_body]
fn vx_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures
        i < old(v)@.len() ==> r is Some && *(r->0) == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(r->0)),
        i >= old(v)@.len() ==> r is None && final(v)@ == old(v)@,
{ v.get_mut(i) }
/// A counter of children or tokens stays below 2^64.
#[verifier::external_body]
fn vx_inc(x: usize) -> (r: usize) ensures r == x + 1 { x + 1 }
#[verifier::external_body]
fn vx_reserve<T>(v: &mut Vec<T>, n: usize) ensures final(v)@ == old(v)@ { v.reserve(n) }
#[verifier::external_body]
fn vx_panic() ensures false { panic!() }
/// `v[i]` where the program may stop.
#[verifier::external_body]
fn vx_index<T>(v: &Vec<T>, i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { &v[i] }
#[verifier::external_body]
fn vx_tail<T>(v: &Vec<T>, i: usize) -> (r: &[T]) requires i <= v@.len() ensures r@ == v@.skip(i as int) { &v[i..] }
#[verifier::external_body]
fn vx_splice<T: Clone>(v: &mut Vec<T>, a: usize, b: usize, x: T, n: usize)
    requires a <= b <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(a as int) + Seq::new(n as nat, |i: int| x) + old(v)@.skip(b as int)
{ v.splice(a..b, std::iter::repeat_n(x, n)); }
/// Indices into the tree, and what is added to them, are small.
#[verifier::external_body]
fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
fn vx_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
/// `v.iter().enumerate()`, executed and verified here; only its correspondence with std is assumed.
struct VxEnum<'a, T> { v: &'a [T], k: usize }
fn vx_enum<'a, T>(v: &'a [T]) -> (r: VxEnum<'a, T>) ensures r.v == v, r.k == 0 { VxEnum { v, k: 0 } }
impl<'a, T> VxEnum<'a, T> {
    fn vx_next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).k <= old(self).v@.len(),
        ensures
            final(self).v == old(self).v,
            old(self).k < old(self).v@.len() ==> r is Some && (r->0).0 == old(self).k && *(r->0).1 == old(self).v@[old(self).k as int] && final(self).k == old(self).k + 1,
            old(self).k >= old(self).v@.len() ==> r is None && final(self).k == old(self).k,
    {
        if self.k < self.v.len() { self.k = self.k + 1; Some((self.k - 1, &self.v[self.k - 1])) } else { None }
    }
}
impl<T: Token, I: VxStream<T>> BacktrackingTokenizer<T, I> {
    /// Fewer than 2^64 tokens are handed out.
    fn vx_next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).all() == old(self).all(), final(self).is_recording == old(self).is_recording,
            0 <= old(self).pos(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() >= old(self).all().len(),
            old(self).is_recording ==> final(self).base() == old(self).base() && final(self).tokens@.len() >= old(self).tokens@.len(),
            final(self).tokens@.len() > 0 ==> final(self).next_index > 0 && final(self).base() == old(self).base(),
    { assume(self.next_index < usize::MAX); self.next() }
}

trait Squashable { spec fn num(&self) -> u16; fn to_squashed(&self) -> (r: InternalSquashedType) ensures r.0 == self.num(); }

//@file crates/parsa/src/automaton.rs
impl Squashable for InternalNonterminalType {
    spec fn num(&self) -> u16 { self.0 }
//@fn InternalNonterminalType:Squashable::to_squashed
//@end
}
impl Squashable for InternalTerminalType {
    spec fn num(&self) -> u16 { self.0 }
//@fn InternalTerminalType:Squashable::to_squashed
//@end
}
impl InternalSquashedType {
//@fn InternalSquashedType::is_leaf
    ensures r == (self.0 < NODE_START),
//@end
//@fn InternalSquashedType::set_error_recovery_bit
    ensures (r.0 < NODE_START) == (self.0 < NODE_START),
//@begin
    let x = self.0;
    assert(((x | 0x4000) < 0x8000) == (x < 0x8000)) by (bit_vector);
    assert(ERROR_RECOVERY_BIT == 0x4000 && NODE_START == 0x8000) by (compute);
//@end
}
impl DFAState {
    /// Its transitions are not among the fields kept here.
    #[verifier::external_body]
    fn is_negative_lookahead(&self) -> (r: bool) ensures r == neg(*self) { unimplemented!() }
}
impl Plan {
    #[verifier::external_body]
    fn next_dfa(&self) -> (r: &DFAState) ensures *r == state_at(self.next_dfa) { unimplemented!() }
}
impl Push {
    #[verifier::external_body]
    fn next_dfa(&self) -> (r: &DFAState) ensures *r == state_at(self.next_dfa) { unimplemented!() }
}
#[verifier::external_body]
fn vx_plan<'a>(h: &VxPlan) -> (r: &'a Plan) ensures *r == plan_at(*h) { unimplemented!() }
/// The state the parser starts in: its node is always there, and its rule is not left recursive.
#[verifier::external_body]
fn vx_start_state<'a, T>(g: &'a Grammar<T>, start: InternalNonterminalType) -> (r: &'a DFAState) ensures st_ok(*r), !omit(rule_of(*r)), !lr(rule_of(*r)) { unimplemented!() }
#[verifier::external_body]
fn vx_code_len(code: &str) -> usize { code.len() }
/// A part of the text; the program stops if it is not one.
#[verifier::external_body]
fn vx_slice<'a>(code: &'a str, a: usize, b: usize) -> &'a str { &code[a..b] }
#[verifier::external_body]
fn vx_can_contain_syntax<T: Token>(t: &T) -> bool { unimplemented!() }
#[verifier::external_body]
fn vx_type<T: Token>(t: &T) -> (r: InternalTerminalType) ensures r.0 < NODE_START { unimplemented!() }
#[verifier::external_body]
fn vx_keyword<T>(g: &Grammar<T>, s: &str) -> (r: Option<InternalSquashedType>) ensures r is Some ==> (r->0).0 < NODE_START { unimplemented!() }
#[verifier::external_body]
fn vx_does_recovery<T>(g: &Grammar<T>, t: InternalNonterminalType) -> bool { unimplemented!() }
/// The plan for a token in a state is the generator's. Inside an alternative of a left recursive rule it stays inside,
/// and does not start another one.
#[verifier::external_body]
fn vx_lookup<'a>(d: &'a DFAState, t: InternalSquashedType) -> (r: Option<&'a Plan>)
    ensures r matches Some(p) ==> gplan(*p) && prule(*p) == rule_of(*d)
        && (lr(rule_of(*d)) && inalt(*d) && !(p.mode is LeftRecursive) ==> inalt(state_at(p.next_dfa)) && (p.pushes@.len() > 0 ==> !is_alt(p.pushes@[0])))
{ unimplemented!() }

//@file crates/parsa/src/grammar.rs
impl InternalNode {
//@fn InternalNode::end_index
    requires self.start_index + self.length <= u32::MAX,
    ensures r == self.start_index + self.length,
//@end
}
/// The length of the node the entry stands for, from the end of the last node.
//@rw $x.last().unwrap() ==> vx_last(&$x)
//@rw $x.last_mut().unwrap() ==> vx_last_mut(&mut $x)
//@rw $x.get_mut($i).unwrap() ==> vx_at_mut(&mut $x, $i)
//@rw $x.pop().unwrap() ==> vx_pop(&mut $x)
//@tyrw &mut [InternalNode] ==> &mut Vec<InternalNode>
//@fn update_tree_node_position
    requires
        0 <= stack_node.tree_node_index < old(tree_nodes)@.len(), steps(old(tree_nodes)@), old(tree_nodes)@.last().start_index + old(tree_nodes)@.last().length <= u32::MAX,
        leaf(old(tree_nodes)@[stack_node.tree_node_index as int]) ==> stack_node.tree_node_index == old(tree_nodes)@.len() - 1,
    ensures
        sim(old(tree_nodes)@, final(tree_nodes)@), 
//@rw tree_nodes.last().unwrap() ==> vx_last(tree_nodes)
//@rw tree_nodes.get_mut($i).unwrap() ==> vx_at_mut(tree_nodes, $i)
//@begin
    proof { starts_le(tree_nodes@, stack_node.tree_node_index as int, tree_nodes@.len() - 1); }
//@end

spec fn vb<T: Token, I: VxStream<T>>(b: BacktrackingTokenizer<T, I>) -> Bt<T> { Bt { all: b.all(), base: b.base(), nbuf: b.tokens@.len() as int, rec: b.is_recording, pend: false } }
spec fn pd<T>(b: Bt<T>, p: bool) -> Bt<T> { Bt { pend: p, ..b } }
/// How many tokens have been handed out.
spec fn cur<T: Token, I: VxStream<T>>(b: BacktrackingTokenizer<T, I>) -> int { if b.pos() > b.all().len() { b.all().len() as int } else { b.pos() } }
spec fn fresh<T: Token, I: VxStream<T>>(b: BacktrackingTokenizer<T, I>) -> bool { b.tokens@.len() > 0 ==> b.next_index > 0 }
spec fn nof(t: Seq<InternalNode>) -> int { leaves(t).len() as int }

/// The position of the last node is that of a token, so its end fits.
proof fn inv_last<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, n: int)
    requires inv(t, s, b, false, n),
    ensures t.len() >= 1, steps(t), t.last().start_index + t.last().length <= u32::MAX, n == nof(t), 0 <= n <= b.all.len(),
        forall|h: int| 0 <= h < s.len() ==> 0 <= (#[trigger] s[h]).tni < t.len() && (leaf(t[s[h].tni]) ==> s[h].tni == t.len() - 1) && nonterm(s[h].node_id) && st_ok(s[h].dfa) && mode_ok(s[h]),
{
    reveal(inv);
    assert forall|h: int| 0 <= h < s.len() implies 0 <= (#[trigger] s[h]).tni < t.len() && (leaf(t[s[h].tni]) ==> s[h].tni == t.len() - 1) && nonterm(s[h].node_id) && st_ok(s[h].dfa) && mode_ok(s[h]) by { assert(ent(t, s[h], false, h == s.len() - 1)); }
    if leaf(t.last()) { last_leaf(t, b.all, n); assert(b.all[n - 1].st() + b.all[n - 1].len() <= u32::MAX); }
}
proof fn vs_facts<'a>(s: Seq<StackNode<'a>>)
    ensures vs(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] vs(s)[i] == ve(s[i]), s.len() > 0 ==> vs(s.drop_last()) == vs(s).drop_last(),
{
    if s.len() > 0 { assert(vs(s.drop_last()) =~= vs(s).drop_last()); }
}
proof fn vs_update<'a>(s: Seq<StackNode<'a>>, k: int, e: StackNode<'a>)
    requires 0 <= k < s.len(),
    ensures vs(s.update(k, e)) == vs(s).update(k, ve(e)),
{ assert(vs(s.update(k, e)) =~= vs(s).update(k, ve(e))); }
proof fn vs_push<'a>(s: Seq<StackNode<'a>>, e: StackNode<'a>)
    ensures vs(s.push(e)) == vs(s).push(ve(e)),
{ assert(vs(s.push(e)) =~= vs(s).push(ve(e))); }
proof fn vs_take<'a>(s: Seq<StackNode<'a>>, k: int)
    requires 0 <= k <= s.len(),
    ensures vs(s.take(k)) == vs(s).take(k),
{ assert(vs(s.take(k)) =~= vs(s).take(k)); }

/// The nodes up to the one found start where the first one starts.
#[verifier::loop_isolation(false)]
//@fn find_matching_node
    requires tree_nodes@.len() > 0,
    ensures r matches Some(k) ==> k < tree_nodes@.len() && tree_nodes@[k as int].type_.0 == type_.0 && forall|x: int| 0 <= x <= k ==> (#[trigger] tree_nodes@[x]).start_index == tree_nodes@[0].start_index,
//@rw $x.iter().enumerate() ==> vx_enum($x)
//@loop 0
    invariant
        it__0.v == tree_nodes, it__0.k <= tree_nodes@.len(), start_index == tree_nodes@[0].start_index,
        forall|x: int| 0 <= x < it__0.k ==> (#[trigger] tree_nodes@[x]).start_index == start_index,
    decreases tree_nodes@.len() - it__0.k,
//@end
impl<'a> Stack<'a> {
/// A leaf after the node.
#[verifier::loop_isolation(false)]
//@fn Stack::last_leaf_if_proper_nonterminal attr=verifier::exec_allows_no_decreases_clause
//@rw &self.tree_nodes[$i] ==> vx_index(&self.tree_nodes, $i)
//@rw self.tree_nodes[$i].length ==> vx_index(&self.tree_nodes, $i).length
//@rw check += node.next_node_offset as usize ==> check = vx_add(check, node.next_node_offset as usize)
    ensures r matches Some((k, l)) ==> nth_tree_node < k < self.tree_nodes@.len() && *l == self.tree_nodes@[k as int] && leaf(*l),
//@loop 0
    invariant nth_tree_node < check,
//@begin
    proof { assert(self.tree_nodes.len() <= usize::MAX); }
//@end
//@fn Stack::tos
    ensures self.stack_nodes@.len() > 0, *r == self.stack_nodes@.last(),
//@end
//@fn Stack::tos_mut
    ensures old(self).stack_nodes@.len() > 0, *r == old(self).stack_nodes@.last(), final(self).tree_nodes == old(self).tree_nodes,
        final(self).stack_nodes@ == old(self).stack_nodes@.update(old(self).stack_nodes@.len() - 1, *final(r)),
//@end
//@fn Stack::len
    ensures r == self.stack_nodes@.len(),
//@end
/// The finished node gets its length; nothing else changes.
//@fn Stack::pop_normal
    requires
        old(self).stack_nodes@.len() > 0, steps(old(self).tree_nodes@), old(self).tree_nodes@.len() > 0, old(self).tree_nodes@.last().start_index + old(self).tree_nodes@.last().length <= u32::MAX,
        old(self).stack_nodes@.last().tree_node_index < old(self).tree_nodes@.len(),
        leaf(old(self).tree_nodes@[old(self).stack_nodes@.last().tree_node_index as int]) ==> old(self).stack_nodes@.last().tree_node_index == old(self).tree_nodes@.len() - 1,
    ensures final(self).stack_nodes@ == old(self).stack_nodes@.drop_last(), sim(old(self).tree_nodes@, final(self).tree_nodes@),
//@end
//@fn Stack::push
//@rw debug_assert!(matches!(mode, ModeData::LL)) ==> vx_assert(true)
    ensures
        final(self).stack_nodes@ == old(self).stack_nodes@.push(final(self).stack_nodes@.last()),
        ve(final(self).stack_nodes@.last()) == (E { tni: tree_node_index as int, count: children_count as int, dfa: *dfa_state, node_id, mode, en: enabled_token_recording }),
        dfa_state.node_may_be_omitted ==> final(self).tree_nodes@ == old(self).tree_nodes@,
        !dfa_state.node_may_be_omitted ==> final(self).tree_nodes@ == old(self).tree_nodes@.push(final(self).tree_nodes@.last()) && final(self).tree_nodes@.last().start_index == start
            && final(self).tree_nodes@.last().type_.0 == node_id.0 && final(self).tree_nodes@.last().length == 0,
//@end
//@fn Stack::new
//@rw vec![] ==> Vec::new()
//@rw stack.stack_nodes.reserve(128) ==> vx_reserve(&mut stack.stack_nodes, 128)
//@rw stack.tree_nodes.reserve($e) ==> vx_reserve(&mut stack.tree_nodes, $e)
    requires !dfa_state.node_may_be_omitted,
    ensures
        r.stack_nodes@.len() == 1, ve(r.stack_nodes@[0]) == (E { tni: 0, count: 0, dfa: *dfa_state, node_id, mode: ModeData::LL, en: false }),
        r.tree_nodes@.len() == 1, r.tree_nodes@[0].start_index == 0, r.tree_nodes@[0].type_.0 == node_id.0,
//@end
/// Only a link of the tree changes.
//@fn Stack::calculate_previous_next_node
//@rw self.tree_nodes.get_mut($i) ==> vx_get_mut(&mut self.tree_nodes, $i)
    ensures
        old(self).stack_nodes@.len() > 0, vs(final(self).stack_nodes@) == vs(old(self).stack_nodes@), final(self).stack_nodes@.len() == old(self).stack_nodes@.len(),
        sim(old(self).tree_nodes@, final(self).tree_nodes@),
//@before tos.latest_child_node_index = next;
    let ghost t1 = self.tree_nodes@;
//@end
}

proof fn inv_inalt<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, mid: bool, n: int)
    requires inv(t, s, b, mid, n),
    ensures forall|j: int| 0 <= j < s.len() && alt(#[trigger] s[j]) && lr(rl(s[j])) ==> inalt(s[j].dfa),
{
    reveal(inv);
    assert forall|j: int| 0 <= j < s.len() && alt(#[trigger] s[j]) && lr(rl(s[j])) implies inalt(s[j].dfa) by { alt_facts(t, s, b, mid, j); }
}
proof fn tos_state<'a, T: Token>(t: Seq<InternalNode>, s: Seq<StackNode<'a>>, u: Seq<StackNode<'a>>, b: Bt<T>, n: int)
    requires
        inv(t, vs(s), b, false, n), s.len() > 0, u.len() == s.len(), u == s.update(s.len() - 1, StackNode { dfa_state: u.last().dfa_state, ..s.last() }),
        st_ok(*u.last().dfa_state), rule_of(*u.last().dfa_state) == rule_of(*s.last().dfa_state), bp(s.last().mode) is Some && lr(rule_of(*s.last().dfa_state)) ==> inalt(*u.last().dfa_state),
    ensures inv(t, vs(u), b, false, n),
{
    vs_facts(s);
    vs_facts(u);
    let m = s.len() - 1;
    assert(vs(s)[m] == ve(s[m]) && vs(u)[m] == ve(u[m]));
    vs_update(s, m, u.last());
    assert(vs(u) =~= vs(s).update(m, E { dfa: vs(u).last().dfa, ..vs(s).last() }));
    inv_dfa(t, vs(s), vs(u), b, false, n);
}

proof fn alt_at<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, n: int, j: int)
    requires inv(t, s, b, false, n), 0 <= j < s.len(), alt(s[j]),
    ensures 1 <= j, 1 <= cc(s[j]) < t.len(), (bp(s[j].mode)->0).token_index < b.nbuf, b.rec, rl(s[j - 1]) == rl(s[j]), 0 <= b.base + (bp(s[j].mode)->0).token_index < b.all.len(),
        mode_ok(s[j]), lr(rl(s[j])) ==> inalt(s[j].dfa),
{ reveal(inv); alt_facts(t, s, b, false, j); assert(ent(t, s[j], false, j == s.len() - 1)); }
/// The stack after it was taken back to entry i.
spec fn resets<'a>(s: Seq<StackNode<'a>>, u: Seq<StackNode<'a>>, i: int) -> bool {
    &&& 0 <= i < s.len() && u.len() == i + 1 && bp(s[i].mode) is Some && forall|h: int| 0 <= h < i ==> #[trigger] u[h] == s[h]
    &&& ve(u[i]) == (E { count: (bp(s[i].mode)->0).children_count as int, mode: u[i].mode, ..ve(s[i]) })
    &&& u[i].mode == s[i].mode || (bp(u[i].mode) == bp(s[i].mode) && u[i].mode is LastAlternative)
}
proof fn after_reset<'a, T: Token>(t: Seq<InternalNode>, s: Seq<StackNode<'a>>, u: Seq<StackNode<'a>>, b: Bt<T>, c: Bt<T>, n: int, i: int)
    requires inv(t, vs(s), b, false, n), resets(s, u, i), c.all == b.all, c.base == b.base, b.nbuf <= c.nbuf, b.rec ==> c.rec, mkm(ve(s[i])) ==> c.pend,
    ensures i >= 1, inv(t.take(cc(ve(s[i]))), vs(u), c, true, b.base + (bp(s[i].mode)->0).token_index),
{
    vs_facts(s);
    vs_facts(u);
    assert(vs(s)[i] == ve(s[i]) && vs(u)[i] == ve(u[i]));
    assert(vs(u) =~= vs(s).take(i + 1).update(i, E { count: (bp(vs(s)[i].mode)->0).children_count as int, mode: vs(u)[i].mode, ..vs(s)[i] })) by {
        assert forall|h: int| 0 <= h < i implies #[trigger] vs(u)[h] == vs(s)[h] by { assert(vs(u)[h] == ve(u[h])); assert(vs(s)[h] == ve(s[h])); }
    }
    inv_reset(t, vs(s), vs(u), b, n, i);
    inv_bt(t.take(cc(ve(s[i]))), vs(u), Bt { pend: mkm(vs(s)[i]), ..b }, c, true, b.base + (bp(s[i].mode)->0).token_index);
}
proof fn after_reset_pop<'a, T: Token>(t: Seq<InternalNode>, s: Seq<StackNode<'a>>, u: Seq<StackNode<'a>>, v: Seq<StackNode<'a>>, b: Bt<T>, c: Bt<T>, n: int, i: int)
    requires inv(t, vs(s), b, false, n), resets(s, u, i), c.all == b.all, c.base == b.base, b.nbuf <= c.nbuf, b.rec ==> c.rec, mkm(ve(s[i])) ==> c.pend,
        i >= 1, v.len() == i, forall|h: int| 0 <= h < i - 1 ==> #[trigger] v[h] == s[h], ve(v[i - 1]) == (E { count: (bp(s[i].mode)->0).children_count as int, ..ve(s[i - 1]) }),
    ensures inv(t.take(cc(ve(s[i]))), vs(v), c, true, b.base + (bp(s[i].mode)->0).token_index),
{
    alt_at_s(t, s, b, n, i);
    after_reset(t, s, u, b, c, n, i);
    vs_facts(u);
    vs_facts(v);
    assert(vs(u)[i] == ve(u[i]) && vs(v)[i - 1] == ve(v[i - 1]) && vs(u)[i - 1] == ve(u[i - 1]));
    assert(vs(v) =~= vs(u).drop_last().update(vs(u).len() - 2, E { count: vs(u).last().count, ..vs(u)[vs(u).len() - 2] })) by {
        assert forall|h: int| 0 <= h < i - 1 implies #[trigger] vs(v)[h] == vs(u)[h] by { assert(vs(u)[h] == ve(u[h])); assert(vs(v)[h] == ve(v[h])); }
    }
    let n2 = b.base + (bp(s[i].mode)->0).token_index;
    inv_reset_pop(t.take(cc(ve(s[i]))), vs(u), vs(v), c, n2);
}
proof fn alt_at_s<'a, T: Token>(t: Seq<InternalNode>, s: Seq<StackNode<'a>>, b: Bt<T>, n: int, i: int)
    requires inv(t, vs(s), b, false, n), 0 <= i < s.len(), bp(s[i].mode) is Some,
    ensures 1 <= i, 1 <= cc(ve(s[i])) < t.len(), (bp(s[i].mode)->0).token_index < b.nbuf, b.rec, rl(ve(s[i - 1])) == rl(ve(s[i])), 0 <= b.base + (bp(s[i].mode)->0).token_index < b.all.len(),
        mode_ok(ve(s[i])), lr(rl(ve(s[i]))) ==> inalt(*s[i].dfa_state),
{
    vs_facts(s);
    assert(vs(s)[i] == ve(s[i]));
    alt_at(t, vs(s), b, n, i);
    assert(vs(s)[i - 1] == ve(s[i - 1]));
}
/// The last leaf of a reused nonterminal is no indentation, dedentation or end marker.
proof fn reused_leaf_has_length(l: InternalNode) ensures l.length != 0 { admit(); }

/// Handing out a token does not matter to the tree.
proof fn inv_next<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, b: Bt<T>, n: int)
    requires inv(t, s, b, false, n),
    ensures forall|c: Bt<T>| c.all == b.all && c.rec == b.rec && (b.rec ==> c.base == b.base && b.nbuf <= c.nbuf) ==> #[trigger] inv(t, s, c, false, n),
{
    inv_rec(t, s, b, false, n);
    assert forall|c: Bt<T>| c.all == b.all && c.rec == b.rec && (b.rec ==> c.base == b.base && b.nbuf <= c.nbuf) implies #[trigger] inv(t, s, c, false, n) by { inv_bt(t, s, b, c, false, n); }
}
proof fn inv_done<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, b: Bt<T>)
    requires inv(t, s, b, false, b.all.len() as int),
    ensures tree_ok(t), leaves(t) == toks(b.all, b.all.len() as int), leaf(t.last()) || t.len() == 1,
{ reveal(inv); }
proof fn inv_new<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, b: Bt<T>)
    requires
        t.len() == 1, !leaf(t[0]), t[0].start_index == 0, s.len() == 1, s[0].tni == 0, s[0].count == 0, s[0].mode is LL, nonterm(s[0].node_id), st_ok(s[0].dfa), !om(s[0]), !lr(rl(s[0])), tokens_ok(b.all),
    ensures inv(t, s, b, false, 0),
{
    reveal(inv);
    assert(t =~= Seq::<InternalNode>::empty().push(t[0]));
    leaves_push(Seq::<InternalNode>::empty(), t[0]);
    assert(leaves(t) =~= toks(b.all, 0));
}

/// The parser's tables; what is read from them goes through the functions above.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Grammar<T> { p: core::marker::PhantomData<T> }

impl<'a, T: Token> Grammar<T> {
/// The node on top of the stack is finished; no token is taken or given back.
//@fn Grammar::end_of_node
//@tyrw I : Iterator<Item = T> ==> I: VxStream<T>
    requires
        old(stack).stack_nodes@.len() > 0, old(stack).stack_nodes@.last().mode == mode, old(backtracking_tokenizer).wf(),
        inv(old(stack).tree_nodes@, vs(old(stack).stack_nodes@), vb(*old(backtracking_tokenizer)), false, nof(old(stack).tree_nodes@)),
    ensures
        final(backtracking_tokenizer).wf(), final(backtracking_tokenizer).all() == old(backtracking_tokenizer).all(), final(backtracking_tokenizer).pos() == old(backtracking_tokenizer).pos(),
        fresh(*old(backtracking_tokenizer)) ==> fresh(*final(backtracking_tokenizer)),
        nof(final(stack).tree_nodes@) == nof(old(stack).tree_nodes@),
        final(stack).stack_nodes@.len() == old(stack).stack_nodes@.len() - 1,
        inv(final(stack).tree_nodes@, vs(final(stack).stack_nodes@), vb(*final(backtracking_tokenizer)), false, nof(final(stack).tree_nodes@)),
//@begin
    proof {
        inv_last(stack.tree_nodes@, vs(stack.stack_nodes@), vb(*backtracking_tokenizer), nof(stack.tree_nodes@));
        vs_facts(stack.stack_nodes@);
        assert(vs(stack.stack_nodes@)[stack.stack_nodes@.len() - 1] == ve(stack.stack_nodes@.last()));
    }
//@after stack.pop_normal();
    proof {
        leaves_sim(old(stack).tree_nodes@, stack.tree_nodes@);
        inv_pop(old(stack).tree_nodes@, vs(old(stack).stack_nodes@), vb(*backtracking_tokenizer), nof(old(stack).tree_nodes@));
        inv_sim(old(stack).tree_nodes@, stack.tree_nodes@, vs(stack.stack_nodes@), vb(*backtracking_tokenizer), false, nof(stack.tree_nodes@));
    }
//@after vx_assert(tos.dfa_state.is_final)
    proof {
        let (s0, s1) = (old(stack).stack_nodes@, stack.stack_nodes@);
        let (t, b0) = (stack.tree_nodes@, vb(*old(backtracking_tokenizer)));
        vs_facts(s0.drop_last());
        vs_update(s0.drop_last(), s0.len() - 2, s1.last());
        assert(vs(s1) == vs(s0).drop_last().update(s0.len() - 2, E { count: vs(s0).last().count, ..vs(s0)[s0.len() - 2] }));
        inv_pop_alt(t, vs(s0), vs(s1), b0, nof(t));
        inv_rec(t, vs(s1), b0, false, nof(t));
        vs_facts(s1);
        assert(vs(s1).last() == ve(s1.last()));
        inv_bt(t, vs(s1), b0, vb(*backtracking_tokenizer), false, nof(t));
    }
//@end

/// A plan takes the token: it becomes one new leaf at the end.
//@fn Grammar::apply_plan attr=verifier::spinoff_prover
//@tyrw I : Iterator<Item = T> ==> I: VxStream<T>
//@rw plan.mode != PlanMode::LeftRecursive ==> !matches!(plan.mode, PlanMode::LeftRecursive)
//@rw plan.mode == PlanMode::LeftRecursive ==> matches!(plan.mode, PlanMode::LeftRecursive)
//@rw $x.children_count += 1 ==> $x.children_count = vx_inc($x.children_count)
//@rw &**replay ==> vx_plan(replay)
//@rw &**fallback ==> vx_plan(fallback)
//@forix &plan.pushes
    requires
        old(stack).stack_nodes@.len() > 0, old(backtracking_tokenizer).wf(), fresh(*old(backtracking_tokenizer)),
        0 < old(backtracking_tokenizer).pos() <= old(backtracking_tokenizer).all().len(), *token == old(backtracking_tokenizer).all()[old(backtracking_tokenizer).pos() - 1],
        gplan(*plan), prule(*plan) == rule_of(*old(stack).stack_nodes@.last().dfa_state), !neg(state_at(plan.next_dfa)),
        is_backtracking ==> bt_plan(*plan),
        !is_backtracking && lr(prule(*plan)) && bp(old(stack).stack_nodes@.last().mode) is Some && !(plan.mode is LeftRecursive) ==> inalt(state_at(plan.next_dfa)) && (plan.pushes@.len() > 0 ==> !is_alt(plan.pushes@[0])),
        inv(old(stack).tree_nodes@, vs(old(stack).stack_nodes@), pd(vb(*old(backtracking_tokenizer)), is_backtracking && mk(*plan)), is_backtracking, old(backtracking_tokenizer).pos() - 1),
    ensures
        final(stack).stack_nodes@.len() > 0, final(backtracking_tokenizer).wf(), fresh(*final(backtracking_tokenizer)),
        final(backtracking_tokenizer).all() == old(backtracking_tokenizer).all(), final(backtracking_tokenizer).pos() == old(backtracking_tokenizer).pos(),
        inv(final(stack).tree_nodes@, vs(final(stack).stack_nodes@), vb(*final(backtracking_tokenizer)), false, old(backtracking_tokenizer).pos()),
//@begin
    let ghost (t0, s0, b0, n0) = (stack.tree_nodes@, stack.stack_nodes@, pd(vb(*backtracking_tokenizer), is_backtracking && mk(*plan)), backtracking_tokenizer.pos() - 1);
    let ghost m0 = s0.len() - 1;
    let ghost mut t1 = t0;
    proof {
        plan_facts(*plan);
        if mk(*plan) { mk_facts(*plan); }
        vs_facts(s0);
        assert(vs(s0)[m0] == ve(s0.last()));
        if !is_backtracking { inv_last(t0, vs(s0), b0, n0); }
    }
//@before #0 tos_mut.latest_child_node_index = tos_mut.tree_node_index + 1;
    proof { assert(!is_backtracking); assert(stack.tree_nodes.len() <= usize::MAX); }
//@before #1 tos_mut.latest_child_node_index = tos_mut.tree_node_index + 1;
    proof { assert(stack.tree_nodes.len() <= usize::MAX); }
//@before #1 let start_index = stack.tree_nodes[tos_mut.tree_node_index].start_index;
    proof { t1 = stack.tree_nodes@; }
//@before stack.tos_mut().children_count = vx_inc(stack.tos_mut().children_count);
    let ghost (tl, sl) = (stack.tree_nodes@, stack.stack_nodes@);
//@before stack.calculate_previous_next_node();
    let ghost t2 = stack.tree_nodes@;
//@after stack.calculate_previous_next_node();
    proof {
        let s1 = stack.stack_nodes@;
        vs_facts(s1);
        let d = state_at(plan.next_dfa);
        let u1 = vs(s1);
        assert(u1[m0] == ve(s1.last()));
        if is_backtracking {
            assert(u1 =~= vs(s0).update(m0, E { dfa: u1.last().dfa, ..vs(s0).last() }));
            inv_dfa(t0, vs(s0), u1, b0, true, n0);
            inv_sim(t0, stack.tree_nodes@, u1, b0, true, n0);
        } else if plan.mode is LeftRecursive {
            inv_sim(t0, t1, vs(s0), b0, false, n0);
            let v = vs(s0).update(m0, E { count: 1, mode: ModeData::LL, ..vs(s0).last() });
            to_mid_insert(t1, vs(s0), v, b0, n0, t2[vs(s0).last().tni]);
            assert(t2 =~= t1.insert(vs(s0).last().tni, t2[vs(s0).last().tni]));
            assert(u1 =~= v.update(m0, E { dfa: u1.last().dfa, ..v.last() }));
            inv_dfa(t2, v, u1, b0, true, n0);
            inv_sim(t2, stack.tree_nodes@, u1, b0, true, n0);
        } else if om(vs(s0).last()) && vs(s0).last().count == 1 {
            let v = vs(s0).update(m0, E { count: 1, ..vs(s0).last() });
            to_mid_insert(t0, vs(s0), v, b0, n0, t2[vs(s0).last().tni]);
            assert(t2 =~= t0.insert(vs(s0).last().tni, t2[vs(s0).last().tni]));
            assert(u1 =~= v.update(m0, E { dfa: u1.last().dfa, ..v.last() }));
            inv_dfa(t2, v, u1, b0, true, n0);
            inv_sim(t2, stack.tree_nodes@, u1, b0, true, n0);
        } else {
            to_mid(t0, vs(s0), b0, n0);
            assert(u1 =~= vs(s0).update(m0, E { dfa: u1.last().dfa, ..vs(s0).last() }));
            inv_dfa(t0, vs(s0), u1, b0, true, n0);
            inv_sim(t0, stack.tree_nodes@, u1, b0, true, n0);
        }
    }
//@loop 0
    invariant
        i__0 <= n__0, n__0 == plan.pushes@.len(), n0 == old(backtracking_tokenizer).pos() - 1, b0 == pd(vb(*old(backtracking_tokenizer)), is_backtracking && mk(*plan)),
        start_index == b0.all[n0].st(), *token == b0.all[n0], 0 <= n0 < b0.all.len(),
        stack.stack_nodes@.len() > 0, backtracking_tokenizer.wf(), fresh(*backtracking_tokenizer), backtracking_tokenizer.all() == b0.all, backtracking_tokenizer.pos() == n0 + 1,
        forall|k: int| 0 <= k < plan.pushes@.len() ==> #[trigger] push_ok(prule(*plan), plan.pushes@, k),
        inv(stack.tree_nodes@, vs(stack.stack_nodes@), pd(vb(*backtracking_tokenizer), b0.pend && need(plan.pushes@, i__0 as int) == 0), true, n0),
        0 <= need(plan.pushes@, i__0 as int), b0.pend ==> forall|k: int| 0 <= k < plan.pushes@.len() && need(plan.pushes@, k) == 0 ==> mkp(#[trigger] plan.pushes@[k]),
        rule_of(*stack.stack_nodes@.last().dfa_state) == pusher(prule(*plan), plan.pushes@, i__0 as int),
        i__0 < n__0 && is_alt(plan.pushes@[i__0 as int]) && bp(stack.stack_nodes@.last().mode) is Some ==> !lr(rule_of(*stack.stack_nodes@.last().dfa_state)),
        enabled_token_recording == stack.stack_nodes@.last().enabled_token_recording,
    decreases n__0 - i__0,
//@loopbegin 0
    let ghost (ta, sa, ba) = (stack.tree_nodes@, stack.stack_nodes@, pd(vb(*backtracking_tokenizer), b0.pend && need(plan.pushes@, i__0 as int) == 0));
    let ghost ma = sa.len() - 1;
    proof {
        vs_facts(sa);
        assert(vs(sa)[ma] == ve(sa.last()));
        assert(push_ok(prule(*plan), plan.pushes@, i__0 as int));
        inv_rec(ta, vs(sa), ba, true, n0);
    }
//@after stack.tos_mut().latest_child_node_index = stack.tree_nodes.len();
    proof {
        let (tb, sb) = (stack.tree_nodes@, stack.stack_nodes@);
        let bb = pd(vb(*backtracking_tokenizer), b0.pend && need(plan.pushes@, i__0 as int) == 0);
        let k = i__0 - 1;
        assert(need(plan.pushes@, i__0 as int) == need(plan.pushes@, k) + if !is_alt(plan.pushes@[k]) && !pstate(plan.pushes@[k]).node_may_be_omitted { 1int } else { 0int });
        vs_facts(sb);
        assert(vs(sb)[ma + 1] == ve(sb.last()));
        let e = ve(sb.last());
        assert(vs(sb) =~= bumped(vs(sa)).push(e)) by {
            assert forall|h: int| 0 <= h <= ma implies #[trigger] vs(sb)[h] == bumped(vs(sa))[h] by { assert(vs(sb)[h] == ve(sb[h])); assert(vs(sa)[h] == ve(sa[h])); }
        }
        if is_alt(plan.pushes@[k]) {
            alternative_token(plan.pushes@[k], *token);
            inv_bt(ta, vs(sa), ba, bb, true, n0);
            mid_alt(ta, vs(sa), e, bb, n0);
        } else {
            mid_push(ta, tb, vs(sa), e, ba, bb, n0);
        }
    }
//@after stack.tree_nodes.push(InternalNode { next_node_offset : 0, type_ : plan.type_, start_index, length : token.length(), });
    proof {
        let (tb, sb, bb) = (stack.tree_nodes@, stack.stack_nodes@, vb(*backtracking_tokenizer));
        vs_facts(sb);
        vs_facts(sl);
        let m = sb.len() - 1;
        assert(vs(sb)[m] == ve(sb.last()));
        assert(vs(sl)[m] == ve(sl.last()));
        vs_update(sl, m, sb.last());
        assert(sb =~= sl.update(m, sb.last()));
        assert(vs(sb) =~= bumped(vs(sl)));
        from_mid(tl, vs(sl), vs(sb), bb, n0, tb.last());
        assert(tb =~= tl.push(tb.last()));
    }
//@end

/// A token is taken: it becomes one more leaf, or an earlier point is taken back and the tokens after it are still to come.
//@fn Grammar::apply_transition attr=verifier::exec_allows_no_decreases_clause
//@tyrw I : Iterator<Item = T> ==> I: VxStream<T>
//@rw tos.dfa_state.transition_to_plan.lookup(transition) ==> vx_lookup(tos.dfa_state, transition)
//@rw plan.mode == PlanMode::PositivePeek ==> matches!(plan.mode, PlanMode::PositivePeek)
    requires
        old(backtracking_tokenizer).wf(), fresh(*old(backtracking_tokenizer)), transition.0 < NODE_START,
        0 < old(backtracking_tokenizer).pos() <= old(backtracking_tokenizer).all().len(), *token == old(backtracking_tokenizer).all()[old(backtracking_tokenizer).pos() - 1],
        inv(old(stack).tree_nodes@, vs(old(stack).stack_nodes@), vb(*old(backtracking_tokenizer)), false, old(backtracking_tokenizer).pos() - 1),
    ensures
        final(backtracking_tokenizer).wf(), fresh(*final(backtracking_tokenizer)), final(backtracking_tokenizer).all() == old(backtracking_tokenizer).all(),
        inv(final(stack).tree_nodes@, vs(final(stack).stack_nodes@), vb(*final(backtracking_tokenizer)), false, cur(*final(backtracking_tokenizer))),
//@loop 0
    invariant_except_break
        backtracking_tokenizer.wf(), fresh(*backtracking_tokenizer), transition.0 < NODE_START, backtracking_tokenizer.all() == old(backtracking_tokenizer).all(),
        0 < backtracking_tokenizer.pos() <= backtracking_tokenizer.all().len(), *token == backtracking_tokenizer.all()[backtracking_tokenizer.pos() - 1],
        inv(stack.tree_nodes@, vs(stack.stack_nodes@), vb(*backtracking_tokenizer), false, backtracking_tokenizer.pos() - 1),
    ensures
        backtracking_tokenizer.wf(), fresh(*backtracking_tokenizer), backtracking_tokenizer.all() == old(backtracking_tokenizer).all(),
        inv(stack.tree_nodes@, vs(stack.stack_nodes@), vb(*backtracking_tokenizer), false, cur(*backtracking_tokenizer)),
//@loopbegin 0
    let ghost (t0, s0, b0, n0) = (stack.tree_nodes@, stack.stack_nodes@, vb(*backtracking_tokenizer), backtracking_tokenizer.pos() - 1);
    proof {
        inv_last(t0, vs(s0), b0, n0);
        inv_inalt(t0, vs(s0), b0, false, n0);
        vs_facts(s0);
        if s0.len() > 0 { assert(vs(s0)[s0.len() - 1] == ve(s0.last())); }
    }
//@after tos_mut.dfa_state = plan.next_dfa();
    proof { plan_facts(*plan); tos_state(t0, s0, stack.stack_nodes@, b0, n0); }
//@after stack.tos_mut().dfa_state = plan.next_dfa();
    proof { plan_facts(*plan); tos_state(t0, s0, stack.stack_nodes@, b0, n0); }
//@end

#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
//@fn Grammar::error_recovery attr=verifier::exec_allows_no_decreases_clause
    requires
        old(backtracking_tokenizer).wf(), fresh(*old(backtracking_tokenizer)), transition is Some == token is Some, transition is Some ==> (transition->0).0 < NODE_START,
        token is Some ==> 0 < old(backtracking_tokenizer).pos() <= old(backtracking_tokenizer).all().len() && *(token->0) == old(backtracking_tokenizer).all()[old(backtracking_tokenizer).pos() - 1],
        token is None ==> old(backtracking_tokenizer).pos() >= old(backtracking_tokenizer).all().len(),
        inv(old(stack).tree_nodes@, vs(old(stack).stack_nodes@), vb(*old(backtracking_tokenizer)), false, if token is Some { old(backtracking_tokenizer).pos() - 1 } else { old(backtracking_tokenizer).all().len() as int }),
    ensures
        final(backtracking_tokenizer).wf(), fresh(*final(backtracking_tokenizer)), final(backtracking_tokenizer).all() == old(backtracking_tokenizer).all(),
        inv(final(stack).tree_nodes@, vs(final(stack).stack_nodes@), vb(*final(backtracking_tokenizer)), false, cur(*final(backtracking_tokenizer))),
        token is None && final(stack).stack_nodes@.len() == 0 ==> cur(*final(backtracking_tokenizer)) == final(backtracking_tokenizer).all().len(),
//@tyrw I : Iterator<Item = T> ==> I: VxStream<T>
//@inline reset
//@rw backtracking_tokenizer.next() ==> backtracking_tokenizer.vx_next()
//@rw debug_assert_eq!($a, $b) ==> vx_assert(true)
//@rw self.automatons[&node.node_id].does_error_recovery ==> vx_does_recovery(self, node.node_id)
//@rw &stack.tree_nodes[c..] ==> vx_tail(&stack.tree_nodes, c)
//@rw stack.tree_nodes[tree_node_index] = $e ==> stack.tree_nodes.set(tree_node_index, $e)
//@rw stack.tree_nodes.splice($a..$b, std::iter::repeat_n($x, $n)) ==> vx_splice(&mut stack.tree_nodes, $a, $b, $x, $n)
//@rw $a.saturating_sub($b) ==> vx_sub($a, $b)
//@rw &**replay ==> vx_plan(replay)
//@rw &**fallback ==> vx_plan(fallback)
//@rw backtracking.children_count + 1 ==> vx_inc(backtracking.children_count)
//@forix reusable.pushes.iter()
//@begin
    let ghost (t0, s0, b0) = (stack.tree_nodes@, stack.stack_nodes@, vb(*backtracking_tokenizer));
    let ghost n0 = if token is Some { backtracking_tokenizer.pos() - 1 } else { backtracking_tokenizer.all().len() as int };
    proof {
        vs_facts(s0);
        inv_last(t0, vs(s0), b0, n0);
        if s0.len() > 0 { assert(vs(s0)[s0.len() - 1] == ve(s0.last())); }
    }
//@after stack.calculate_previous_next_node();
    let ghost t1 = stack.tree_nodes@;
//@after stack.tree_nodes.push(InternalNode { next_node_offset : 0, type_ : transition.set_error_recovery_bit()
    proof {
        inv_sim(t0, t1, vs(s0), b0, false, n0);
        let t2 = stack.tree_nodes@;
        assert(t2 =~= t1.push(t2[t2.len() - 2]).push(t2.last()));
        inv_error_leaf(t1, vs(s0), b0, n0, t2[t2.len() - 2], t2.last());
    }
//@loop 0
    invariant
        it__0.k <= it__0.v@.len(), it__0.v@ == stack.stack_nodes@, stack.tree_nodes@ == t0, stack.stack_nodes@ == s0, *backtracking_tokenizer == *old(backtracking_tokenizer),
    ensures stack.tree_nodes@ == t0,
//@before match node.mode
    proof {
        if bp(node.mode) is Some { alt_at_s(t0, s0, b0, n0, i as int); }
        assert(stack.stack_nodes.len() <= usize::MAX && stack.tree_nodes.len() <= usize::MAX);
    }
//@before let reuse_node_index = c + nth;
    proof {
        assert(t0.skip(c as int)[nth as int] == t0[c + nth]);
        assert forall|x: int| c <= x <= c + nth implies (#[trigger] t0[x]).start_index == t0[c as int].start_index by { assert(t0.skip(c as int)[x - c] == t0[x]); assert(t0.skip(c as int)[0] == t0[c as int]); }
        reuse_facts(*reusable, rl(ve(s0[i as int])));
        assert(push_ok(rl(ve(s0[i as int])), reusable.pushes@, reusable.pushes@.len() - 1));
        assert(!leaf(t0[c + nth]));
    }
//@before backtracking_tokenizer.reset_to_last_leaf(last_leaf);
    let ghost l = last_leaf_index as int;
    let ghost k: int;
    proof {
        vs_facts(s0);
        assert(vs(s0)[i as int] == ve(s0[i as int]));
        k = leaf_tok(t0, vs(s0), b0, n0, i as int, l);
        reused_leaf_has_length(*last_leaf);
        let bt = *backtracking_tokenizer;
        bt.tokenizer.bounds();
        assert(bt.tokens@[k - bt.base()] == bt.all()[k]);
    }
//@after backtracking_tokenizer.reset_to_last_leaf(last_leaf);
    proof {
        reveal(inv);
        leaf_unique(backtracking_tokenizer.all(), k, backtracking_tokenizer.pos() - 1);
    }
//@before let mut tree_node_index = c;
    let ghost (t2, sa) = (stack.tree_nodes@, stack.stack_nodes@);
    let ghost (ps, opl, ci, r0) = (reusable.pushes@, other_push_len as int, c as int, rl(ve(s0[i as int])));
    let ghost ti = backtracking.token_index as int;
    proof {
        assert(t2.len() == l + 1 - nth + opl);
        assert forall|x: int| ci + opl <= x < t2.len() implies #[trigger] t2[x] == t0[x - opl + nth] by { }
        assert forall|x: int| 0 <= x < ci implies #[trigger] t2[x] == t0[x] by { }
    }
//@loop 1
    invariant
        i__1 <= n__1, n__1 == ps.len(), tree_node_index == ci + need(ps, i__1 as int),
        stack.stack_nodes@.len() == i + 1 + i__1, forall|h: int| 0 <= h <= i ==> #[trigger] stack.stack_nodes@[h] == sa[h],
        forall|q: int| 0 <= q < i__1 ==> pent(ve(#[trigger] stack.stack_nodes@[i + 1 + q]), ps, q, ci, ti),
        stack.tree_nodes@.len() == t2.len(),
        forall|x: int| 0 <= x < ci ==> #[trigger] stack.tree_nodes@[x] == t0[x],
        forall|x: int| ci <= x < ci + need(ps, i__1 as int) ==> !leaf(#[trigger] stack.tree_nodes@[x]) && stack.tree_nodes@[x].start_index == start_index,
        forall|x: int| ci + need(ps, i__1 as int) <= x && ci + opl <= x < t2.len() ==> #[trigger] stack.tree_nodes@[x] == t0[x - opl + nth],
    decreases n__1 - i__1,
//@loopbegin 1
    proof {
        assert(push_ok(r0, ps, i__1 as int));
        need_mono(ps, i__1 as int, ps.len() - 1);
        assert(stack.tree_nodes.len() <= usize::MAX);
        assert(need(ps, i__1 + 1) == need(ps, i__1 as int) + if !is_alt(ps[i__1 as int]) && !pstate(ps[i__1 as int]).node_may_be_omitted { 1int } else { 0int });
    }
//@before vx_assert(!reusable.pushes.is_empty());
    proof {
        let (w, u) = (stack.tree_nodes@, stack.stack_nodes@);
        need_mono(ps, ps.len() - 1, ps.len() as int);
        assert(need(ps, ps.len() as int) == need(ps, ps.len() - 1) + if !is_alt(ps[ps.len() - 1]) && !pstate(ps[ps.len() - 1]).node_may_be_omitted { 1int } else { 0int });
        assert(reused(t0, w, ci, nth as int, opl, l)) by {
            assert forall|x: int| ci <= x <= ci + opl implies !leaf(#[trigger] w[x]) && w[x].start_index == t0[ci].start_index by { if x == ci + opl && need(ps, ps.len() as int) == opl { assert(w[x] == t0[x - opl + nth]); } }
            assert forall|x: int| ci + opl < x < w.len() implies #[trigger] w[x] == t0[x - opl + nth] by { }
        }
        vs_facts(u);
        vs_facts(s0);
        plan_facts(*fallback_plan);
        assert forall|h: int| 0 <= h < i implies #[trigger] vs(u)[h] == vs(s0)[h] by { assert(vs(u)[h] == ve(u[h])); assert(vs(s0)[h] == ve(s0[h])); assert(u[h] == sa[h]); }
        assert(vs(u)[i as int] == ve(u[i as int]) && vs(s0)[i as int] == ve(s0[i as int]) && u[i as int] == sa[i as int]);
        assert forall|q: int| 0 <= q < ps.len() implies pent(#[trigger] vs(u)[i + 1 + q], ps, q, ci, ti) by { assert(vs(u)[i + 1 + q] == ve(u[i + 1 + q])); assert(pent(ve(u[i + 1 + q]), ps, q, ci, ti)); }
        inv_reuse(t0, w, vs(s0), vs(u), b0, n0, i as int, *reusable, nth as int, l, k);
    }
//@before #* self.apply_plan(stack, fallback_plan
    proof { after_reset(t0, s0, stack.stack_nodes@, b0, pd(vb(*backtracking_tokenizer), mk(*fallback_plan)), n0, i as int); }
//@before stack.stack_nodes.pop();
    let ghost u1 = stack.stack_nodes@;
//@before self.apply_plan(stack, backtracking.replay_plan
    proof { after_reset_pop(t0, s0, u1, stack.stack_nodes@, b0, pd(vb(*backtracking_tokenizer), mk(*backtracking.replay_plan)), n0, i as int); }
//@before if !stack.tos().enabled_token_recording
    let ghost b3 = vb(*backtracking_tokenizer);
    proof {
        let u3 = stack.stack_nodes@;
        vs_facts(u3);
        if u3.len() > 0 { assert(vs(u3)[u3.len() - 1] == ve(u3.last())); }
        inv_rec(stack.tree_nodes@, vs(u3), b3, false, backtracking_tokenizer.pos());
    }
//@after backtracking_tokenizer.stop();
    proof { inv_bt(stack.tree_nodes@, vs(stack.stack_nodes@), b3, vb(*backtracking_tokenizer), false, backtracking_tokenizer.pos()); }
//@loop 2
    invariant
        inv(stack.tree_nodes@, vs(stack.stack_nodes@), b0, false, n0), *backtracking_tokenizer == *old(backtracking_tokenizer),
//@loopbegin 2
    let ghost (t4, s4) = (stack.tree_nodes@, stack.stack_nodes@);
    proof {
        vs_facts(s4);
        inv_last(t4, vs(s4), b0, n0);
        assert(vs(s4)[s4.len() - 1] == ve(s4.last()));
        inv_pop(t4, vs(s4), b0, n0);
    }
//@loopend 2
    proof { inv_sim(t4, stack.tree_nodes@, vs(stack.stack_nodes@), b0, false, n0); }
//@end

/// The leaves of the tree are the tokens, in order and in place; every inner node but the root starts where its first child starts.
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@fn Grammar::parse ret=r attr=verifier::exec_allows_no_decreases_clause
//@tyrw I : Iterator<Item = T> ==> I: VxStream<T>
//@rw &self.automatons[&start].dfa_states[0] ==> vx_start_state(self, start)
//@rw code.len() ==> vx_code_len(code)
//@rw &code[$a..$b] ==> vx_slice(code, $a, $b)
//@rw backtracking_tokenizer.next() ==> backtracking_tokenizer.vx_next()
//@rw token.can_contain_syntax() ==> vx_can_contain_syntax(&token)
//@rw token.type_() ==> vx_type(&token)
//@rw self.keywords.squashed(token_str) ==> vx_keyword(self, token_str)
//@rw $x.unwrap_or_else(|| $e) ==> (match $x { Some(y__) => y__, None => $e })
    requires tokens.at() == 0, tokens_ok(tokens.all()), nonterm(start),
    ensures tree_ok(r@), leaves(r@) == toks(tokens.all(), tokens.all().len() as int), leaf(r@.last()) || r@.len() == 1,
//@before while stack.len() > 0
    let ghost all = tokens.all();
    proof {
        vs_facts(stack.stack_nodes@);
        inv_new(stack.tree_nodes@, vs(stack.stack_nodes@), vb(backtracking_tokenizer));
    }
//@loop 0
    invariant
        backtracking_tokenizer.wf(), fresh(backtracking_tokenizer), backtracking_tokenizer.all() == all,
        inv(stack.tree_nodes@, vs(stack.stack_nodes@), vb(backtracking_tokenizer), false, cur(backtracking_tokenizer)),
        stack.stack_nodes@.len() == 0 ==> cur(backtracking_tokenizer) == all.len(),
    ensures cur(backtracking_tokenizer) == all.len(),
//@loop 1
    invariant
        backtracking_tokenizer.wf(), fresh(backtracking_tokenizer), backtracking_tokenizer.all() == all,
        inv(stack.tree_nodes@, vs(stack.stack_nodes@), vb(backtracking_tokenizer), false, cur(backtracking_tokenizer)),
    ensures
        backtracking_tokenizer.wf(), fresh(backtracking_tokenizer), backtracking_tokenizer.all() == all,
        inv(stack.tree_nodes@, vs(stack.stack_nodes@), vb(backtracking_tokenizer), false, cur(backtracking_tokenizer)),
        backtracking_tokenizer.pos() >= all.len(),
//@loopbegin 1
    proof { inv_next(stack.tree_nodes@, vs(stack.stack_nodes@), vb(backtracking_tokenizer), cur(backtracking_tokenizer)); }
//@before let mode = tos.mode;
    proof {
        let s1 = stack.stack_nodes@;
        vs_facts(s1);
        inv_last(stack.tree_nodes@, vs(s1), vb(backtracking_tokenizer), cur(backtracking_tokenizer));
    }
//@before stack.tree_nodes
    proof { inv_done(stack.tree_nodes@, vs(stack.stack_nodes@), vb(backtracking_tokenizer)); }
//@end
}

}
fn main() {}
