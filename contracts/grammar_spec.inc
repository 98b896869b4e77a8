// ---------- what is assumed of the generated automaton (crates/parsa/src/automaton.rs) ----------
/// The rule a state belongs to, whether nodes of a rule may be left out, whether the rule is left recursive, and
/// whether the state belongs to an alternative that has not been left through left recursion.
uninterp spec fn rule_of(d: DFAState) -> int;
uninterp spec fn omit(r: int) -> bool;
uninterp spec fn lr(r: int) -> bool;
uninterp spec fn inalt(d: DFAState) -> bool;
uninterp spec fn neg(d: DFAState) -> bool;
/// Plans and reusable nonterminals that the generator made, and the rule a plan starts from.
uninterp spec fn gplan(p: Plan) -> bool;
uninterp spec fn prule(p: Plan) -> int;
/// A plan that makes an inner node, and whose alternatives before the first one do too.
uninterp spec fn mk(p: Plan) -> bool;
uninterp spec fn greuse(r: ReusableFirstNonterminal, rule: int) -> bool;
uninterp spec fn state_at(h: VxState) -> DFAState;
uninterp spec fn plan_at(h: VxPlan) -> Plan;

spec fn nonterm(t: InternalNonterminalType) -> bool { t.0 >= NODE_START }
spec fn st_ok(d: DFAState) -> bool {
    &&& d.node_may_be_omitted == omit(rule_of(d))
    &&& d.transition_towards_error_recovery_node is Some ==> !omit(rule_of(d)) && nonterm(d.transition_towards_error_recovery_node->0)
}
spec fn is_alt(p: Push) -> bool { p.stack_mode is Alternative }
spec fn pstate(p: Push) -> DFAState { state_at(p.next_dfa) }
spec fn pusher(r0: int, ps: Seq<Push>, k: int) -> int { if k == 0 { r0 } else { rule_of(pstate(ps[k - 1])) } }
spec fn bt_plan(p: Plan) -> bool {
    &&& gplan(p) && !(p.mode is LeftRecursive) && !neg(state_at(p.next_dfa))
    &&& lr(prule(p)) ==> inalt(state_at(p.next_dfa)) && (p.pushes@.len() > 0 ==> !is_alt(p.pushes@[0]))
}
spec fn push_ok(r0: int, ps: Seq<Push>, k: int) -> bool {
    let d = pstate(ps[k]);
    &&& nonterm(ps[k].node_type) && st_ok(d)
    &&& ps[k].stack_mode matches StackMode::Alternative { fallback, replay, reusable_first_nonterminal } ==> {
        &&& rule_of(d) == pusher(r0, ps, k)
        &&& bt_plan(plan_at(fallback)) && prule(plan_at(fallback)) == rule_of(d)
        &&& bt_plan(plan_at(replay)) && prule(plan_at(replay)) == rule_of(d)
        &&& reusable_first_nonterminal is Some ==> greuse(reusable_first_nonterminal->0, rule_of(d))
        &&& lr(rule_of(d)) ==> inalt(d) && (k + 1 < ps.len() ==> !is_alt(ps[k + 1]))
    }
}
/// How many tree nodes the first k pushes make.
spec fn need(ps: Seq<Push>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { need(ps, k - 1) + if !is_alt(ps[k - 1]) && !pstate(ps[k - 1]).node_may_be_omitted { 1int } else { 0int } }
}
#[verifier::external_body]
proof fn plan_facts(p: Plan)
    requires gplan(p),
    ensures
        p.type_.0 < NODE_START, rule_of(state_at(p.next_dfa)) == prule(p), st_ok(state_at(p.next_dfa)),
        p.mode is LeftRecursive ==> lr(prule(p)) && !neg(state_at(p.next_dfa)),
        forall|k: int| 0 <= k < p.pushes@.len() ==> #[trigger] push_ok(prule(p), p.pushes@, k),
{ }
spec fn mkp(p: Push) -> bool { p.stack_mode matches StackMode::Alternative { fallback, replay, reusable_first_nonterminal } ==> mk(plan_at(fallback)) && mk(plan_at(replay)) }
#[verifier::external_body]
proof fn mk_facts(p: Plan)
    requires gplan(p), mk(p),
    ensures need(p.pushes@, p.pushes@.len() as int) > 0, forall|k: int| 0 <= k < p.pushes@.len() && need(p.pushes@, k) == 0 ==> mkp(#[trigger] p.pushes@[k]),
{ }
#[verifier::external_body]
proof fn reuse_facts(r: ReusableFirstNonterminal, rule: int)
    requires greuse(r, rule),
    ensures
        r.pushes@.len() > 0, !is_alt(r.pushes@.last()), lr(rule) ==> !is_alt(r.pushes@[0]),
        forall|k: int| 0 <= k < r.pushes@.len() ==> #[trigger] push_ok(rule, r.pushes@, k),
        forall|k: int| 0 <= k < r.pushes@.len() && is_alt(#[trigger] r.pushes@[k]) ==> mkp(r.pushes@[k]) && !omit(rule_of(pstate(r.pushes@[k]))),
        r.tree_nodes_needed_for_pushes == need(r.pushes@, r.pushes@.len() - 1),
{ }
/// No alternative of the grammar starts with an indentation, a dedentation or the end marker: the tokens without length.
#[verifier::external_body]
proof fn alternative_token<T: Token>(p: Push, token: T)
    requires is_alt(p),
    ensures token.len() > 0,
{ }

// ---------- the tree ----------
spec fn leaf(n: InternalNode) -> bool { n.type_.0 < NODE_START }
/// Place and length of the leaves, in order.
spec fn leaves(t: Seq<InternalNode>) -> Seq<(u32, u32)> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if leaf(t.last()) { leaves(t.drop_last()).push((t.last().start_index, t.last().length)) }
    else { leaves(t.drop_last()) }
}
spec fn toks<T: Token>(all: Seq<T>, n: int) -> Seq<(u32, u32)> { Seq::new(n as nat, |i: int| (all[i].st(), all[i].len())) }
spec fn sim1(a: InternalNode, b: InternalNode) -> bool {
    leaf(a) == leaf(b) && a.start_index == b.start_index && (leaf(a) ==> a.length == b.length)
}
/// The same up to links, the length of inner nodes, and the types of nodes.
spec fn sim(t: Seq<InternalNode>, u: Seq<InternalNode>) -> bool {
    t.len() == u.len() && forall|i: int| 0 <= i < t.len() ==> sim1(#[trigger] t[i], u[i])
}
proof fn leaves_sim(t: Seq<InternalNode>, u: Seq<InternalNode>)
    requires sim(t, u),
    ensures leaves(t) == leaves(u),
    decreases t.len(),
{
    if t.len() > 0 {
        assert(sim1(t[t.len() - 1], u[t.len() - 1]));
        assert forall|i: int| 0 <= i < t.len() - 1 implies sim1(#[trigger] t.drop_last()[i], u.drop_last()[i]) by { assert(sim1(t[i], u[i])); }
        leaves_sim(t.drop_last(), u.drop_last());
    }
}
proof fn leaves_add(a: Seq<InternalNode>, b: Seq<InternalNode>)
    ensures leaves(a + b) == leaves(a) + leaves(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(leaves(b) =~= Seq::empty()); assert(leaves(a) + leaves(b) =~= leaves(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        leaves_add(a, b.drop_last());
        assert((a + b).last() == b.last());
        assert(leaves(a + b) =~= leaves(a) + leaves(b));
    }
}
proof fn leaves_push(t: Seq<InternalNode>, n: InternalNode)
    ensures leaf(n) ==> leaves(t.push(n)) == leaves(t).push((n.start_index, n.length)), !leaf(n) ==> leaves(t.push(n)) == leaves(t),
{
    assert(t.push(n).drop_last() =~= t);
}
proof fn leaves_insert(t: Seq<InternalNode>, k: int, n: InternalNode)
    requires 0 <= k <= t.len(), !leaf(n),
    ensures leaves(t.insert(k, n)) == leaves(t),
{
    let (a, b) = (t.subrange(0, k), t.subrange(k, t.len() as int));
    assert(t =~= a + b);
    assert(t.insert(k, n) =~= a.push(n) + b);
    leaves_add(a, b);
    leaves_add(a.push(n), b);
    leaves_push(a, n);
}
/// No leaves in the middle part: it can be exchanged.
proof fn leaves_none(t: Seq<InternalNode>)
    requires forall|i: int| 0 <= i < t.len() ==> !leaf(#[trigger] t[i]),
    ensures leaves(t) == Seq::<(u32, u32)>::empty(),
    decreases t.len(),
{
    if t.len() > 0 { assert(!leaf(t[t.len() - 1])); leaves_none(t.drop_last()); }
}
proof fn leaves_split(t: Seq<InternalNode>, k: int)
    requires 0 <= k <= t.len(),
    ensures leaves(t) == leaves(t.take(k)) + leaves(t.skip(k)), leaves(t.take(k)).len() <= leaves(t).len(),
        leaves(t.take(k)) == leaves(t).take(leaves(t.take(k)).len() as int),
{
    assert(t =~= t.take(k) + t.skip(k));
    leaves_add(t.take(k), t.skip(k));
    let (a, b) = (leaves(t.take(k)), leaves(t.skip(k)));
    assert((a + b).take(a.len() as int) =~= a);
}
/// The leaf at k is number leaves(t.take(k)).len() of all leaves.
proof fn leaves_at(t: Seq<InternalNode>, k: int)
    requires 0 <= k < t.len(), leaf(t[k]),
    ensures
        leaves(t.take(k)).len() < leaves(t).len(),
        leaves(t)[leaves(t.take(k)).len() as int] == (t[k].start_index, t[k].length),
        leaves(t.take(k + 1)) == leaves(t.take(k)).push((t[k].start_index, t[k].length)),
{
    assert(t.take(k + 1) =~= t.take(k).push(t[k]));
    leaves_push(t.take(k), t[k]);
    leaves_split(t, k + 1);
}
spec fn step(a: InternalNode, b: InternalNode, i: int) -> bool {
    if leaf(a) { a.start_index + a.length <= b.start_index }
    else if i == 0 { a.start_index <= b.start_index }
    else { a.start_index == b.start_index }
}
/// Every node but the root starts where the node after it starts, if that is its first child; leaves do not overlap.
spec fn steps(t: Seq<InternalNode>) -> bool { forall|i: int| 0 <= i && i + 1 < t.len() ==> #[trigger] step(t[i], t[i + 1], i) }
spec fn tree_ok(t: Seq<InternalNode>) -> bool { t.len() >= 1 && !leaf(t[0]) && t[0].start_index == 0 && steps(t) }
proof fn starts_le(t: Seq<InternalNode>, i: int, j: int)
    requires steps(t), 0 <= i <= j < t.len(),
    ensures t[i].start_index <= t[j].start_index,
    decreases j - i,
{
    if i < j { starts_le(t, i, j - 1); assert(step(t[j - 1], t[j - 1 + 1], j - 1)); }
}
/// A node that starts at s0 can follow.
spec fn ready(t: Seq<InternalNode>, s0: int) -> bool {
    let l = t.last();
    if leaf(l) { l.start_index + l.length <= s0 } else if t.len() == 1 { true } else { l.start_index == s0 }
}
proof fn steps_push(t: Seq<InternalNode>, n: InternalNode)
    requires tree_ok(t), ready(t, n.start_index as int),
    ensures steps(t.push(n)), tree_ok(t.push(n)), !leaf(n) ==> ready(t.push(n), n.start_index as int),
{
    let u = t.push(n);
    assert forall|i: int| 0 <= i && i + 1 < u.len() implies #[trigger] step(u[i], u[i + 1], i) by {
        if i + 1 < t.len() { assert(step(t[i], t[i + 1], i)); }
    }
}
spec fn tokens_ok<T: Token>(all: Seq<T>) -> bool { ordered(all) && forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).st() + all[i].len() <= u32::MAX }
/// After the tokens before n, token n can follow.
proof fn ready_leaf<T: Token>(t: Seq<InternalNode>, all: Seq<T>, n: int)
    requires t.len() > 0, leaves(t) == toks(all, n), tokens_ok(all), 0 <= n < all.len(), leaf(t.last()),
    ensures ready(t, all[n].st() as int), n > 0, t.last().start_index == all[n - 1].st(), t.last().length == all[n - 1].len(),
{
    last_leaf(t, all, n);
    assert(all[n - 1].st() + all[n - 1].len() <= all[n].st());
}
proof fn last_leaf<T: Token>(t: Seq<InternalNode>, all: Seq<T>, n: int)
    requires t.len() > 0, leaves(t) == toks(all, n), 0 <= n <= all.len(), leaf(t.last()),
    ensures n > 0, t.last().start_index == all[n - 1].st(), t.last().length == all[n - 1].len(),
{
    let s = leaves(t.drop_last()).push((t.last().start_index, t.last().length));
    assert(leaves(t) == s);
    assert(s.len() == n);
    assert(s[n - 1] == toks(all, n)[n - 1]);
}
proof fn toks_push<T: Token>(all: Seq<T>, n: int)
    requires 0 <= n < all.len(),
    ensures toks(all, n + 1) == toks(all, n).push((all[n].st(), all[n].len())),
{
    assert(toks(all, n + 1) =~= toks(all, n).push((all[n].st(), all[n].len())));
}

// ---------- the stack ----------
/// A stack entry, without the link that only the shape of the tree depends on.
ghost struct E<'a> { tni: int, count: int, dfa: DFAState, node_id: InternalNonterminalType, mode: ModeData<'a>, en: bool }
spec fn ve<'a>(s: StackNode<'a>) -> E<'a> {
    E { tni: s.tree_node_index as int, count: s.children_count as int, dfa: *s.dfa_state, node_id: s.node_id, mode: s.mode, en: s.enabled_token_recording }
}
spec fn vs<'a>(s: Seq<StackNode<'a>>) -> Seq<E<'a>> { Seq::new(s.len(), |i: int| ve(s[i])) }
spec fn rl(e: E) -> int { rule_of(e.dfa) }
spec fn om(e: E) -> bool { omit(rule_of(e.dfa)) }
spec fn bp<'a>(m: ModeData<'a>) -> Option<BacktrackingPoint<'a>> {
    match m {
        ModeData::Alternative { backtracking, fallback_plan, reusable_first_nonterminal } => Some(backtracking),
        ModeData::LastAlternative { backtracking, first_plan_start_index, first_plan_had_valid_stack } => Some(backtracking),
        ModeData::LL => None,
    }
}
spec fn alt(e: E) -> bool { bp(e.mode) is Some }
spec fn cc(e: E) -> int { (bp(e.mode)->0).tree_node_count as int }
/// An entry made when a nonterminal was reused may point at the node it starts with, not at its own.
spec fn mis(e: E) -> bool { alt(e) && !om(e) && e.tni == cc(e) }
spec fn mkm(e: E) -> bool {
    &&& mk(*(bp(e.mode)->0).replay_plan)
    &&& e.mode matches ModeData::Alternative { backtracking, fallback_plan, reusable_first_nonterminal } ==> mk(*fallback_plan)
}
/// The plans kept in an entry are the generator's, and belong to its rule.
spec fn mode_ok(e: E) -> bool {
    &&& alt(e) ==> bt_plan(*(bp(e.mode)->0).replay_plan) && prule(*(bp(e.mode)->0).replay_plan) == rl(e)
    &&& e.mode matches ModeData::Alternative { backtracking, fallback_plan, reusable_first_nonterminal } ==> {
        &&& bt_plan(*fallback_plan) && prule(*fallback_plan) == rl(e)
        &&& *reusable_first_nonterminal is Some ==> greuse((*reusable_first_nonterminal)->0, rl(e))
    }
}
/// The token source: its sequence, where the buffer starts and how long it is, and whether it keeps recording;
/// pend: an inner node is going to be made before the token is added.
ghost struct Bt<T> { all: Seq<T>, base: int, nbuf: int, rec: bool, pend: bool }
/// One entry: which node of the tree it stands for. A node that may be left out is there only once it has two children;
/// before that the entry points at its only child, which is the last node of the tree if it is a leaf.
/// mid: while a token is being added; nothing below is a leaf then, and the entry on top is about to get a child.
spec fn ent(t: Seq<InternalNode>, e: E, mid: bool, top: bool) -> bool {
    &&& nonterm(e.node_id) && st_ok(e.dfa) && mode_ok(e) && 0 <= e.tni && 0 <= e.count
    &&& e.tni == 0 ==> !om(e) && !lr(rl(e))
    &&& mid ==> {
        &&& e.tni <= t.len()
        &&& e.tni < t.len() ==> !leaf(t[e.tni])
        &&& e.tni == t.len() ==> (mis(e) || om(e)) && e.count == if top { 0int } else { 1int }
        &&& om(e) && e.tni < t.len() ==> e.count >= 1
    }
    &&& !mid ==> {
        &&& e.tni < t.len()
        &&& leaf(t[e.tni]) ==> e.tni == t.len() - 1 && om(e) && e.count == 1
        &&& om(e) ==> e.count >= 1
    }
}
spec fn lo(t: Seq<InternalNode>, e: E, c: int, below: bool, m: bool) -> bool {
    &&& e.tni <= c
    &&& e.tni < c ==> !leaf(t[e.tni])
    &&& e.tni == c ==> ((mis(e) && m) || om(e)) && (below ==> e.count == 1)
}
spec fn hi(ej: E, eg: E, same: bool, exempt: bool) -> bool {
    &&& eg.en
    &&& eg.tni >= cc(ej) || (rl(eg) == rl(ej) && (!same ==> !lr(rl(ej))) && (om(eg) && !exempt ==> eg.count >= 2))
}
/// One entry that can be taken back: what is before its mark are the tokens before the one it is taken back to,
/// the entries up to it then stand for inner nodes or for nothing yet, and entries above it do not reach below the mark
/// (or never insert there).
#[verifier::opaque]
spec fn alt_ok<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, mid: bool, j: int) -> bool {
    let p = bp(s[j].mode)->0;
    let c = p.tree_node_count as int;
    let n = b.base + p.token_index;
    &&& 1 <= j && 1 <= c <= t.len() && (!mid ==> c < t.len()) && b.rec && p.token_index < b.nbuf && 0 <= n < b.all.len()
    &&& leaves(t.take(c)) == toks(b.all, n)
    &&& b.all[n].len() > 0
    &&& ready(t.take(c), b.all[n].st() as int)
    &&& forall|h: int| 0 <= h <= j ==> lo(t, #[trigger] s[h], c, h < j, mkm(s[j]))
    &&& s[j].tni == c ==> p.children_count == 0
    &&& om(s[j]) && s[j].tni < c ==> p.children_count >= 1
    &&& forall|g: int| j <= g < s.len() ==> hi(s[j], #[trigger] s[g], g == j, mid && g == s.len() - 1)
    &&& rl(s[j - 1]) == rl(s[j]) && (s[j - 1].tni == s[j].tni || !om(s[j]))
    &&& forall|i: int| 0 <= i < j && alt(#[trigger] s[i]) ==> cc(s[i]) <= c
    &&& lr(rl(s[j])) ==> inalt(s[j].dfa)
}
spec fn ents(t: Seq<InternalNode>, s: Seq<E>, mid: bool) -> bool {
    &&& forall|h: int| 0 <= h < s.len() ==> ent(t, #[trigger] s[h], mid, h == s.len() - 1)
    &&& forall|h: int, g: int| 0 <= h <= g < s.len() ==> (#[trigger] s[h]).tni <= (#[trigger] s[g]).tni
}
spec fn alts<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, mid: bool) -> bool {
    forall|j: int| 0 <= j < s.len() && alt(#[trigger] s[j]) ==> alt_ok(t, s, b, mid, j)
}
spec fn nomis(t: Seq<InternalNode>, s: Seq<E>) -> bool { forall|h: int| 0 <= h < s.len() && mis(#[trigger] s[h]) ==> s[h].tni < t.len() }
#[verifier::opaque]
spec fn inv<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, mid: bool, n: int) -> bool {
    &&& tree_ok(t) && ents(t, s, mid) && alts(t, s, b, mid)
    &&& tokens_ok(b.all) && 0 <= n <= b.all.len() && leaves(t) == toks(b.all, n)
    &&& !mid ==> leaf(t.last()) || t.len() == 1
    &&& mid ==> n < b.all.len() && ready(t, b.all[n].st() as int) && (!b.pend ==> nomis(t, s))
}
