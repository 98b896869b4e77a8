// ---------- how the invariant moves ----------
proof fn alt_facts<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, mid: bool, j: int)
    requires alt_ok(t, s, b, mid, j),
    ensures ({
        let p = bp(s[j].mode)->0;
        let c = p.tree_node_count as int;
        let n = b.base + p.token_index;
        &&& 1 <= j && 1 <= c <= t.len() && (!mid ==> c < t.len()) && b.rec && p.token_index < b.nbuf && 0 <= n < b.all.len()
        &&& leaves(t.take(c)) == toks(b.all, n)
        &&& b.all[n].len() > 0
        &&& ready(t.take(c), b.all[n].st() as int)
        &&& s[j].tni == c ==> p.children_count == 0
        &&& om(s[j]) && s[j].tni < c ==> p.children_count >= 1
        &&& rl(s[j - 1]) == rl(s[j]) && (s[j - 1].tni == s[j].tni || !om(s[j]))
        &&& lr(rl(s[j])) ==> inalt(s[j].dfa)
    }),
{ reveal(alt_ok); }
proof fn alt_lo<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, mid: bool, j: int, h: int)
    requires alt_ok(t, s, b, mid, j), 0 <= h <= j,
    ensures lo(t, s[h], cc(s[j]), h < j, mkm(s[j])),
{ reveal(alt_ok); }
proof fn take_sim(t: Seq<InternalNode>, u: Seq<InternalNode>, c: int)
    requires sim(t, u), 0 <= c <= t.len(),
    ensures sim(t.take(c), u.take(c)), leaves(t.take(c)) == leaves(u.take(c)),
{
    assert forall|i: int| 0 <= i < c implies sim1(#[trigger] t.take(c)[i], u.take(c)[i]) by { assert(sim1(t[i], u[i])); }
    leaves_sim(t.take(c), u.take(c));
}
/// Links, types and lengths of inner nodes do not matter.
proof fn inv_sim<T: Token>(t: Seq<InternalNode>, u: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, mid: bool, n: int)
    requires inv(t, s, b, mid, n), sim(t, u),
    ensures inv(u, s, b, mid, n),
{
    reveal(inv);
    leaves_sim(t, u);
    assert(sim1(t[0], u[0]));
    assert forall|i: int| 0 <= i && i + 1 < u.len() implies #[trigger] step(u[i], u[i + 1], i) by {
        assert(step(t[i], t[i + 1], i)); assert(sim1(t[i], u[i])); assert(sim1(t[i + 1], u[i + 1]));
    }
    assert(sim1(t[t.len() - 1], u[t.len() - 1]));
    assert forall|h: int| 0 <= h < s.len() implies ent(u, #[trigger] s[h], mid, h == s.len() - 1) by {
        assert(ent(t, s[h], mid, h == s.len() - 1));
        if s[h].tni < t.len() { assert(sim1(t[s[h].tni], u[s[h].tni])); }
    }
    assert forall|j: int| 0 <= j < s.len() && alt(#[trigger] s[j]) implies alt_ok(u, s, b, mid, j) by { reveal(alt_ok);
        assert(alt_ok(t, s, b, mid, j));
        let c = cc(s[j]);
        take_sim(t, u, c);
        assert(sim1(t.take(c)[c - 1], u.take(c)[c - 1]));
        assert forall|h: int| 0 <= h <= j implies lo(u, #[trigger] s[h], c, h < j, mkm(s[j])) by {
            assert(lo(t, s[h], c, h < j, mkm(s[j])));
            if s[h].tni < c { assert(sim1(t[s[h].tni], u[s[h].tni])); }
        }
    }
}
/// A longer buffer, or no recording when nothing can be taken back.
proof fn inv_bt<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, c: Bt<T>, mid: bool, n: int)
    requires inv(t, s, b, mid, n), b.all == c.all, mid && b.pend ==> c.pend,
        (b.base == c.base && b.nbuf <= c.nbuf && (b.rec ==> c.rec)) || forall|j: int| 0 <= j < s.len() ==> !alt(#[trigger] s[j]),
    ensures inv(t, s, c, mid, n),
{
    reveal(inv);
    assert forall|j: int| 0 <= j < s.len() && alt(#[trigger] s[j]) implies alt_ok(t, s, c, mid, j) by { reveal(alt_ok); assert(alt_ok(t, s, b, mid, j)); }
}
/// Nothing can be taken back if the entry on top does not keep recording; if something can, the source records.
proof fn inv_rec<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, mid: bool, n: int)
    requires inv(t, s, b, mid, n),
    ensures
        s.len() > 0 && !s.last().en ==> forall|j: int| 0 <= j < s.len() ==> !alt(#[trigger] s[j]),
        !b.rec ==> forall|j: int| 0 <= j < s.len() ==> !alt(#[trigger] s[j]),
{
    reveal(inv);
    assert forall|j: int| 0 <= j < s.len() && (!s.last().en || !b.rec) implies !alt(#[trigger] s[j]) by {
        reveal(alt_ok);
        if alt(s[j]) { assert(alt_ok(t, s, b, mid, j)); assert(hi(s[j], s[s.len() - 1], j == s.len() - 1, mid)); }
    }
}
/// A change of the state of the entry on top within its rule.
proof fn inv_dfa<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, mid: bool, n: int)
    requires inv(t, s, b, mid, n), s.len() > 0, u == s.update(s.len() - 1, E { dfa: u.last().dfa, ..s.last() }),
        st_ok(u.last().dfa), rl(u.last()) == rl(s.last()), alt(s.last()) && lr(rl(s.last())) ==> inalt(u.last().dfa),
    ensures inv(t, u, b, mid, n),
{
    reveal(inv);
    let m = s.len() - 1;
    assert forall|h: int| 0 <= h < u.len() implies ent(t, #[trigger] u[h], mid, h == m) by { assert(ent(t, s[h], mid, h == m)); }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by { assert(s[h].tni <= s[g].tni); }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(t, u, b, mid, j) by { reveal(alt_ok);
        assert(alt(s[j]));
        assert(alt_ok(t, s, b, mid, j));
        let c = cc(s[j]);
        assert forall|h: int| 0 <= h <= j implies lo(t, #[trigger] u[h], c, h < j, mkm(u[j])) by { assert(lo(t, s[h], c, h < j, mkm(s[j]))); }
        assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, mid && g == m) by { assert(hi(s[j], s[g], g == j, mid && g == m)); }
        assert(rl(s[j - 1]) == rl(s[j]));
        assert(u[j - 1] == s[j - 1]);
        assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= c by { assert(u[i] == s[i]); assert(alt(s[i])); }
    }
}
/// The entry on top already has a node, or two children: a child can be added.
proof fn to_mid<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, n: int)
    requires inv(t, s, b, false, n), n < b.all.len(), s.len() > 0, !(om(s.last()) && s.last().count == 1),
    ensures inv(t, s, b, true, n),
{
    reveal(inv);
    let m = s.len() - 1;
    assert(ent(t, s[m], false, true));
    assert forall|h: int| 0 <= h < s.len() implies ent(t, #[trigger] s[h], true, h == m) by {
        assert(ent(t, s[h], false, h == m));
        assert(s[h].tni <= s[m].tni);
    }
    assert forall|j: int| 0 <= j < s.len() && alt(#[trigger] s[j]) implies alt_ok(t, s, b, true, j) by { reveal(alt_ok);
        assert(alt_ok(t, s, b, false, j));
        assert forall|g: int| j <= g < s.len() implies hi(s[j], #[trigger] s[g], g == j, g == m) by { assert(hi(s[j], s[g], g == j, false)); }
    }
    if t.len() > 1 { ready_leaf(t, b.all, n); }
}
/// The node of the entry on top is put before its first child: its second child comes, or a node of the same rule around it.
proof fn to_mid_insert<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, n: int, x: InternalNode)
    requires
        inv(t, s, b, false, n), n < b.all.len(), s.len() > 0, u.len() == s.len(),
        !leaf(x), x.start_index == t[s.last().tni].start_index,
        u == s.update(s.len() - 1, E { count: 1, mode: u.last().mode, ..s.last() }),
        (om(s.last()) && s.last().count == 1 && u.last().mode == s.last().mode) || (lr(rl(s.last())) && u.last().mode is LL),
    ensures inv(t.insert(s.last().tni, x), u, b, true, n),
{
    reveal(inv);
    let m = s.len() - 1;
    let k = s[m].tni;
    let v = t.insert(k, x);
    assert(ent(t, s[m], false, true));
    assert(1 <= k < t.len());
    leaves_insert(t, k, x);
    assert forall|i: int| 0 <= i && i + 1 < v.len() implies #[trigger] step(v[i], v[i + 1], i) by {
        if i + 1 < k { assert(step(t[i], t[i + 1], i)); }
        else if i + 1 == k { assert(step(t[i], t[i + 1], i)); }
        else if i > k { assert(step(t[i - 1], t[i - 1 + 1], i - 1)); }
    }
    assert(v.last() == t.last());
    ready_leaf(t, b.all, n);
    assert forall|h: int| 0 <= h < u.len() implies ent(v, #[trigger] u[h], true, h == m) by {
        assert(ent(t, s[h], false, h == m));
        assert(s[h].tni <= s[m].tni);
    }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by { assert(s[h].tni <= s[g].tni); }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(v, u, b, true, j) by { reveal(alt_ok);
        assert(alt(s[j]));
        assert(alt_ok(t, s, b, false, j));
        let c = cc(s[j]);
        assert(hi(s[j], s[m], m == j, false));
        assert(c <= k);
        assert(v.take(c) =~= t.take(c));
        assert forall|h: int| 0 <= h <= j implies lo(v, #[trigger] u[h], c, h < j, mkm(u[j])) by { assert(lo(t, s[h], c, h < j, mkm(s[j]))); assert(h < m ==> u[h] == s[h]); }
        assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, g == m) by { assert(hi(s[j], s[g], g == j, false)); }
        assert(u[j - 1] == s[j - 1]);
        assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= c by { assert(u[i] == s[i]); assert(alt(s[i])); }
    }
}
/// The token becomes a leaf.
proof fn from_mid<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, n: int, x: InternalNode)
    requires
        inv(t, s, b, true, n), !b.pend, s.len() > 0, leaf(x), x.start_index == b.all[n].st(), x.length == b.all[n].len(),
        u == s.update(s.len() - 1, E { count: s.last().count + 1, ..s.last() }),
    ensures inv(t.push(x), u, b, false, n + 1),
{
    reveal(inv);
    let m = s.len() - 1;
    let v = t.push(x);
    leaves_push(t, x);
    toks_push(b.all, n);
    steps_push(t, x);
    assert forall|h: int| 0 <= h < u.len() implies ent(v, #[trigger] u[h], false, h == m) by { assert(ent(t, s[h], true, h == m)); }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by { assert(s[h].tni <= s[g].tni); }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(v, u, b, false, j) by { reveal(alt_ok);
        assert(alt(s[j]));
        assert(alt_ok(t, s, b, true, j));
        let c = cc(s[j]);
        assert(v.take(c) =~= t.take(c));
        assert forall|h: int| 0 <= h <= j implies lo(v, #[trigger] u[h], c, h < j, mkm(u[j])) by { assert(lo(t, s[h], c, h < j, mkm(s[j]))); assert(h < m ==> u[h] == s[h]); }
        assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, false) by {
            assert(hi(s[j], s[g], g == j, g == m));
            assert(ent(t, s[g], true, g == m));
        }
        assert(u[j - 1] == s[j - 1]);
        assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= c by { assert(u[i] == s[i]); assert(alt(s[i])); }
    }
}
/// The entry on top after it got a child that is still to be filled.
spec fn bumped<'a>(s: Seq<E<'a>>) -> Seq<E<'a>> { s.update(s.len() - 1, E { count: s.last().count + 1, ..s.last() }) }
/// A new entry for a nonterminal, with its node if nodes of its rule are never left out.
proof fn mid_push<'a, T: Token>(t: Seq<InternalNode>, v: Seq<InternalNode>, s: Seq<E<'a>>, e: E<'a>, b: Bt<T>, c: Bt<T>, n: int)
    requires
        inv(t, s, b, true, n), s.len() > 0,
        nonterm(e.node_id), st_ok(e.dfa), e.tni == t.len(), e.count == 0, e.mode is LL, e.en == s.last().en,
        om(e) ==> v == t,
        !om(e) ==> v.len() == t.len() + 1 && v == t.push(v.last()) && !leaf(v.last()) && v.last().start_index == b.all[n].st(),
        c == (Bt { pend: b.pend && om(e), ..b }),
    ensures inv(v, bumped(s).push(e), c, true, n),
{
    reveal(inv);
    let m = s.len() - 1;
    let u = bumped(s).push(e);
    if !om(e) { leaves_push(t, v.last()); steps_push(t, v.last()); }
    assert forall|h: int| 0 <= h < u.len() implies ent(v, #[trigger] u[h], true, h == m + 1) by { if h <= m { assert(ent(t, s[h], true, h == m)); } }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by {
        if g <= m { assert(s[h].tni <= s[g].tni); } else if h <= m { assert(ent(t, s[h], true, h == m)); }
    }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(v, u, c, true, j) by { reveal(alt_ok);
        assert(alt(s[j]));
        assert(alt_ok(t, s, b, true, j));
        let d = cc(s[j]);
        assert(v.take(d) =~= t.take(d));
        assert forall|h: int| 0 <= h <= j implies lo(v, #[trigger] u[h], d, h < j, mkm(u[j])) by { assert(lo(t, s[h], d, h < j, mkm(s[j]))); assert(h < m ==> u[h] == s[h]); }
        assert(hi(s[j], s[m], m == j, true));
        assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, g == m + 1) by {
            if g <= m { assert(hi(s[j], s[g], g == j, g == m)); assert(ent(t, s[g], true, g == m)); }
        }
        assert(u[j - 1] == s[j - 1]);
        assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= d by { assert(u[i] == s[i]); assert(alt(s[i])); }
    }
}
/// A new entry for the same node that can be taken back to here.
proof fn mid_alt<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, e: E<'a>, b: Bt<T>, n: int)
    requires
        inv(t, s, b, true, n), s.len() > 0,
        nonterm(e.node_id), st_ok(e.dfa), mode_ok(e), e.tni == s.last().tni, e.count == s.last().count, e.en, rl(e) == rl(s.last()),
        alt(e), cc(e) == t.len(), (bp(e.mode)->0).children_count == e.count, lr(rl(e)) ==> inalt(e.dfa),
        b.rec, b.base + (bp(e.mode)->0).token_index == n, (bp(e.mode)->0).token_index < b.nbuf, b.all[n].len() > 0,
        alt(s.last()) ==> !lr(rl(s.last())), b.pend ==> mkm(e),
    ensures inv(t, bumped(s).push(e), b, true, n),
{
    reveal(inv);
    let m = s.len() - 1;
    let u = bumped(s).push(e);
    assert(ent(t, s[m], true, true));
    assert forall|h: int| 0 <= h < u.len() implies ent(t, #[trigger] u[h], true, h == m + 1) by { if h <= m { assert(ent(t, s[h], true, h == m)); } }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by {
        if g <= m { assert(s[h].tni <= s[g].tni); } else if h <= m { assert(s[h].tni <= s[m].tni); }
    }
    assert(t.take(t.len() as int) =~= t);
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(t, u, b, true, j) by { reveal(alt_ok);
        if j <= m {
            assert(alt(s[j]));
            assert(alt_ok(t, s, b, true, j));
            let c = cc(s[j]);
            assert forall|h: int| 0 <= h <= j implies lo(t, #[trigger] u[h], c, h < j, mkm(u[j])) by { assert(lo(t, s[h], c, h < j, mkm(s[j]))); assert(h < m ==> u[h] == s[h]); }
            assert(hi(s[j], s[m], m == j, true));
            assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, g == m + 1) by {
                if g <= m { assert(hi(s[j], s[g], g == j, g == m)); assert(ent(t, s[g], true, g == m)); }
            }
            assert(u[j - 1] == s[j - 1]);
            assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= c by { assert(u[i] == s[i]); assert(alt(s[i])); }
        } else {
            assert forall|h: int| 0 <= h <= j implies lo(t, #[trigger] u[h], t.len() as int, h < j, mkm(u[j])) by { if h <= m { assert(ent(t, s[h], true, h == m)); } }
            assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= t.len() by { assert(alt(s[i])); assert(alt_ok(t, s, b, true, i)); }
        }
    }
}
/// The entry on top is finished.
proof fn inv_pop<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, n: int)
    requires inv(t, s, b, false, n), s.len() > 0,
    ensures inv(t, s.drop_last(), b, false, n),
{
    reveal(inv);
    let u = s.drop_last();
    assert forall|h: int| 0 <= h < u.len() implies ent(t, #[trigger] u[h], false, h == u.len() - 1) by { assert(ent(t, s[h], false, false)); }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(t, u, b, false, j) by { reveal(alt_ok);
        assert(alt(s[j]));
        assert(alt_ok(t, s, b, false, j));
        assert forall|h: int| 0 <= h <= j implies lo(t, #[trigger] u[h], cc(s[j]), h < j, mkm(u[j])) by { assert(lo(t, s[h], cc(s[j]), h < j, mkm(s[j]))); }
        assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, false) by { assert(hi(s[j], s[g], g == j, false)); }
        assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= cc(s[j]) by { assert(alt(s[i])); }
    }
}
/// An entry that could be taken back is finished: the one below it stands for the same node.
#[verifier::rlimit(50)]
proof fn inv_pop_alt<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, n: int)
    requires inv(t, s, b, false, n), s.len() > 1, alt(s.last()),
        u == s.drop_last().update(s.len() - 2, E { count: s.last().count, ..s[s.len() - 2] }),
    ensures inv(t, u, b, false, n),
{
    reveal(inv);
    let m = s.len() - 2;
    assert(alt(s[m + 1]));
    alt_facts(t, s, b, false, m + 1);
    assert(ent(t, s[m + 1], false, true));
    assert(ent(t, s[m], false, false));
    assert forall|h: int| 0 <= h < u.len() implies ent(t, #[trigger] u[h], false, h == m) by { assert(ent(t, s[h], false, false)); }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by { assert(s[h].tni <= s[g].tni); }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(t, u, b, false, j) by { reveal(alt_ok);
        assert(alt(s[j]));
        assert(alt_ok(t, s, b, false, j));
        let c = cc(s[j]);
        assert forall|h: int| 0 <= h <= j implies lo(t, #[trigger] u[h], c, h < j, mkm(u[j])) by { assert(lo(t, s[h], c, h < j, mkm(s[j]))); }
        assert(hi(s[j], s[m + 1], false, false));
        assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, false) by { assert(hi(s[j], s[g], g == j, false)); }
        assert(u[j - 1] == s[j - 1]);
        assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= c by { assert(u[i] == s[i]); assert(alt(s[i])); }
    }
}
/// Taking back to entry i.
#[verifier::rlimit(50)]
proof fn inv_reset<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, n: int, i: int)
    requires
        inv(t, s, b, false, n), 0 <= i < s.len(), alt(s[i]),
        u == s.take(i + 1).update(i, E { count: (bp(s[i].mode)->0).children_count as int, mode: u[i].mode, ..s[i] }),
        u[i].mode == s[i].mode || (bp(u[i].mode) == bp(s[i].mode) && u[i].mode is LastAlternative),
    ensures
        i >= 1, cc(s[i]) <= t.len(), inv(t.take(cc(s[i])), u, Bt { pend: mkm(s[i]), ..b }, true, b.base + (bp(s[i].mode)->0).token_index),
        (bp(s[i].mode)->0).token_index < b.nbuf, b.rec,
{
    reveal(inv);
    alt_facts(t, s, b, false, i);
    let c = cc(s[i]);
    let v = t.take(c);
    assert(steps(v)) by { assert forall|k: int| 0 <= k && k + 1 < v.len() implies #[trigger] step(v[k], v[k + 1], k) by { assert(step(t[k], t[k + 1], k)); } }
    assert forall|h: int| 0 <= h < u.len() implies ent(v, #[trigger] u[h], true, h == i) by {
        assert(ent(t, s[h], false, h == s.len() - 1));
        alt_lo(t, s, b, false, i, h);
        assert(lo(t, s[h], c, h < i, mkm(s[i])));
    }
    assert(!mkm(s[i]) ==> nomis(v, u)) by {
        assert forall|h: int| 0 <= h < u.len() && mis(#[trigger] u[h]) && !mkm(s[i]) implies u[h].tni < v.len() by { alt_lo(t, s, b, false, i, h); assert(h < i ==> u[h] == s[h]); }
    }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by { assert(s[h].tni <= s[g].tni); }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(v, u, Bt { pend: mkm(s[i]), ..b }, true, j) by { reveal(alt_ok);
        assert(alt(s[j]));
        assert(alt_ok(t, s, b, false, j));
        let d = cc(s[j]);
        assert(d <= c);
        assert(v.take(d) =~= t.take(d));
        assert forall|h: int| 0 <= h <= j implies lo(v, #[trigger] u[h], d, h < j, mkm(u[j])) by { assert(lo(t, s[h], d, h < j, mkm(s[j]))); assert(h < i ==> u[h] == s[h]); }
        assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, g == i) by { assert(hi(s[j], s[g], g == j, false)); }
        assert(u[j - 1] == s[j - 1]);
        assert forall|k: int| 0 <= k < j && alt(#[trigger] u[k]) implies cc(u[k]) <= d by { assert(u[k] == s[k]); assert(alt(s[k])); }
    }
}
/// Taking back to below entry i.
proof fn inv_reset_pop<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, n: int)
    requires
        inv(t, s, b, true, n), s.len() > 1, alt(s.last()), s.last().count == (bp(s.last().mode)->0).children_count, cc(s.last()) == t.len(),
        u == s.drop_last().update(s.len() - 2, E { count: s.last().count, ..s[s.len() - 2] }),
    ensures inv(t, u, b, true, n),
{
    reveal(inv);
    let m = s.len() - 2;
    assert(alt(s[m + 1]));
    alt_facts(t, s, b, true, m + 1);
    alt_lo(t, s, b, true, m + 1, m);
    assert(lo(t, s[m], t.len() as int, true, mkm(s[m + 1])));
    assert(ent(t, s[m + 1], true, true));
    assert forall|h: int| 0 <= h < u.len() implies ent(t, #[trigger] u[h], true, h == m) by { assert(ent(t, s[h], true, false)); }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by { assert(s[h].tni <= s[g].tni); }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(t, u, b, true, j) by { reveal(alt_ok);
        assert(alt(s[j]));
        assert(alt_ok(t, s, b, true, j));
        let c = cc(s[j]);
        assert forall|h: int| 0 <= h <= j implies lo(t, #[trigger] u[h], c, h < j, mkm(u[j])) by { assert(lo(t, s[h], c, h < j, mkm(s[j]))); }
        assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, g == m) by { assert(hi(s[j], s[g], g == j, false)); }
        assert(u[j - 1] == s[j - 1]);
        assert forall|i: int| 0 <= i < j && alt(#[trigger] u[i]) implies cc(u[i]) <= c by { assert(u[i] == s[i]); assert(alt(s[i])); }
    }
}
/// An error node with the token in it, below an entry that has a node.
proof fn inv_error_leaf<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, n: int, x: InternalNode, y: InternalNode)
    requires
        inv(t, s, b, false, n), n < b.all.len(), s.len() > 0, !om(s.last()),
        !leaf(x), leaf(y), x.start_index == b.all[n].st(), y.start_index == b.all[n].st(), y.length == b.all[n].len(),
    ensures inv(t.push(x).push(y), s, b, false, n + 1),
{
    let m = s.len() - 1;
    to_mid(t, s, b, n);
    reveal(inv);
    let v = t.push(x).push(y);
    leaves_push(t, x);
    steps_push(t, x);
    leaves_push(t.push(x), y);
    steps_push(t.push(x), y);
    toks_push(b.all, n);
    assert(ent(t, s[m], true, true));
    assert forall|h: int| 0 <= h < s.len() implies ent(v, #[trigger] s[h], false, h == m) by { assert(ent(t, s[h], true, h == m)); assert(s[h].tni <= s[m].tni); }
    assert forall|j: int| 0 <= j < s.len() && alt(#[trigger] s[j]) implies alt_ok(v, s, b, false, j) by { reveal(alt_ok);
        assert(inv(t, s, b, false, n));
        assert(alt_ok(t, s, b, false, j));
        let c = cc(s[j]);
        assert(v.take(c) =~= t.take(c));
        assert forall|h: int| 0 <= h <= j implies lo(v, #[trigger] s[h], c, h < j, mkm(s[j])) by { assert(lo(t, s[h], c, h < j, mkm(s[j]))); }
    }
}
// ---------- reusing a nonterminal of the failed alternative ----------
proof fn need_mono(ps: Seq<Push>, a: int, b: int)
    requires 0 <= a <= b <= ps.len(),
    ensures 0 <= need(ps, a) <= need(ps, b), a < b && need(ps, a) == need(ps, b) ==> is_alt(ps[a]) || pstate(ps[a]).node_may_be_omitted,
    decreases b,
{
    if b > 0 {
        if a < b { need_mono(ps, a, b - 1); if a == b - 1 { assert(need(ps, b) == need(ps, a) + if !is_alt(ps[a]) && !pstate(ps[a]).node_may_be_omitted { 1int } else { 0int }); } }
        else { need_mono(ps, a - 1, a - 1); }
    }
}
/// The first leaf from c on; the nodes before it start where it starts.
proof fn first_leaf(t: Seq<InternalNode>, c: int) -> (f: int)
    requires steps(t), 1 <= c < t.len(), leaf(t.last()),
    ensures c <= f < t.len(), leaf(t[f]), t[f].start_index == t[c].start_index, forall|x: int| c <= x < f ==> !leaf(#[trigger] t[x]),
    decreases t.len() - c,
{
    if leaf(t[c]) { c } else { assert(step(t[c], t[c + 1], c)); first_leaf(t, c + 1) }
}
proof fn no_leaves(t: Seq<InternalNode>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), forall|x: int| a <= x < b ==> !leaf(#[trigger] t[x]),
    ensures leaves(t.take(b)) == leaves(t.take(a)),
    decreases b - a,
{
    if a < b {
        no_leaves(t, a, b - 1);
        assert(t.take(b) =~= t.take(b - 1).push(t[b - 1]));
        leaves_push(t.take(b - 1), t[b - 1]);
    }
}
/// The leaf at l, after the mark of entry i, is a token that is in the buffer.
proof fn leaf_tok<'a, T: Token>(t: Seq<InternalNode>, s: Seq<E<'a>>, b: Bt<T>, n: int, i: int, l: int) -> (k: int)
    requires inv(t, s, b, false, n), 0 <= i < s.len(), alt(s[i]), cc(s[i]) <= l < t.len(), leaf(t[l]),
    ensures k == leaves(t.take(l)).len(), b.base + (bp(s[i].mode)->0).token_index <= k < n, n <= b.all.len(), b.all[k].st() == t[l].start_index, b.all[k].len() == t[l].length, b.rec,
        leaves(t.take(l + 1)) == toks(b.all, k + 1),
{
    reveal(inv);
    alt_facts(t, s, b, false, i);
    let c = cc(s[i]);
    leaves_at(t, l);
    leaves_split(t.take(l), c);
    assert(t.take(l).take(c) =~= t.take(c));
    let k = leaves(t.take(l)).len() as int;
    assert(leaves(t)[k] == toks(b.all, n)[k]);
    leaves_split(t, l + 1);
    assert(leaves(t.take(l + 1)) =~= toks(b.all, k + 1)) by {
        assert(leaves(t.take(l + 1)).len() == k + 1);
        assert forall|x: int| 0 <= x < k + 1 implies leaves(t.take(l + 1))[x] == #[trigger] toks(b.all, k + 1)[x] by { assert(toks(b.all, n)[x] == leaves(t)[x]); }
    }
    k
}
/// The stack entry that push q of a reuse list becomes.
spec fn pent(e: E, ps: Seq<Push>, q: int, c: int, ti: int) -> bool {
    &&& e.tni == c + need(ps, q) && e.count == 1 && e.dfa == pstate(ps[q]) && e.node_id == ps[q].node_type && e.en
    &&& match ps[q].stack_mode {
        StackMode::LL => e.mode is LL,
        StackMode::Alternative { fallback, replay, reusable_first_nonterminal } => match e.mode {
            ModeData::Alternative { backtracking, fallback_plan, reusable_first_nonterminal: r } => {
                &&& backtracking.tree_node_count == c + need(ps, q) && backtracking.token_index == ti && backtracking.children_count == 0
                &&& *backtracking.replay_plan == plan_at(replay) && *fallback_plan == plan_at(fallback) && *r == reusable_first_nonterminal
            },
            _ => false,
        },
    }
}
/// The tree after it: from c on there are nodes for the pushes, all starting where t[c] starts, and then what follows the node that was found.
spec fn reused(t: Seq<InternalNode>, w: Seq<InternalNode>, c: int, nth: int, opl: int, l: int) -> bool {
    &&& w.len() == l + 1 - nth + opl
    &&& forall|x: int| 0 <= x < c ==> #[trigger] w[x] == t[x]
    &&& forall|x: int| c <= x <= c + opl ==> !leaf(#[trigger] w[x]) && w[x].start_index == t[c].start_index
    &&& forall|x: int| c + opl < x < w.len() ==> #[trigger] w[x] == t[x - opl + nth]
}
proof fn reuse_tree<T: Token>(t: Seq<InternalNode>, w: Seq<InternalNode>, all: Seq<T>, m: int, c: int, nth: int, opl: int, l: int)
    requires
        tree_ok(t), leaf(t.last()), 1 <= c, 0 <= nth, 0 <= opl, c + nth < l < t.len(), leaf(t[l]), !leaf(t[c + nth]),
        leaves(t.take(c)) == toks(all, m), 0 <= m < all.len(), all[m].len() > 0, leaves(t).len() > m ==> leaves(t)[m] == (all[m].st(), all[m].len()),
        forall|x: int| c <= x <= c + nth ==> (#[trigger] t[x]).start_index == t[c].start_index, reused(t, w, c, nth, opl, l),
    ensures tree_ok(w), leaves(w) == leaves(t.take(l + 1)), t[c].start_index == all[m].st(), leaf(w.last()),
        forall|y: int| c <= y <= c + opl ==> leaves(#[trigger] w.take(y)) == toks(all, m), w.take(c) == t.take(c),
{
    let f = first_leaf(t, c);
    no_leaves(t, c, f);
    leaves_at(t, f);
    assert(leaves(t)[m] == (t[f].start_index, t[f].length));
    if f <= c + nth {
        if f < c + nth {
            assert(step(t[f], t[f + 1], f));
            assert(t[f + 1].start_index == t[c].start_index);
        }
        assert(false);
    }
    no_leaves(t, c, c + nth + 1);
    assert(w.take(c) =~= t.take(c));
    assert forall|y: int| c <= y <= c + opl implies leaves(#[trigger] w.take(y)) == toks(all, m) by { no_leaves(w, c, y); }
    no_leaves(w, c, c + opl + 1);
    let r = t.subrange(c + nth + 1, l + 1);
    assert(t.take(l + 1) =~= t.take(c + nth + 1) + r);
    assert(w =~= w.take(c + opl + 1) + r);
    leaves_add(t.take(c + nth + 1), r);
    leaves_add(w.take(c + opl + 1), r);
    assert forall|x: int| 0 <= x && x + 1 < w.len() implies #[trigger] step(w[x], w[x + 1], x) by {
        if x + 1 <= c { assert(step(t[x], t[x + 1], x)); }
        else if x < c + opl { }
        else {
            let y = x - opl + nth;
            assert(step(t[y], t[y + 1], y));
            if x == c + opl { assert(t[y].start_index == t[c].start_index); }
        }
    }
}
#[verifier::rlimit(50)]
proof fn inv_reuse<'a, T: Token>(t: Seq<InternalNode>, w: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, n: int, i: int, r: ReusableFirstNonterminal, nth: int, l: int, k: int)
    requires
        inv(t, s, b, false, n), 0 <= i < s.len(), alt(s[i]), greuse(r, rl(s[i])),
        0 <= nth, cc(s[i]) + nth < l < t.len(), leaf(t[l]), !leaf(t[cc(s[i]) + nth]),
        forall|x: int| cc(s[i]) <= x <= cc(s[i]) + nth ==> (#[trigger] t[x]).start_index == t[cc(s[i])].start_index,
        reused(t, w, cc(s[i]), nth, r.tree_nodes_needed_for_pushes as int, l), k == leaves(t.take(l)).len(),
        u.len() == i + 1 + r.pushes@.len(), forall|h: int| 0 <= h < i ==> #[trigger] u[h] == s[h],
        u[i] == (E { count: (bp(s[i].mode)->0).children_count + 1, dfa: u[i].dfa, mode: u[i].mode, ..s[i] }),
        bp(u[i].mode) == bp(s[i].mode), u[i].mode is LastAlternative,
        st_ok(u[i].dfa), rl(u[i]) == rl(s[i]), lr(rl(s[i])) ==> inalt(u[i].dfa),
        forall|q: int| 0 <= q < r.pushes@.len() ==> pent(#[trigger] u[i + 1 + q], r.pushes@, q, cc(s[i]), (bp(s[i].mode)->0).token_index as int),
    ensures inv(w, u, b, false, k + 1),
{
    reuse_facts(r, rl(s[i]));
    let kk = leaf_tok(t, s, b, n, i, l);
    reveal(inv);
    alt_facts(t, s, b, false, i);
    let c = cc(s[i]);
    let (ps, opl) = (r.pushes@, r.tree_nodes_needed_for_pushes as int);
    let m = b.base + (bp(s[i].mode)->0).token_index;
    assert(leaves(t).len() == n);
    assert(leaves(t)[m] == toks(b.all, n)[m]);
    reuse_tree(t, w, b.all, m, c, nth, opl, l);
    let top = u.len() - 1;
    assert forall|q: int| 0 <= q < ps.len() implies 0 <= #[trigger] need(ps, q) <= opl by { need_mono(ps, q, ps.len() - 1); }
    assert forall|h: int| 0 <= h < u.len() implies ent(w, #[trigger] u[h], false, h == top) by {
        if h <= i { assert(ent(t, s[h], false, h == s.len() - 1)); alt_lo(t, s, b, false, i, h); }
        else { let q = h - i - 1; assert(pent(u[i + 1 + q], ps, q, c, m - b.base)); assert(push_ok(rl(s[i]), ps, q)); assert(0 <= need(ps, q) <= opl); }
    }
    assert forall|h: int, g: int| 0 <= h <= g < u.len() implies (#[trigger] u[h]).tni <= (#[trigger] u[g]).tni by {
        if g <= i { assert(s[h].tni <= s[g].tni); }
        else {
            let q = g - i - 1;
            assert(pent(u[i + 1 + q], ps, q, c, m - b.base));
            if h <= i { alt_lo(t, s, b, false, i, h); assert(0 <= need(ps, q)); }
            else { let p = h - i - 1; assert(pent(u[i + 1 + p], ps, p, c, m - b.base)); need_mono(ps, p, q); }
        }
    }
    assert forall|h: int| 0 <= h <= i implies (#[trigger] s[h]).tni >= 0 by { assert(ent(t, s[h], false, h == s.len() - 1)); }
    assert forall|g: int| i < g < u.len() implies (#[trigger] u[g]).tni >= c && u[g].en by { let q = g - i - 1; assert(pent(u[i + 1 + q], ps, q, c, m - b.base)); assert(0 <= need(ps, q)); }
    assert forall|j: int| 0 <= j < u.len() && alt(#[trigger] u[j]) implies alt_ok(w, u, b, false, j) by {
        if j <= i { reuse_old(t, w, s, u, b, i, j, c); } else { reuse_new(t, w, s, u, b, i, j, c, opl, r); }
    }
}
proof fn reuse_old<'a, T: Token>(t: Seq<InternalNode>, w: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, i: int, j: int, c: int)
    requires
        0 <= j <= i < s.len(), i < u.len(), alt(u[j]), alt(s[i]), c == cc(s[i]), alts(t, s, b, false), c < w.len(), c < t.len(), w.take(c) == t.take(c),
        forall|x: int| 0 <= x < c ==> #[trigger] w[x] == t[x],
        forall|h: int| 0 <= h < i ==> #[trigger] u[h] == s[h],
        u[i] == (E { count: (bp(s[i].mode)->0).children_count + 1, dfa: u[i].dfa, mode: u[i].mode, ..s[i] }),
        bp(u[i].mode) == bp(s[i].mode), u[i].mode is LastAlternative, rl(u[i]) == rl(s[i]), lr(rl(s[i])) ==> inalt(u[i].dfa),
        forall|g: int| i < g < u.len() ==> (#[trigger] u[g]).tni >= c && u[g].en,
        forall|h: int| 0 <= h <= i ==> (#[trigger] s[h]).tni >= 0,
    ensures alt_ok(w, u, b, false, j),
{
    assert(alt(s[j]));
    assert(alt_ok(t, s, b, false, j));
    assert(alt_ok(t, s, b, false, i));
    alt_facts(t, s, b, false, j);
    alt_facts(t, s, b, false, i);
    reveal(alt_ok);
    let d = cc(s[j]);
    assert(d <= c);
    assert(t.take(d) =~= t.take(c).take(d));
    assert(w.take(d) =~= t.take(d));
    assert forall|h: int| 0 <= h <= j implies lo(w, #[trigger] u[h], d, h < j, mkm(u[j])) by { assert(lo(t, s[h], d, h < j, mkm(s[j]))); }
    assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, false) by {
        if g <= i { assert(hi(s[j], s[g], g == j, false)); assert(lo(t, s[i], c, false, mkm(s[i]))); }
    }
    assert(u[j - 1] == s[j - 1]);
    assert forall|h: int| 0 <= h < j && alt(#[trigger] u[h]) implies cc(u[h]) <= d by { assert(u[h] == s[h]); assert(alt(s[h])); }
}
proof fn reuse_new<'a, T: Token>(t: Seq<InternalNode>, w: Seq<InternalNode>, s: Seq<E<'a>>, u: Seq<E<'a>>, b: Bt<T>, i: int, j: int, c: int, opl: int, r: ReusableFirstNonterminal)
    requires
        0 <= i < j < u.len(), i < s.len(), alt(u[j]), alt(s[i]), c == cc(s[i]), alts(t, s, b, false), greuse(r, rl(s[i])), opl == r.tree_nodes_needed_for_pushes,
        u.len() == i + 1 + r.pushes@.len(), c + opl < w.len(), w.take(c) == t.take(c),
        forall|h: int| 0 <= h <= i ==> (#[trigger] s[h]).tni >= 0,
        forall|x: int| 0 <= x < c ==> #[trigger] w[x] == t[x],
        forall|x: int| c <= x <= c + opl ==> !leaf(#[trigger] w[x]) && w[x].start_index == b.all[b.base + (bp(s[i].mode)->0).token_index].st(),
        forall|y: int| c <= y <= c + opl ==> leaves(#[trigger] w.take(y)) == toks(b.all, b.base + (bp(s[i].mode)->0).token_index),
        forall|h: int| 0 <= h < i ==> #[trigger] u[h] == s[h],
        u[i] == (E { count: (bp(s[i].mode)->0).children_count + 1, dfa: u[i].dfa, mode: u[i].mode, ..s[i] }),
        bp(u[i].mode) == bp(s[i].mode), u[i].mode is LastAlternative, rl(u[i]) == rl(s[i]),
        forall|q: int| 0 <= q < r.pushes@.len() ==> pent(#[trigger] u[i + 1 + q], r.pushes@, q, c, (bp(s[i].mode)->0).token_index as int),
    ensures alt_ok(w, u, b, false, j),
{
    reuse_facts(r, rl(s[i]));
    let ps = r.pushes@;
    let ti = (bp(s[i].mode)->0).token_index as int;
    let q = j - i - 1;
    assert(alt_ok(t, s, b, false, i));
    alt_facts(t, s, b, false, i);
    assert(pent(u[i + 1 + q], ps, q, c, ti));
    assert(is_alt(ps[q]));
    assert(push_ok(rl(s[i]), ps, q));
    assert(mkp(ps[q]));
    need_mono(ps, q, ps.len() - 1);
    let d = cc(u[j]);
    assert(d == c + need(ps, q));
    assert(ready(w.take(d), b.all[b.base + ti].st() as int)) by { if d > c { assert(!leaf(w[d - 1])); } }
    assert(leaves(w.take(d)) == toks(b.all, b.base + ti));
    assert forall|h: int| 0 <= h <= j implies lo(w, #[trigger] u[h], d, h < j, mkm(u[j])) by {
        if h <= i { alt_lo(t, s, b, false, i, h); }
        else { let p = h - i - 1; assert(pent(u[i + 1 + p], ps, p, c, ti)); need_mono(ps, p, q); need_mono(ps, p, ps.len() - 1); assert(push_ok(rl(s[i]), ps, p)); }
    }
    assert forall|g: int| j <= g < u.len() implies hi(u[j], #[trigger] u[g], g == j, false) by { let p = g - i - 1; assert(pent(u[i + 1 + p], ps, p, c, ti)); need_mono(ps, q, p); }
    assert(rl(u[j - 1]) == rl(u[j])) by { if q > 0 { assert(pent(u[i + 1 + (q - 1)], ps, q - 1, c, ti)); } }
    assert forall|h: int| 0 <= h < j && alt(#[trigger] u[h]) implies cc(u[h]) <= d by {
        if h < i { assert(u[h] == s[h]); alt_mono(t, s, b, i, h); }
        else if h > i { let p = h - i - 1; assert(pent(u[i + 1 + p], ps, p, c, ti)); need_mono(ps, p, q); }
    }
    reveal(alt_ok);
}
proof fn alt_mono<T: Token>(t: Seq<InternalNode>, s: Seq<E>, b: Bt<T>, i: int, h: int)
    requires alt_ok(t, s, b, false, i), 0 <= h < i, alt(s[h]),
    ensures cc(s[h]) <= cc(s[i]),
{ reveal(alt_ok); }
