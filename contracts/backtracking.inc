/// The crate's Token trait, with what its two methods return.
trait Token: Copy {
    spec fn st(&self) -> u32;
    spec fn len(&self) -> u32;
    fn start_index(&self) -> (r: u32) ensures r == self.st();
    fn length(&self) -> (r: u32) ensures r == self.len();
}
/// What is assumed of the wrapped tokenizer: it hands out a fixed sequence once, in order, and stays at its end.
trait VxStream<T>: Sized {
    spec fn all(&self) -> Seq<T>;
    spec fn at(&self) -> int;
    proof fn bounds(&self) ensures 0 <= self.at() <= self.all().len();
    fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            0 <= old(self).at() <= old(self).all().len(),
            old(self).at() < old(self).all().len() ==> r == Some(old(self).all()[old(self).at()]) && final(self).at() == old(self).at() + 1,
            old(self).at() >= old(self).all().len() ==> r is None && final(self).at() == old(self).at();
}

/// `v.iter().enumerate().rev()`, executed and verified here; only its correspondence with std is assumed.
struct VxEnumRev<'a, T> { v: &'a Vec<T>, k: usize }
fn vx_enum_rev<'a, T>(v: &'a Vec<T>) -> (r: VxEnumRev<'a, T>) ensures r.v == v, r.k == v@.len() { VxEnumRev { v, k: v.len() } }
fn vx_into_iter<X>(x: X) -> (r: X) ensures r == x { x }
impl<'a, T> VxEnumRev<'a, T> {
    fn vx_next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).k <= old(self).v@.len(),
        ensures
            final(self).v == old(self).v,
            old(self).k > 0 ==> r is Some && (r->0).0 == old(self).k - 1 && *(r->0).1 == old(self).v@[old(self).k - 1] && final(self).k == old(self).k - 1,
            old(self).k == 0 ==> r is None && final(self).k == 0,
    {
        if self.k > 0 { self.k = self.k - 1; Some((self.k, &self.v[self.k])) } else { None }
    }
}

//@file crates/parsa/src/backtracking.rs
//@rw $x.iter().enumerate().rev() ==> vx_enum_rev(&$x)
//@rw debug_assert_ne!($a, $b) ==> vx_assert($a != $b)
//@tyrw I : Iterator<Item = T> ==> I: VxStream<T>
//@struct BacktrackingTokenizer

impl<T: Token, I: VxStream<T>> BacktrackingTokenizer<T, I> {
    /// The whole token sequence of the source.
    spec fn all(&self) -> Seq<T> { self.tokenizer.all() }
    /// Where in it the buffer starts.
    spec fn base(&self) -> int { self.tokenizer.at() - self.tokens@.len() }
    /// The index of the token that is delivered next.
    spec fn pos(&self) -> int { if self.tokens@.len() == 0 { self.tokenizer.at() } else { self.base() + self.next_index } }
    /// The buffer is the stretch of the sequence that ends where the tokenizer stands.
    spec fn wf(&self) -> bool {
        &&& 0 <= self.base() && self.tokenizer.at() <= self.all().len()
        &&& self.tokens@ == self.all().subrange(self.base(), self.tokenizer.at())
        &&& self.is_recording ==> self.tokens@.len() > 0
        &&& self.next_index > self.tokens@.len() && self.tokens@.len() > 0 ==> self.tokenizer.at() == self.all().len()
    }

//@fn BacktrackingTokenizer::new
    requires tokenizer.at() == 0,
    ensures r.wf(), r.pos() == 0, r.all() == tokenizer.all(), !r.is_recording, r.tokens@.len() == 0,
//@begin
    proof { tokenizer.bounds(); assert(tokenizer.all().subrange(0, 0) =~= Seq::<T>::empty()); }
//@end

/// Starting speculation at the token just delivered: nothing is consumed, and the handle names that token.
//@fn BacktrackingTokenizer::start
    requires old(self).wf(), 0 < old(self).pos() <= old(self).all().len(), *token == old(self).all()[old(self).pos() - 1], old(self).tokens@.len() > 0 ==> old(self).next_index > 0,
    ensures
        final(self).wf(), final(self).is_recording, final(self).all() == old(self).all(), final(self).pos() == old(self).pos(),
        final(self).base() + r == final(self).pos() - 1, r < final(self).tokens@.len(),
        old(self).tokens@.len() > 0 ==> final(self).base() == old(self).base() && final(self).tokens@ == old(self).tokens@, final(self).next_index > 0,
//@begin
    proof {
        self.tokenizer.bounds();
        if self.tokens@.len() == 0 {
            let p = self.tokenizer.at();
            assert(self.all().subrange(p - 1, p) =~= seq![*token]);
            assert(self.tokens@.push(*token) =~= seq![*token]);
        }
    }
//@end

/// Rewinding delivers the tokens from the remembered one on again.
//@fn BacktrackingTokenizer::reset
    requires old(self).wf(), token_index < old(self).tokens@.len(),
    ensures final(self).wf(), final(self).all() == old(self).all(), final(self).pos() == old(self).base() + token_index, final(self).base() == old(self).base(),
        final(self).is_recording == old(self).is_recording, final(self).tokens@ == old(self).tokens@,
//@end

/// Committing drops nothing: what was recorded and not yet delivered still comes.
//@fn BacktrackingTokenizer::stop
    requires old(self).wf(),
    ensures final(self).wf(), final(self).all() == old(self).all(), final(self).pos() == old(self).pos(), final(self).base() == old(self).base(), !final(self).is_recording,
        final(self).tokens@ == old(self).tokens@,
//@end

/// Rewinding to a leaf of the tree: delivery goes on right after the token that became this leaf.
//@fn BacktrackingTokenizer::reset_to_last_leaf
    requires old(self).wf(), old(self).is_recording, leaf.length != 0,
        exists|i: int| 0 <= i < old(self).tokens@.len() && (#[trigger] old(self).tokens@[i]).st() == leaf.start_index && old(self).tokens@[i].len() == leaf.length,
    ensures
        final(self).wf(), final(self).all() == old(self).all(), final(self).base() == old(self).base(), final(self).is_recording, final(self).tokens@ == old(self).tokens@,
        final(self).base() < final(self).pos() <= final(self).tokenizer.at(),
        final(self).all()[final(self).pos() - 1].st() == leaf.start_index,
        final(self).all()[final(self).pos() - 1].len() == leaf.length,
//@loop 0
    invariant_except_break
        true,
    invariant
        it__0.v@ == self.tokens@, it__0.k <= it__0.v@.len(), *self == *old(self), self.wf(), self.is_recording, leaf.length != 0,
        exists|i: int| 0 <= i < it__0.k && (#[trigger] self.tokens@[i]).st() == leaf.start_index && self.tokens@[i].len() == leaf.length,
    ensures false,
    decreases it__0.k,
//@end

/// The next token of the sequence, every time; while recording, handles stay valid (the base does not move).
//@fn BacktrackingTokenizer:Iterator::next
//@tyrw Self :: Item ==> T
    requires old(self).wf(), old(self).next_index < usize::MAX,
    ensures
        final(self).wf(), final(self).all() == old(self).all(), final(self).is_recording == old(self).is_recording,
        0 <= old(self).pos(),
        old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
        old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() >= old(self).all().len(),
        old(self).is_recording ==> final(self).base() == old(self).base() && final(self).tokens@.len() >= old(self).tokens@.len(),
        final(self).tokens@.len() > 0 ==> final(self).next_index > 0 && final(self).base() == old(self).base(),
//@begin
    proof {
        self.tokenizer.bounds();
        let (b, p, s) = (self.base(), self.tokenizer.at(), self.all());
        if p < s.len() { assert(s.subrange(b, p).push(s[p]) =~= s.subrange(b, p + 1)); }
        assert(s.subrange(p, p) =~= Seq::<T>::empty());
        assert(p < s.len() ==> s.subrange(p + 1, p + 1) =~= Seq::<T>::empty());
        if self.tokens@.len() == 0 { assert(self.tokens@ =~= Seq::<T>::empty()); }
    }
//@end
}

/// Tokens do not overlap and appear in order (C01): then at most one token of nonzero length has a given place,
/// so reset_to_last_leaf continues after exactly the token that became the leaf.
spec fn ordered<T: Token>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).st() + s[i].len() <= (#[trigger] s[j]).st() }
proof fn leaf_unique<T: Token>(s: Seq<T>, i: int, j: int)
    requires ordered(s), 0 <= i < s.len(), 0 <= j < s.len(), s[i].st() == s[j].st(), s[i].len() == s[j].len(), s[i].len() != 0,
    ensures i == j,
{
    if i < j { assert(s[i].st() + s[i].len() <= s[j].st()); } else if j < i { assert(s[j].st() + s[j].len() <= s[i].st()); }
}

