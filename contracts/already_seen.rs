#![allow(warnings)]
// C14: the recursion guard (crates/utils/src/lib.rs)
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {

//@file crates/utils/src/lib.rs
//@rw $it.any(|$p| $b) ==> { let mut it__ = $it; let mut found__ = false; loop { match it__.next() { Some(x__) => { let $p = x__; if $b { found__ = true; break; } }, None => { break; } } } found__ }

//@struct AlreadySeen
//@struct AlreadySeenIterator

/// The items of a chain, newest first.
spec fn chain<'a, T>(o: Option<&'a AlreadySeen<'a, T>>) -> Seq<T>
    decreases o
{
    match o {
        None => Seq::empty(),
        Some(a) => seq![a.current] + chain(a.previous),
    }
}

proof fn chain_unfold<'a, T>(a: &'a AlreadySeen<'a, T>)
    ensures chain(Some(a)) == seq![a.current] + chain(a.previous), chain(Some(a)).len() > 0
{}

spec fn eq_in<T: PartialEq>(x: T, s: Seq<T>) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).eq_spec(&x)
}

impl<'a, T> AlreadySeen<'a, T> {
//@fn AlreadySeen::new
    ensures r.current == current, r.previous is None,
//@end

//@fn AlreadySeen::iter_ancestors
    ensures chain(r.0) == chain(self.previous), r.0 == self.previous,
//@end

//@fn AlreadySeen::append
    ensures
        r.current == current,
        r.previous == Some(self),
//@end
}

impl<'a, T> AlreadySeenIterator<'a, T> {
//@fn AlreadySeenIterator:Iterator::next
//@tyrw Self :: Item ==> &'a T
    ensures
        chain(old(self).0).len() == 0 ==> r is None && chain(final(self).0).len() == 0,
        chain(old(self).0).len() > 0 ==> r is Some && *(r->0) == chain(old(self).0)[0]
            && chain(final(self).0) == chain(old(self).0).drop_first(),
        old(self).0 is None <==> r is None,
        (old(self).0 is Some ==> final(self).0 == (old(self).0->0).previous),
//@begin
    proof {
        if self.0 is Some {
            assert(chain(self.0) == seq![(self.0->0).current] + chain((self.0->0).previous));
            assert(chain(self.0).drop_first() =~= chain((self.0->0).previous));
        }
    }
//@end
}

impl<'a, T: PartialEq<T>> AlreadySeen<'a, T> {
//@fn AlreadySeen::is_cycle
    requires T::obeys_eq_spec(),
    ensures r == eq_in(self.current, chain(self.previous)),
//@after let mut found__ = false;
    let ghost mut k__: int = 0;
    let ghost c__ = chain(self.previous);
    assert(c__.skip(0) =~= c__);
//@loop 0
        invariant_except_break
            !found__,
            0 <= k__ <= c__.len(),
            chain(it__.0) == c__.skip(k__),
            it__.0 is None <==> k__ == c__.len(),
            forall|i: int| 0 <= i < k__ ==> !(#[trigger] c__[i]).eq_spec(&self.current),
        invariant
            T::obeys_eq_spec(),
            c__ == chain(self.previous),
        ensures
            found__ == eq_in(self.current, c__),
        decreases c__.len() - k__,
//@loopbegin 0
        proof {
            if k__ < c__.len() {
                assert(c__.skip(k__).drop_first() =~= c__.skip(k__ + 1));
                assert(c__.skip(k__)[0] == c__[k__]);
                assert(chain((it__.0->0).previous) =~= chain(it__.0).drop_first());
            } 
        }
//@loopend 0
        proof { k__ = k__ + 1; }
//@end
}

}
fn main() {}
