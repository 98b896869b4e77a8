#![allow(warnings)]
// C06: string literals (crates/parsa_python_cst/src/strings.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;

type CodeIndex = u32;
//@include str_spec.inc
//@include strings_spec.inc

//@include strings_common.inc
//@enum PythonString
spec fn value(p: PythonString) -> Option<Seq<u8>> { match p { PythonString::Ref(_, s) => Some(bts(s)), PythonString::String(_, s) => Some(bs(s)), PythonString::FString => None } }
spec fn origin(p: PythonString) -> Option<int> { match p { PythonString::Ref(i, s) => Some(i as int), PythonString::String(i, s) => Some(i as int), PythonString::FString => None } }
//@fn PythonString::remove_carriage_returns_from_raw_literal
//@sig fn remove_carriage_returns_from_raw_literal<'db>(literal_start: CodeIndex, literal_inner: &'db str) -> (r: PythonString<'db>)
//@tyrw Self :: ==> PythonString ::
//@rw $x.as_bytes().contains($c) ==> vx_contains(vx_bytes($x), $c)
//@rw $x.chars().peekable() ==> vx_chars($x)
//@rw String::with_capacity($x) ==> vx_string()
//@rw iterator.next() ==> iterator.vx_next()
//@rw iterator.peek() ==> iterator.vx_peek()
//@rw $s.push($x) ==> $s.vx_push($x)
    ensures value(r) == Some(rawdec(bts(literal_inner), 0)), origin(r) == Some(literal_start as int),
//@begin
    let ghost b__ = bts(literal_inner);
    proof {
        if forall|k: int| 0 <= k < b__.len() ==> #[trigger] b__[k] != 13 { raw_skip(b__, 0, b__.len() as int); assert(b__.subrange(0, b__.len() as int) + rawdec(b__, b__.len() as int) =~= b__); }
        assert(Seq::<u8>::empty() + rawdec(b__, 0) =~= rawdec(b__, 0));
    }
//@loop 0
    invariant
        b__ == bts(literal_inner), iterator.it.b() == b__, 0 <= iterator.it.at() <= b__.len(), bnd(b__, iterator.it.at()),
        bs(string) + rawdec(b__, iterator.it.at()) == rawdec(b__, 0),
    ensures bs(string) == rawdec(b__, 0),
    decreases b__.len() - iterator.it.at(),
//@loopbegin 0
    let ghost k__ = iterator.it.at();
    let ghost a__ = bs(string);
    proof {
        assert(a__ + rawdec(b__, b__.len() as int) =~= a__);
        if k__ < b__.len() && b__[k__] != 13 {
            assert forall|j: int| k__ < j <= b__.len() && (forall|k: int| k__ < k < j ==> cont(#[trigger] b__[k])) implies a__ + #[trigger] b__.subrange(k__, j) + rawdec(b__, j) =~= rawdec(b__, 0) by { raw_skip(b__, k__, j); }
        }
        if k__ < b__.len() && b__[k__] == 13 { assert(a__ + cr(b__, k__) + rawdec(b__, k__ + 1) =~= rawdec(b__, 0)); }
    }
//@end
//@fn PythonString::union
//@sig fn union<'db>(self_: PythonString<'db>, other: PythonString<'db>) -> (r: PythonString<'db>)
//@tyrw Self :: ==> PythonString ::
//@tyrw self ==> self_
//@rw $x.to_owned() + &$y ==> vx_add(vx_owned($x), vx_ref(&$y))
//@rw $x.to_owned() + $y ==> vx_add(vx_owned($x), $y)
//@rw $x + &$y ==> vx_add($x, vx_ref(&$y))
//@rw $x + $y ==> vx_add($x, $y)
    ensures
        value(r) == (match (value(self_), value(other)) { (Some(a), Some(b)) => Some(a + b), _ => None }),
        r is FString || origin(r) == origin(self_),
//@end
//@fn PythonString::new
//@sig fn new_<'db>(strings: SiblingIterator<'db>) -> (r: PythonString<'db>)
//@tyrw PythonString :: from_literal ==> from_literal
//@tyrw Self :: from_literal ==> from_literal
//@tyrw Option < Self > ==> Option < PythonString < 'db > >
//@rw $s.union($x) ==> union($s, $x)
//@rw $s.unwrap() ==> vx_unwrap($s)
    requires strings.k == 0, strings.v@.len() > 0,
    ensures
        value(r) == all(strings.v@, strings.v@.len() as int),
        r is FString || origin(r) == start_of(strings.v@[0]),
//@loop 0
    invariant
        it__0.v == strings.v, strings.v@.len() > 0, it__0.k <= it__0.v@.len(), result is None <==> it__0.k == 0,
        result is Some ==> value(result->0) == all(it__0.v@, it__0.k as int) && (result->0 is FString || origin(result->0) == start_of(it__0.v@[0])),
    ensures it__0.k == it__0.v@.len(),
    decreases it__0.v@.len() - it__0.k,
//@end
/// The value of one literal, of the first n.
spec fn one(l: PyNode) -> Option<Seq<u8>> { if l.is_f() { None } else if is_raw(l.text()) { Some(rawdec(content(l.text()), 0)) } else { Some(dec(content(l.text()), 0, false)) } }
spec fn start_of(l: PyNode) -> Option<int> { Some(l.at() + qpos(l.text()) + qlen(l.text())) }
spec fn all(v: Seq<PyNode>, n: int) -> Option<Seq<u8>> decreases n {
    if n <= 0 { None } else if n == 1 { one(v[0]) } else { match (all(v, n - 1), one(v[n - 1])) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
struct SiblingIterator<'db> { v: Vec<PyNode<'db>>, k: usize }
impl<'db> SiblingIterator<'db> {
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<PyNode<'db>>)
        requires old(self).k <= old(self).v@.len(),
        ensures final(self).v == old(self).v,
            old(self).k < old(self).v@.len() ==> r == Some(old(self).v@[old(self).k as int]) && final(self).k == old(self).k + 1,
            old(self).k == old(self).v@.len() ==> r is None && final(self).k == old(self).k,
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures bs(r) == bts(s) { s.to_owned() }
#[verifier::external_body]
fn vx_ref(s: &String) -> (r: &str) ensures bts(r) == bs(*s) { s }
#[verifier::external_body]
fn vx_add(a: String, b: &str) -> (r: String) ensures bs(r) == bs(a) + bts(b) { a + b }
fn vx_unwrap<T>(o: Option<T>) -> (r: T) requires o is Some, ensures o == Some(r) { o.unwrap() }
//@fn PythonString::from_literal
//@sig fn from_literal<'db>(literal: PyNode<'db>) -> (r: PythonString<'db>)
//@tyrw Self :: ==> PythonString ::
//@derefmatch ch
//@rw $l.is_type(Nonterminal(fstring)) ==> $l.vx_is_fstring()
//@rw Self::remove_carriage_returns_from_raw_literal($a, $b) ==> remove_carriage_returns_from_raw_literal($a, $b)
//@rw inner.as_bytes().iter().enumerate().peekable() ==> vx_enum(vx_bytes(inner))
//@rw iterator.next() ==> iterator.vx_next()
//@rw iterator.peek().map(|$x| $e).unwrap_or_else(|| $f) ==> (match iterator.vx_peek() { Some($x) => $e, None => $f })
//@rw iterator.peek() ==> iterator.vx_peek()
//@rw String::with_capacity($x) ==> vx_string()
//@rw string.as_mut().unwrap() ==> vx_mut(&mut string)
//@rw $s.push_str("\\N") ==> $s.vx_push_str(vx_backslash_n())
//@rw $s.push_str($x) ==> $s.vx_push_str($x)
//@rw $s.push($x) ==> $s.vx_push($x)
//@rw &inner[$a..$b] ==> vx_slice(inner, $a, $b)
//@rw &inner[$a..] ==> vx_slice_from(inner, $a)
//@rw &inner.as_bytes()[$a..] ==> vx_from(vx_bytes(inner), $a)
//@rw inner.len() ==> vx_len(inner)
//@rw $x.as_bytes() ==> vx_bytes($x)
//@rw $x.chars().next() ==> vx_first($x)
//@rw $c.len_utf8() ==> vx_len_utf8($c)
    ensures
        literal.is_f() ==> r is FString,
        !literal.is_f() ==> value(r) == Some(if is_raw(literal.text()) { rawdec(content(literal.text()), 0) } else { dec(content(literal.text()), 0, false) })
            && origin(r) == Some(literal.at() + qpos(literal.text()) + qlen(literal.text())),
//@after let mut previous_insert = 0;
    let ghost b__ = bts(inner);
    proof {
        utf8(inner); utf8_follow(inner);
        assert(b__.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + b__.subrange(0, 0) + dec(b__, 0, false) =~= dec(b__, 0, false));
    }
//@loop 0
    invariant
        b__ == bts(inner), starts_ok(b__), utf8_ends(b__), iterator.v@ == b__, inv(b__, acc(string), previous_insert as int, iterator.k as int, false), string is None ==> previous_insert == 0,
    ensures iterator.k == b__.len(),
    decreases b__.len() - iterator.k,
//@loopbegin 0
    let ghost k__ = iterator.k as int;
    let ghost p__ = previous_insert as int;
    let ghost a__ = acc(string);
    let ghost e__ = esc(b__, k__, false);
    proof {
        if k__ < b__.len() { all_steps(b__, a__, p__, k__, false); chars_are(); }
        if k__ + 1 < b__.len() { oct_shift(b__, k__ + 1); hex_shift(b__, k__ + 2, 2); hex_shift(b__, k__ + 2, 4); hex_shift(b__, k__ + 2, 8); }
    }
//@after let c = vx_first
    proof { first_at(b__, k__ + 1, c8(c)); }
//@before previous_insert = (match
    proof {
        if b__[k__ + 1] < 0x80 { assert(bs(*s) =~= a__ + b__.subrange(p__, k__) + e__.0); assert(iterator.k == k__ + e__.1); }
        else { assert(conts(b__, k__ + 2, iterator.k as int)); assert(bs(*s) =~= a__ + b__.subrange(p__, k__) + seq![92u8] + b__.subrange(k__ + 1, iterator.k as int)); }
    }
//@loop 1
    invariant iterator.v@ == b__, iterator.k == k__ + 2 + i__1, i__1 <= n__1, k__ + 2 + n__1 <= b__.len(),
    decreases n__1 - i__1,
//@loop 2
    invariant iterator.v@ == b__, iterator.k == k__ + 1 + i__2, i__2 <= n__2, k__ + 1 + n__2 <= b__.len(),
    decreases n__2 - i__2,
//@loop 3
    invariant iterator.v@ == b__, iterator.k == k__ + 1 + i__3, i__3 <= n__3, k__ + 1 + n__3 <= b__.len(),
    decreases n__3 - i__3,
//@end
}
fn main() {}
