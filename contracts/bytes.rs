#![allow(warnings)]
// C07: bytes literals (crates/parsa_python_cst/src/bytes.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;

type CodeIndex = u32;
//@include str_spec.inc
//@include strings_spec.inc

//@include strings_common.inc

// ---- bytes literals
enum VxCow<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
spec fn cow(c: VxCow) -> Seq<u8> { match c { VxCow::Borrowed(x) => x@, VxCow::Owned(v) => v@ } }
spec fn bacc(s: Option<Vec<u8>>) -> Seq<u8> { match s { None => Seq::empty(), Some(x) => x@ } }
fn vx_extend(v: &mut Vec<u8>, x: &[u8], a: usize, z: usize)
    requires a <= z <= x@.len(), ensures final(v)@ == old(v)@ + x@.subrange(a as int, z as int)
{
    let mut i = a;
    while i < z invariant a <= i <= z <= x@.len(), v@ == old(v)@ + x@.subrange(a as int, i as int) decreases z - i { v.push(x[i]); i += 1; proof { assert(old(v)@ + x@.subrange(a as int, i as int) =~= (old(v)@ + x@.subrange(a as int, i - 1)).push(x@[i - 1])); } }
}
fn vx_get_or_insert<'a>(o: &'a mut Option<Vec<u8>>) -> (r: &'a mut Vec<u8>) ensures r@ == bacc(*old(o)), *final(o) == Some(*final(r))
{ if o.is_none() { *o = Some(Vec::new()); } vx_mut(o) }
fn vx_u8(c: char) -> (r: u8) ensures r == ord(c) % 256 { (c as u32 % 256) as u8 }
#[verifier::external_body]
fn vx_crlf_to_lf(s: &str) -> (r: String) ensures bs(r) == drop_crlf(bts(s), 0) { s.replace("\r\n", "\n") }
#[verifier::external_body]
fn vx_cr_to_lf(s: &String) -> (r: String) ensures bs(r) == map_cr(bs(*s)) { s.replace('\r', "\n") }
#[verifier::external_body]
fn vx_into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == bs(s) { s.into_bytes() }
/// replace("\r\n", "\n") and replace('\r', "\n").
spec fn drop_crlf(b: Seq<u8>, i: int) -> Seq<u8> decreases b.len() - i {
    if i < 0 || i >= b.len() { Seq::empty() } else if b[i] == 13 && i + 1 < b.len() && b[i + 1] == 10 { seq![10u8] + drop_crlf(b, i + 2) } else { seq![b[i]] + drop_crlf(b, i + 1) }
}
spec fn map_cr(b: Seq<u8>) -> Seq<u8> { Seq::new(b.len(), |i: int| if b[i] == 13 { 10u8 } else { b[i] }) }
proof fn raw_bytes(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), ensures map_cr(drop_crlf(b, i)) == rawdec(b, i), decreases b.len() - i
{
    if i < b.len() {
        if b[i] == 13 && i + 1 < b.len() && b[i + 1] == 10 {
            raw_bytes(b, i + 2);
            assert(rawdec(b, i) =~= rawdec(b, i + 1));
            assert(map_cr(seq![10u8] + drop_crlf(b, i + 2)) =~= seq![10u8] + map_cr(drop_crlf(b, i + 2)));
        } else {
            raw_bytes(b, i + 1);
            let c = if b[i] == 13 { 10u8 } else { b[i] };
            assert(map_cr(seq![b[i]] + drop_crlf(b, i + 1)) =~= seq![c] + map_cr(drop_crlf(b, i + 1)));
        }
    } else { assert(map_cr(drop_crlf(b, i)) =~= Seq::<u8>::empty()); }
}
proof fn raw_plain(b: Seq<u8>) requires forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] != 13, ensures rawdec(b, 0) == b
{ raw_skip(b, 0, b.len() as int); assert(b.subrange(0, b.len() as int) + rawdec(b, b.len() as int) =~= b); }
//@file crates/parsa_python_cst/src/bytes.rs
//@fn parse_python_bytes_literal
//@sig fn parse_python_bytes_literal<'a>(literal: PyNode<'a>) -> (r: VxCow<'a>)
//@tyrw Cow :: ==> VxCow ::
//@rw $x.replace("\r\n", "\n").replace('\r', "\n") ==> vx_cr_to_lf(&vx_crlf_to_lf($x))
//@rw $x.into_bytes() ==> vx_into_bytes($x)
//@rw $x.contains($c) ==> vx_contains($x, $c)
//@rw $x.iter().enumerate() ==> vx_enum($x)
//@rw $x.as_bytes() ==> vx_bytes($x)
//@rw iterator.next() ==> iterator.vx_next()
//@rw ch == &$b ==> *ch == $b
//@rw Vec::with_capacity($x) ==> Vec::new()
//@rw out.as_mut().unwrap() ==> vx_mut(&mut out)
//@rw out.get_or_insert_with(|| $e) ==> vx_get_or_insert(&mut out)
//@rw s.extend_from_slice(&inner_bytes[$a..$b]) ==> vx_extend(s, inner_bytes, $a, $b)
//@rw out.extend_from_slice(&inner_bytes[$a..$b]) ==> vx_extend(&mut out, inner_bytes, $a, $b)
//@rw inner_bytes.get($i) == Some(&$c) ==> ($i < inner_bytes.len() && inner_bytes[$i] == $c)
//@rw inner_bytes.get($i) != Some(&$c) ==> !($i < inner_bytes.len() && inner_bytes[$i] == $c)
//@rw &inner_bytes[$a..] ==> vx_from(inner_bytes, $a)
//@rw c as u8 ==> vx_u8(c)
//@rw octal as u8 ==> vx_u8(octal)
    requires !literal.is_f(),
    ensures cow(r) == (if is_raw(literal.text()) { rawdec(content(literal.text()), 0) } else { dec(content(literal.text()), 0, true) }),
//@after let inner_bytes = vx_bytes
    let ghost b__ = inner_bytes@;
    proof {
        utf8(unpacked.inner); utf8_follow(unpacked.inner);
        raw_bytes(b__, 0);
        if forall|k: int| 0 <= k < b__.len() ==> #[trigger] b__[k] != 13 { raw_plain(b__); }
        assert(b__.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + b__.subrange(0, 0) + dec(b__, 0, true) =~= dec(b__, 0, true));
    }
//@loop 0
    invariant
        b__ == inner_bytes@, b__.len() <= usize::MAX, starts_ok(b__), utf8_ends(b__), iterator.v@ == b__, inv(b__, bacc(out), previous_insert as int, iterator.k as int, true), out is None ==> previous_insert == 0,
    ensures iterator.k == b__.len(),
    decreases b__.len() - iterator.k,
//@loopbegin 0
    let ghost k__ = iterator.k as int;
    let ghost p__ = previous_insert as int;
    let ghost a__ = bacc(out);
    let ghost e__ = esc(b__, k__, true);
    proof {
        if k__ < b__.len() { all_steps(b__, a__, p__, k__, true); }
        if k__ + 1 < b__.len() { oct_shift(b__, k__ + 1); hex_shift(b__, k__ + 2, 2); }
    }
//@loopend 0
    proof {
        if b__[k__] == 92 { assert(bacc(out) =~= a__ + b__.subrange(p__, k__) + e__.0); assert(iterator.k == k__ + e__.1); }
        else if b__[k__] == 13 { assert(bacc(out) =~= a__ + b__.subrange(p__, k__) + cr(b__, k__)); }
    }
//@loop 1
    invariant b__ == inner_bytes@, b__.len() <= usize::MAX, iterator.v@ == b__, iterator.k == k__ + 1 + i__1, previous_insert == k__ + 1 + i__1, i__1 <= n__1, k__ + 1 + n__1 <= b__.len(),
    decreases n__1 - i__1,
//@end
}
fn main() {}
