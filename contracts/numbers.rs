#![allow(warnings)]
// C25: number literals (crates/parsa_python_cst/src/lib.rs)
use vstd::prelude::*;
mod num_traits { pub trait Num {} }
verus! {
global size_of usize == 8;
type B = Seq<u8>;
//@include str_spec.inc
// ---- std, on bytes
#[verifier::external_body]
fn vx_contains(s: &str, c: char) -> (r: bool) requires (c as u32) < 128 ensures r == occurs(bts(s), c as u8) { s.contains(c) }
#[verifier::external_body]
fn vx_contains3(s: &str, a: char, c: char, d: char) -> (r: bool) requires (a as u32) < 128, (c as u32) < 128, (d as u32) < 128
    ensures r == (occurs(bts(s), a as u8) || occurs(bts(s), c as u8) || occurs(bts(s), d as u8)) { s.contains([a, c, d]) }
uninterp spec fn stb(s: String) -> B;
#[verifier::external_body]
fn vx_remove(s: &str, c: char, by: &str) -> (r: String) requires (c as u32) < 128, by@.len() == 0 ensures stb(r) == without(bts(s), c as u8) { s.replace(c, by) }
#[verifier::external_body]
fn vx_str(s: &String) -> (r: &str) ensures bts(r) == stb(*s) { s }
#[verifier::external_body]
fn vx_strip_prefix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>) requires (c as u32) < 128
    ensures r is Some <==> bts(s).len() > 0 && bts(s)[0] == c as u8, r is Some ==> bts(r->0) == bts(s).skip(1) { s.strip_prefix(c) }
#[verifier::external_body]
fn vx_starts2(s: &str, a: char, c: char) -> (r: bool) requires (a as u32) < 128, (c as u32) < 128 ensures r == (bts(s).len() > 0 && (bts(s)[0] == a as u8 || bts(s)[0] == c as u8)) { s.starts_with([a, c]) }
#[verifier::external_body]
fn vx_first(s: &str) -> (r: Option<u8>) ensures r is None <==> bts(s).len() == 0, r is Some ==> r->0 == bts(s)[0] { s.as_bytes().first().copied() }
/// unreachable! must not be reached
#[verifier::external_body]
fn vx_never<T>() -> T requires false { unreachable!() }

// ---- num_bigint
#[verifier::external_body]
struct BigUint { x: u8 }
uninterp spec fn num(x: BigUint) -> nat;
#[verifier::external_body]
fn vx_big(n: usize) -> (r: BigUint) ensures num(r) == n { unimplemented!() }
/// from_str_radix(..).unwrap(), and parse().unwrap() with base 10: panics unless there are only digits, and at least one
#[verifier::external_body]
fn vx_radix(s: &str, base: u32) -> (r: BigUint)
    requires bts(s).len() > 0, 2 <= base <= 36, forall|i: int| 0 <= i < bts(s).len() ==> digit(#[trigger] bts(s)[i], base as int),
    ensures num(r) == value(bts(s), base as int),
{ unimplemented!() }

// ---- specification: Python's lexical definition of numbers
spec fn occurs(b: B, x: u8) -> bool { exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == x }
spec fn without(b: B, x: u8) -> B decreases b.len() { if b.len() == 0 { b } else if b.last() == x { without(b.drop_last(), x) } else { without(b.drop_last(), x).push(b.last()) } }
spec fn dig(x: u8) -> int { if 48 <= x <= 57 { x - 48 } else if 97 <= x <= 122 { x - 97 + 10 } else if 65 <= x <= 90 { x - 65 + 10 } else { 99 } }
spec fn digit(x: u8, base: int) -> bool { 0 <= dig(x) < base }
spec fn value(b: B, base: int) -> nat decreases b.len() { if b.len() == 0 { 0 } else { (value(b.drop_last(), base) * base + dig(b.last())) as nat } }
/// (_?digit)+, read from the end
spec fn run(b: B, base: int) -> bool decreases b.len() {
    b.len() > 0 && digit(b.last(), base) && {
        let r = b.drop_last();
        r.len() == 0 || run(r, base) || (r.last() == 95 && (r.len() == 1 || run(r.drop_last(), base)))
    }
}
/// digit (_?digit)*
spec fn part(b: B) -> bool { run(b, 10) && b[0] != 95 }
spec fn zeros(b: B) -> bool { part(b) && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 48 || b[i] == 95 }
spec fn base_of(x: u8) -> int { if x == 120 || x == 88 { 16 } else if x == 111 || x == 79 { 8 } else if x == 98 || x == 66 { 2 } else { 0 } }
spec fn radix_int(b: B) -> bool { b.len() > 2 && b[0] == 48 && base_of(b[1]) != 0 && run(b.skip(2), base_of(b[1])) }
spec fn is_int(b: B) -> bool { radix_int(b) || zeros(b) || (part(b) && b[0] != 48) }
/// The value of an integer literal
spec fn int_value(b: B) -> nat { if radix_int(b) { value(without(b.skip(2), 95), base_of(b[1])) } else { value(without(b, 95), 10) } }
spec fn exponent(b: B) -> bool { b.len() > 1 && (b[0] == 101 || b[0] == 69) && (part(b.skip(1)) || (b[1] == 43 || b[1] == 45) && part(b.skip(2))) }
/// digits? with a dot in them, one side of which may be empty
spec fn pointed(b: B) -> bool { exists|i: int| #[trigger] point_at(b, i) }
spec fn point_at(b: B, i: int) -> bool { 0 <= i < b.len() && b[i] == 46 && (i == 0 || part(b.take(i))) && (i + 1 == b.len() || part(b.skip(i + 1))) && b.len() > 1 }
spec fn float_at(b: B, k: int) -> bool { 0 <= k <= b.len() && (pointed(b.take(k)) && (k == b.len() || exponent(b.skip(k))) || part(b.take(k)) && exponent(b.skip(k))) }
spec fn is_float(b: B) -> bool { exists|k: int| #[trigger] float_at(b, k) }
spec fn is_imag(b: B) -> bool { b.len() > 1 && (b.last() == 106 || b.last() == 74) && (part(b.drop_last()) || is_float(b.drop_last())) }

// ---- lemmas
proof fn run_chars(b: B, base: int) requires run(b, base) ensures b.len() > 0, forall|i: int| 0 <= i < b.len() ==> digit(#[trigger] b[i], base) || b[i] == 95 decreases b.len()
{
    let r = b.drop_last();
    if run(r, base) { run_chars(r, base); } else if r.len() > 1 { run_chars(r.drop_last(), base); }
    assert forall|i: int| 0 <= i < b.len() implies digit(#[trigger] b[i], base) || b[i] == 95 by {
        if i < b.len() - 1 { assert(r[i] == b[i]); if i < r.len() - 1 { assert(r.drop_last()[i] == r[i]); } }
    }
}
proof fn without_is(b: B, x: u8) ensures forall|i: int| 0 <= i < without(b, x).len() ==> #[trigger] without(b, x)[i] != x && b.contains(without(b, x)[i]),
    without(b, x).len() <= b.len(), !occurs(b, x) ==> without(b, x) == b,
    b.len() > 0 && b[0] != x ==> without(b, x).len() > 0 && without(b, x)[0] == b[0],
    b.len() > 0 && b.last() != x ==> without(b, x).len() > 0,
    decreases b.len()
{
    if b.len() > 0 {
        let r = b.drop_last();
        without_is(r, x);
        assert forall|i: int| 0 <= i < without(b, x).len() implies #[trigger] without(b, x)[i] != x && b.contains(without(b, x)[i]) by {
            if i < without(r, x).len() { assert(without(b, x)[i] == without(r, x)[i]); let k = choose|k: int| 0 <= k < r.len() && r[k] == without(r, x)[i]; assert(b[k] == r[k]); } else { assert(b[b.len() - 1] == b.last()); }
        }
        if !occurs(b, x) { assert(b[b.len() - 1] != x); assert(!occurs(r, x)) by { if occurs(r, x) { let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == x; assert(b[i] == x); } } assert(r.push(b.last()) =~= b); }
        if b[0] != x && r.len() > 0 { assert(r[0] == b[0]); }
    }
}
/// The digits of a run are what is read
proof fn run_digits(b: B, base: int) requires run(b, base), base <= 36 ensures without(b, 95).len() > 0, forall|i: int| 0 <= i < without(b, 95).len() ==> digit(#[trigger] without(b, 95)[i], base)
{
    run_chars(b, base);
    without_is(b, 95);
    assert forall|i: int| 0 <= i < without(b, 95).len() implies digit(#[trigger] without(b, 95)[i], base) by {
        let k = choose|k: int| 0 <= k < b.len() && b[k] == without(b, 95)[i];
        assert(digit(b[k], base) || b[k] == 95);
    }
}
proof fn without_skip(b: B, n: int, x: u8) requires 0 <= n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] b[i] != x
    ensures without(b, x) == b.take(n) + without(b.skip(n), x) decreases b.len() - n
{
    if n == b.len() { without_is(b, x); assert(!occurs(b, x)); assert(b.take(n) + without(b.skip(n), x) =~= b); }
    else {
        let r = b.drop_last();
        without_skip(r, n, x);
        assert(r.take(n) =~= b.take(n));
        assert(b.skip(n).drop_last() =~= r.skip(n));
        assert(b.skip(n).last() == b.last());
        if b.last() != x { assert(without(b, x) =~= b.take(n) + without(b.skip(n), x)); }
    }
}
proof fn zeros_value(b: B) requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 48 ensures value(b, 10) == 0 decreases b.len()
{ if b.len() > 0 { assert(b[b.len() - 1] == 48); zeros_value(b.drop_last()); } }

proof fn part_plain(b: B) requires part(b) ensures forall|i: int| 0 <= i < b.len() ==> (48 <= #[trigger] b[i] <= 57 || b[i] == 95) { run_chars(b, 10); }
proof fn exp_chars(b: B) requires exponent(b) ensures forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 106 && b[i] != 74
{
    let k = if part(b.skip(1)) { 1int } else { 2int };
    part_plain(b.skip(k));
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 106 && b[i] != 74 by { if i >= k { assert(b.skip(k)[i - k] == b[i]); } }
}
/// What tells floats apart
proof fn float_chars(b: B) requires is_float(b)
    ensures occurs(b, 46) || occurs(b, 101) || occurs(b, 69), !occurs(b, 106), !occurs(b, 74), b.len() > 1, b[0] == 48 ==> base_of(b[1]) == 0,
{
    let k = choose|k: int| #[trigger] float_at(b, k);
    let h = b.take(k);
    let t = b.skip(k);
    if k < b.len() { exp_chars(t); }
    if pointed(h) {
        let i = choose|i: int| #[trigger] point_at(h, i);
        assert(b[i] == h[i]);
        if i > 0 { part_plain(h.take(i)); }
        if i + 1 < h.len() { part_plain(h.skip(i + 1)); }
        assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] != 106 && b[j] != 74 by {
            if j >= k { assert(t[j - k] == b[j]); } else { assert(h[j] == b[j]); if j < i { assert(h.take(i)[j] == h[j]); } else if j > i { assert(h.skip(i + 1)[j - i - 1] == h[j]); } }
        }
        assert(h[1] == b[1]);
        if 1 < i { assert(h.take(i)[1] == h[1]); }
        else if i == 0 { assert(b[0] == 46) by { assert(h[0] == b[0]); } }
    } else {
        part_plain(h);
        assert(t[0] == b[k]);
        assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] != 106 && b[j] != 74 by {
            if j >= k { assert(t[j - k] == b[j]); } else { assert(h[j] == b[j]); }
        }
        if k > 1 { assert(h[1] == b[1]); } else { assert(t[0] == b[1]); }
    }
}
/// What tells integers apart
proof fn int_chars(b: B) requires is_int(b)
    ensures !occurs(b, 106), !occurs(b, 74), b.len() > 1 && b[0] == 48 && base_of(b[1]) == 16 || !occurs(b, 46) && !occurs(b, 101) && !occurs(b, 69),
{
    if radix_int(b) {
        let base = base_of(b[1]);
        run_chars(b.skip(2), base);
        assert forall|i: int| 2 <= i < b.len() implies digit(#[trigger] b[i], base) || b[i] == 95 by { assert(b.skip(2)[i - 2] == b[i]); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 106 && b[i] != 74 && (base == 16 || b[i] != 46 && b[i] != 101 && b[i] != 69) by {
            if i >= 2 { assert(digit(b[i], base) || b[i] == 95); }
        }
    } else { part_plain(b); }
}

// ---- the code
#[verifier::external_body]
#[derive(Clone, Copy)]
struct PyNode<'t> { x: &'t str }
uninterp spec fn code_of(n: PyNode) -> B;
impl<'t> PyNode<'t> {
    #[verifier::external_body]
    fn as_code(&self) -> (r: &'t str) ensures bts(r) == code_of(*self) { unimplemented!() }
}
struct Int<'db> { node: PyNode<'db> }
struct Float<'db> { node: PyNode<'db> }
struct Complex<'db> { node: PyNode<'db> }
// create_struct!: a wrapper around a node
impl<'db> Int<'db> { fn new(node: PyNode<'db>) -> (r: Self) ensures r.node == node { Int { node } } fn as_code(&self) -> (r: &'db str) ensures bts(r) == code_of(self.node) { self.node.as_code() } }
impl<'db> Float<'db> { fn new(node: PyNode<'db>) -> (r: Self) ensures r.node == node { Float { node } } }
impl<'db> Complex<'db> { fn new(node: PyNode<'db>) -> (r: Self) ensures r.node == node { Complex { node } } }
//@file crates/parsa_python_cst/src/lib.rs
//@enum UnpackedNumber
//@rw $x.contains([$a, $b, $c]) ==> vx_contains3($x, $a, $b, $c)
//@rw $x.contains($c) ==> vx_contains($x, $c)
//@rw $x.replace($c, $d) ==> vx_remove($x, $c, $d)
//@rw $x.strip_prefix($c).is_some_and(|s| s.starts_with([$a, $b])) ==> match vx_strip_prefix($x, $c) { Some(s) => vx_starts2(s, $a, $b), None => false }
//@rw $x.strip_prefix($c) ==> vx_strip_prefix($x, $c)
//@rw $x.as_bytes().first() ==> vx_first($x)
//@rw 0usize.into() ==> vx_big(0)
//@rw unreachable!("{stripped}") ==> vx_never()
//@rw num_bigint::BigUint::from_str_radix(&$s[$a..], $b).unwrap() ==> vx_radix(vx_slice_from($s, $a), $b)
//@rw to_be_parsed.parse().unwrap() ==> vx_radix(to_be_parsed, 10)
//@rw to_be_parsed = &tmp ==> to_be_parsed = vx_str(&tmp)
//@tyrw num_bigint::BigUint ==> BigUint
impl<'db> Int<'db> {
//@fn Int::parse_as_big_uint ret=r
    requires is_int(code_of(self.node)),
    ensures num(r) == int_value(code_of(self.node)),
//@begin
    let ghost b = code_of(self.node);
    proof {
        reveal_strlit("");
        without_is(b, 95);
        if radix_int(b) {
            run_digits(b.skip(2), base_of(b[1]));
            without_skip(b, 2, 95);
            let w = without(b, 95);
            assert(w[0] == 48 && w[1] == b[1] && w.skip(1).skip(1) =~= without(b.skip(2), 95));
            assert(w.skip(1).subrange(1, w.len() - 1) =~= without(b.skip(2), 95));
            assert(w.skip(1)[0] == b[1]);
            assert(bnd(w.skip(1), 1)) ;
        } else {
            run_chars(b, 10);
            run_digits(b, 10);
            let w = without(b, 95);
            assert(w[0] == b[0]);
            if zeros(b) {
                assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] == 48 by { let k = choose|k: int| 0 <= k < b.len() && b[k] == w[i]; assert(b[k] == 48 || b[k] == 95); }
                zeros_value(w);
            }
            assert(b[0] == 48 ==> zeros(b));
        }
    }
//@end
}
impl<'db> UnpackedNumber<'db> {
//@fn UnpackedNumber::from_node ret=r
    requires is_int(code_of(node)) || is_float(code_of(node)) || is_imag(code_of(node)),
    ensures
        is_int(code_of(node)) ==> r == UnpackedNumber::Int(Int { node }),
        is_float(code_of(node)) ==> r == UnpackedNumber::Float(Float { node }),
        is_imag(code_of(node)) ==> r == UnpackedNumber::Complex(Complex { node }),
//@begin
    let ghost b = code_of(node);
    proof {
        if is_int(b) { int_chars(b); }
        if is_float(b) { float_chars(b); }
        if is_imag(b) { assert(b[b.len() - 1] == b.last()); }
        assert(b.len() > 1 ==> b.skip(1)[0] == b[1]);
    }
//@end
}
}
fn main() {}
