// ---- text: a str is the sequence of its bytes; what is assumed of std's str functions is stated on those bytes
uninterp spec fn bts(s: &str) -> Seq<u8>;
spec fn cont(x: u8) -> bool { 0x80 <= x < 0xC0 }
/// Character boundaries.
spec fn bnd(b: Seq<u8>, i: int) -> bool { i == 0 || i == b.len() || (0 < i < b.len() && !cont(b[i])) }
/// What is used of UTF-8 validity: it starts with a character (so do all slices at boundaries).
#[verifier::external_body]
proof fn utf8(s: &str) ensures bts(s).len() > 0 ==> !cont(bts(s)[0]), bts(s).len() <= usize::MAX { }
spec fn w16(x: u8) -> nat { if cont(x) { 0 } else if x >= 0xF0 { 2 } else { 1 } }
spec fn w1(x: u8) -> nat { if cont(x) { 0 } else { 1 } }
/// UTF-16 length and number of code points of a text, read off its bytes.
spec fn len16(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { len16(b.drop_last()) + w16(b.last()) } }
spec fn len1(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { len1(b.drop_last()) + w1(b.last()) } }

#[verifier::external_body]
fn vx_len(s: &str) -> (r: usize) ensures r == bts(s).len() { s.len() }
#[verifier::external_body]
fn vx_bnd(s: &str, i: usize) -> (r: bool) ensures r == (i <= bts(s).len() && bnd(bts(s), i as int)) { s.is_char_boundary(i) }
#[verifier::external_body]
fn vx_slice<'a>(s: &'a str, a: usize, z: usize) -> (r: &'a str)
    requires a <= z <= bts(s).len(), bnd(bts(s), a as int), bnd(bts(s), z as int),
    ensures bts(r) == bts(s).subrange(a as int, z as int) { &s[a..z] }
#[verifier::external_body]
fn vx_slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires a <= bts(s).len(), bnd(bts(s), a as int),
    ensures bts(r) == bts(s).subrange(a as int, bts(s).len() as int) { &s[a..] }
#[verifier::external_body]
fn vx_strip_suffix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>) { s.strip_suffix(c) }
#[verifier::external_body]
fn vx_utf16_count(s: &str) -> (r: usize) ensures r == len16(bts(s)) { s.encode_utf16().count() }
#[verifier::external_body]
fn vx_chars_count(s: &str) -> (r: usize) ensures r == len1(bts(s)) { s.chars().count() }

/// char_indices / chars: the next character starts at a boundary and reaches to the next one.
#[verifier::external_body]
struct VxChars<'a> { it: std::str::CharIndices<'a> }
impl<'a> VxChars<'a> {
    uninterp spec fn b(&self) -> Seq<u8>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).at() <= old(self).b().len(), bnd(old(self).b(), old(self).at()),
        ensures
            final(self).b() == old(self).b(), old(self).at() <= final(self).at() <= final(self).b().len(), bnd(final(self).b(), final(self).at()),
            old(self).at() == old(self).b().len() ==> r is None && final(self).at() == old(self).at(),
            old(self).at() < old(self).b().len() ==> r is Some && old(self).at() < final(self).at() && (r->0).0 == old(self).at() && !cont(old(self).b()[old(self).at()])
                && (forall|k: int| old(self).at() < k < final(self).at() ==> cont(#[trigger] old(self).b()[k]))
                && ((r->0).1 as u32 >= 0x10000 <==> old(self).b()[old(self).at()] >= 0xF0)
                && c8((r->0).1) == final(self).at() - old(self).at()
                && enc((r->0).1) == old(self).b().subrange(old(self).at(), final(self).at())
                && (((r->0).1 as u32) < 0x80 <==> old(self).b()[old(self).at()] < 0x80) && (((r->0).1 as u32) < 0x80 ==> (r->0).1 as u32 == old(self).b()[old(self).at()]),
    { self.it.next() }
}
/// The UTF-8 encoding of a character.
uninterp spec fn enc(c: char) -> Seq<u8>;
spec fn c8(c: char) -> int { enc(c).len() as int }
#[verifier::external_body]
fn vx_len_utf8(c: char) -> (r: usize) ensures r == c8(c), 1 <= r <= 4 { c.len_utf8() }
fn vx_len_utf16(c: char) -> (r: usize) ensures r == if c as u32 >= 0x10000 { 2int } else { 1 } { if (c as u32) < 0x10000 { 1 } else { 2 } }
#[verifier::external_body]
fn vx_char_indices<'a>(s: &'a str) -> (r: VxChars<'a>) ensures r.b() == bts(s), r.at() == 0 { VxChars { it: s.char_indices() } }
fn vx_into_iter<I>(x: I) -> (r: I) ensures r == x { x }

proof fn len_add(a: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= a.len(),
    ensures
        len16(a.subrange(0, j)) == len16(a.subrange(0, i)) + len16(a.subrange(i, j)),
        len1(a.subrange(0, j)) == len1(a.subrange(0, i)) + len1(a.subrange(i, j)),
    decreases j - i,
{
    if i == j {
        assert(a.subrange(i, j) =~= Seq::<u8>::empty());
    } else {
        len_add(a, i, j - 1);
        assert(a.subrange(0, j).drop_last() =~= a.subrange(0, j - 1));
        assert(a.subrange(i, j).drop_last() =~= a.subrange(i, j - 1));
    }
}
/// One character adds its width.
proof fn step(a: Seq<u8>, i: int, j: int)
    requires 0 <= i < j <= a.len(), !cont(a[i]), forall|k: int| i < k < j ==> cont(#[trigger] a[k]),
    ensures len16(a.subrange(0, j)) == len16(a.subrange(0, i)) + w16(a[i]), len1(a.subrange(0, j)) == len1(a.subrange(0, i)) + 1,
    decreases j - i,
{
    assert(a.subrange(0, j).drop_last() =~= a.subrange(0, j - 1));
    if j - 1 > i { step(a, i, j - 1); }
}
/// Lengths grow strictly from boundary to boundary: a column names at most one boundary.
proof fn strict(a: Seq<u8>, i: int, j: int)
    requires 0 <= i < j <= a.len(), bnd(a, i), a.len() > 0 ==> !cont(a[0]),
    ensures len16(a.subrange(0, i)) < len16(a.subrange(0, j)), len1(a.subrange(0, i)) < len1(a.subrange(0, j)),
{
    len_add(a, i, i + 1);
    len_add(a, i + 1, j);
    len_add(a, i, j);
    assert(a.subrange(0, i + 1).drop_last() =~= a.subrange(0, i));
    len_add(a, i + 1, j);
}

spec fn starts_ok(b: Seq<u8>) -> bool { b.len() > 0 ==> !cont(b[0]) }
/// After a one-byte character there is a boundary.
spec fn utf8_ends(b: Seq<u8>) -> bool { forall|i: int| 0 < i < b.len() && (#[trigger] b[i - 1]) < 0x80 ==> !cont(b[i]) }
#[verifier::external_body]
proof fn utf8_follow(s: &str) ensures utf8_ends(bts(s)) { }
