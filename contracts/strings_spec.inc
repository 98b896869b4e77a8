// ---- byte iterators: `iter().enumerate()`, `.peekable()`, `.take(n)` over a slice
struct VxEnum<'a> { v: &'a [u8], k: usize }
fn vx_enum<'a>(v: &'a [u8]) -> (r: VxEnum<'a>) ensures r.v@ == v@, r.k == 0 { VxEnum { v, k: 0 } }
impl<'a> VxEnum<'a> {
    fn vx_next(&mut self) -> (r: Option<(usize, &'a u8)>)
        requires old(self).k <= old(self).v@.len(),
        ensures final(self).v == old(self).v,
            old(self).k < old(self).v@.len() ==> r is Some && (r->0).0 == old(self).k && *(r->0).1 == old(self).v@[old(self).k as int] && final(self).k == old(self).k + 1,
            old(self).k == old(self).v@.len() ==> r is None && final(self).k == old(self).k,
    { if self.k < self.v.len() { let i = self.k; self.k += 1; Some((i, &self.v[i])) } else { None } }
    fn vx_peek(&self) -> (r: Option<(usize, u8)>)
        requires self.k <= self.v@.len(),
        ensures self.k < self.v@.len() ==> r == Some((self.k, self.v@[self.k as int])), self.k == self.v@.len() ==> r is None,
    { if self.k < self.v.len() { Some((self.k, self.v[self.k])) } else { None } }
    fn vx_left(&self) -> (r: usize) requires self.k <= self.v@.len(), ensures r == self.v@.len() - self.k { self.v.len() - self.k }
}
struct VxBytes<'a> { v: &'a [u8], k: usize }
fn vx_take<'a>(v: &'a [u8], n: usize) -> (r: VxBytes<'a>) ensures r.k == 0, r.v@ == v@.subrange(0, if n < v@.len() { n as int } else { v@.len() as int })
{ VxBytes { v: vstd::slice::slice_subrange(v, 0, if n < v.len() { n } else { v.len() }), k: 0 } }
impl<'a> VxBytes<'a> {
    fn vx_next(&mut self) -> (r: Option<&'a u8>)
        requires old(self).k <= old(self).v@.len(),
        ensures final(self).v == old(self).v,
            old(self).k < old(self).v@.len() ==> r is Some && *(r->0) == old(self).v@[old(self).k as int] && final(self).k == old(self).k + 1,
            old(self).k == old(self).v@.len() ==> r is None && final(self).k == old(self).k,
    { if self.k < self.v.len() { let i = self.k; self.k += 1; Some(&self.v[i]) } else { None } }
}
fn vx_get_to<'a>(v: &'a [u8], n: usize) -> (r: Option<&'a [u8]>) ensures n <= v@.len() ==> r is Some && (r->0)@ == v@.subrange(0, n as int), n > v@.len() ==> r is None
{ if n <= v.len() { Some(vstd::slice::slice_subrange(v, 0, n)) } else { None } }
fn vx_is_digit(x: u8) -> (r: bool) ensures r == (48 <= x <= 57) { x >= 48 && x <= 57 }
#[verifier::external_body]
fn vx_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == bts(s) { s.as_bytes() }
/// char::from_u32: a character for every Unicode scalar value.
#[verifier::external_body]
fn vx_from_u32(x: u32) -> (r: Option<char>) ensures r is Some <==> is_char(x as int), r is Some ==> (r->0) as u32 == x, r is Some ==> ord(r->0) == x { char::from_u32(x) }
#[verifier::external_body]
fn vx_octal_digit(c: char) -> (r: Option<u32>) ensures r is Some <==> 48 <= c as u32 <= 55, r is Some ==> r->0 == c as u32 - 48 { c.to_digit(8) }

// ---- what Python says
spec fn is_char(v: int) -> bool { 0 <= v < 0xD800 || 0xE000 <= v <= 0x10FFFF }
spec fn ord(c: char) -> int { c as u32 as int }
spec fn chr(v: int) -> char { choose|c: char| ord(c) == v }
spec fn hexd(x: u8) -> Option<int> {
    if 48 <= x <= 57 { Some(x - 48) } else if 97 <= x <= 102 { Some(x - 87) } else if 65 <= x <= 70 { Some(x - 55) } else { None }
}
/// The value of n hexadecimal digits at `at`, if they are there.
spec fn hexval(b: Seq<u8>, at: int, n: int) -> Option<int> decreases n {
    if n <= 0 { Some(0) } else if at + n > b.len() { None } else {
        match (hexval(b, at, n - 1), hexd(b[at + n - 1])) { (Some(v), Some(d)) => Some(v * 16 + d), _ => None }
    }
}
spec fn octd(b: Seq<u8>, i: int) -> bool { 0 <= i < b.len() && 48 <= b[i] <= 55 }
/// Up to three octal digits at `at`.
spec fn octlen(b: Seq<u8>, at: int) -> int {
    if !octd(b, at) { 0 } else if !octd(b, at + 1) { 1 } else if !octd(b, at + 2) { 2 } else { 3 }
}
spec fn octval(b: Seq<u8>, at: int, n: int) -> int decreases n { if n <= 0 { 0 } else { octval(b, at, n - 1) * 8 + (b[at + n - 1] - 48) } }
spec fn p16(n: int) -> int { if n <= 0 { 1 } else if n == 1 { 16 } else if n == 2 { 256 } else if n == 3 { 4096 } else if n == 4 { 65536 } else if n == 5 { 0x10_0000 } else if n == 6 { 0x100_0000 } else if n == 7 { 0x1000_0000 } else { 0x1_0000_0000 } }

proof fn hex_none(b: Seq<u8>, at: int, k: int, n: int)
    requires 0 <= k <= n, ensures hexval(b, at, k) is None ==> hexval(b, at, n) is None, decreases n - k
{ if k < n { hex_none(b, at, k, n - 1); } }
proof fn shl16(d: u32, m: usize)
    requires d < 16, m < 8, ensures d << (m * 4) as usize == d * p16(m as int)
{
    if m == 0 { assert(d < 16 ==> d << 0usize == d) by (bit_vector); }
    else if m == 1 { assert(d < 16 ==> d << 4usize == mul(d, 16)) by (bit_vector); }
    else if m == 2 { assert(d < 16 ==> d << 8usize == mul(d, 256)) by (bit_vector); }
    else if m == 3 { assert(d < 16 ==> d << 12usize == mul(d, 4096)) by (bit_vector); }
    else if m == 4 { assert(d < 16 ==> d << 16usize == mul(d, 65536)) by (bit_vector); }
    else if m == 5 { assert(d < 16 ==> d << 20usize == mul(d, 0x10_0000)) by (bit_vector); }
    else if m == 6 { assert(d < 16 ==> d << 24usize == mul(d, 0x100_0000)) by (bit_vector); }
    else { assert(d < 16 ==> d << 28usize == mul(d, 0x1000_0000)) by (bit_vector); }
}
proof fn hex_step(b: Seq<u8>, k: usize, n: usize, d: u8, number: u32)
    requires
        n == 2 || n == 4 || n == 8, k < n <= b.len(), hexd(b[k as int]) == Some(d as int), hexval(b, 0, k as int) is Some,
        number == hexval(b, 0, k as int)->0 * p16(n - k), hexval(b, 0, k as int)->0 < p16(k as int),
    ensures
        hexval(b, 0, k + 1) == Some(hexval(b, 0, k as int)->0 * 16 + d), hexval(b, 0, k + 1)->0 < p16(k + 1),
        number + ((d as u32) << ((n - k - 1) * 4) as usize) == hexval(b, 0, k + 1)->0 * p16(n - k - 1),
        number + ((d as u32) << ((n - k - 1) * 4) as usize) <= u32::MAX,
{
    let h = hexval(b, 0, k as int)->0;
    shl16(d as u32, (n - k - 1) as usize);
    let q = p16(n - k - 1);
    assert(p16(n - k) == 16 * q);
    assert(h * (16 * q) + d * q == (h * 16 + d) * q) by (nonlinear_arith);
    assert((h * 16 + d) <= p16(k + 1) - 1);
    assert((h * 16 + d) * q <= (p16(k + 1) - 1) * q) by (nonlinear_arith) requires (h * 16 + d) <= p16(k + 1) - 1, q >= 0;
    assert(p16(k + 1) * q <= 0x1_0000_0000);
    assert((p16(k + 1) - 1) * q == p16(k + 1) * q - q) by (nonlinear_arith);
}
proof fn oct_step(x: u32)
    requires x < 512, ensures x << 3 == x * 8
{ assert(x < 512 ==> x << 3 == mul(x, 8)) by (bit_vector); }

// ---- literal tokens
spec fn is_quote(x: u8) -> bool { x == 39 || x == 34 }
spec fn raw_at(b: Seq<u8>, i: int) -> bool { b[i] == 114 || b[i] == 82 }
/// The first quote is at p.
spec fn quote_at(b: Seq<u8>, p: int) -> bool { 0 <= p < b.len() && is_quote(b[p]) && forall|i: int| 0 <= i < p ==> !is_quote(#[trigger] b[i]) }
spec fn qpos(b: Seq<u8>) -> int { choose|p: int| quote_at(b, p) }
spec fn three(b: Seq<u8>, p: int) -> bool { p + 2 < b.len() && b[p + 1] == b[p] && b[p + 2] == b[p] }
spec fn qlen(b: Seq<u8>) -> int { if three(b, qpos(b)) { 3 } else { 1 } }
/// What the tokenizer lets through: a prefix of one-byte characters, a quote or three, the content, the same quotes again. A literal
/// that starts with three quotes has three at its end as well.
spec fn literal(b: Seq<u8>) -> bool {
    &&& b.len() < u32::MAX
    &&& exists|p: int| quote_at(b, p)
    &&& b.len() >= qpos(b) + 2 * qlen(b)
    &&& forall|k: int| b.len() - qlen(b) <= k < b.len() ==> #[trigger] b[k] == b[qpos(b)]
    &&& wf(content(b), 0)
}
spec fn content(b: Seq<u8>) -> Seq<u8> { b.subrange(qpos(b) + qlen(b), b.len() - qlen(b)) }
spec fn raw_upto(b: Seq<u8>, k: int) -> bool decreases k { k > 0 && (raw_at(b, k - 1) || raw_upto(b, k - 1)) }
spec fn is_raw(b: Seq<u8>) -> bool { raw_upto(b, qpos(b)) }
/// No backslash is left alone at the end.
spec fn wf(b: Seq<u8>, i: int) -> bool decreases b.len() - i {
    if i >= b.len() || i < 0 { true } else if b[i] == 92 { i + 1 < b.len() && wf(b, i + 2) } else { wf(b, i + 1) }
}

// ---- decoding
spec fn lone_byte(c: u8) -> Option<u8> {
    if c == 97 { Some(7) } else if c == 98 { Some(8) } else if c == 116 { Some(9) } else if c == 110 { Some(10) } else if c == 118 { Some(11) } else if c == 102 { Some(12) } else if c == 114 { Some(13) } else { None }
}
/// y: a bytes literal, which has no \u and \U.
spec fn digits(c: u8, y: bool) -> int { if c == 120 { 2 } else if c == 117 && !y { 4 } else if c == 85 && !y { 8 } else { 0 } }
/// The value v of an escape as part of the result.
spec fn put(v: int, y: bool) -> Seq<u8> { if y { seq![(v % 256) as u8] } else { enc(chr(v)) } }
spec fn hexok(b: Seq<u8>, at: int, n: int) -> bool { hexval(b, at, n) is Some && is_char(hexval(b, at, n)->0) }
/// What the escape at i stands for and how long it is.
spec fn esc(b: Seq<u8>, i: int, y: bool) -> (Seq<u8>, int) {
    let c = b[i + 1];
    if c == 92 || is_quote(c) { (seq![c], 2) }
    else if c == 10 { (Seq::empty(), 2) }
    else if c == 13 { (Seq::empty(), if i + 2 < b.len() && b[i + 2] == 10 { 3 } else { 2 }) }
    else if digits(c, y) > 0 { if hexok(b, i + 2, digits(c, y)) { (put(hexval(b, i + 2, digits(c, y))->0, y), 2 + digits(c, y)) } else { (seq![92u8, c], 2) } }
    else if lone_byte(c) is Some { (seq![lone_byte(c)->0], 2) }
    else if octlen(b, i + 1) > 0 { (put(octval(b, i + 1, octlen(b, i + 1)), y), 1 + octlen(b, i + 1)) }
    else { (seq![92u8, c], 2) }
}
/// The value of the content from i on.
spec fn dec(b: Seq<u8>, i: int, y: bool) -> Seq<u8> decreases b.len() - i {
    if i < 0 || i >= b.len() { Seq::empty() }
    else if b[i] == 92 { if i + 1 >= b.len() || esc(b, i, y).1 <= 0 { Seq::empty() } else { esc(b, i, y).0 + dec(b, i + esc(b, i, y).1, y) } }
    else if b[i] == 13 { (if i + 1 < b.len() && b[i + 1] == 10 { Seq::empty() } else { seq![10u8] }) + dec(b, i + 1, y) }
    else { seq![b[i]] + dec(b, i + 1, y) }
}
spec fn rawdec(b: Seq<u8>, i: int) -> Seq<u8> decreases b.len() - i {
    if i < 0 || i >= b.len() { Seq::empty() }
    else if b[i] == 13 { (if i + 1 < b.len() && b[i + 1] == 10 { Seq::empty() } else { seq![10u8] }) + rawdec(b, i + 1) }
    else { seq![b[i]] + rawdec(b, i + 1) }
}
/// acc is done, prev..k is copied later, the rest is open.
spec fn inv(b: Seq<u8>, acc: Seq<u8>, prev: int, k: int, y: bool) -> bool {
    0 <= prev <= k <= b.len() && (y || bnd(b, prev)) && wf(b, k) && acc + b.subrange(prev, k) + dec(b, k, y) == dec(b, 0, y)
}
proof fn hex_shift(b: Seq<u8>, a: int, n: int)
    requires 0 <= a <= b.len(), ensures hexval(b.subrange(a, b.len() as int), 0, n) == hexval(b, a, n), decreases n
{ if n > 0 { hex_shift(b, a, n - 1); } }
proof fn hex_bytes(b: Seq<u8>, a: int, n: int, i: int)
    requires hexval(b, a, n) is Some, 0 <= a, 0 <= i < n, ensures a + n <= b.len(), hexd(b[a + i]) is Some, decreases n
{ if i < n - 1 { hex_bytes(b, a, n - 1, i); } }
proof fn octval_shift(b: Seq<u8>, a: int, n: int)
    requires 0 <= a, a + n <= b.len(), ensures octval(b.subrange(a, b.len() as int), 0, n) == octval(b, a, n), decreases n
{ if n > 0 { octval_shift(b, a, n - 1); } }
proof fn oct_shift(b: Seq<u8>, a: int)
    requires 0 <= a <= b.len(),
    ensures octlen(b.subrange(a, b.len() as int), 0) == octlen(b, a), octval(b.subrange(a, b.len() as int), 0, octlen(b, a)) == octval(b, a, octlen(b, a)), a + octlen(b, a) <= b.len(),
{
    let c = b.subrange(a, b.len() as int);
    assert(octd(c, 0) == octd(b, a));
    assert(octd(c, 1) == octd(b, a + 1));
    assert(octd(c, 2) == octd(b, a + 2));
    octval_shift(b, a, octlen(b, a));
}
/// No backslash in i..j: well-formedness carries over.
proof fn wf_skip(b: Seq<u8>, i: int, j: int)
    requires wf(b, i), 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> #[trigger] b[k] != 92, ensures wf(b, j), decreases j - i
{ if i < j { wf_skip(b, i + 1, j); } }
proof fn dec_skip(b: Seq<u8>, i: int, j: int, y: bool)
    requires 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> #[trigger] b[k] != 92 && b[k] != 13, ensures dec(b, i, y) == b.subrange(i, j) + dec(b, j, y), decreases j - i
{
    if i < j { dec_skip(b, i + 1, j, y); assert(b.subrange(i, j) =~= seq![b[i]] + b.subrange(i + 1, j)); assert(dec(b, i, y) =~= b.subrange(i, j) + dec(b, j, y)); }
    else { assert(b.subrange(i, j) + dec(b, j, y) =~= dec(b, j, y)); }
}
/// The escape at k ends at a boundary, inside the text.
proof fn esc_end(b: Seq<u8>, k: int, y: bool)
    requires 0 <= k < b.len(), b[k] == 92, wf(b, k), starts_ok(b), utf8_ends(b), y || b[k + 1] < 0x80,
    ensures 2 <= esc(b, k, y).1 <= b.len() - k, y || bnd(b, k + esc(b, k, y).1), wf(b, k + esc(b, k, y).1),
{
    let c = b[k + 1];
    let n = esc(b, k, y).1;
    if digits(c, y) > 0 && hexok(b, k + 2, digits(c, y)) {
        assert forall|i: int| k + 2 <= i < k + n implies b[i] != 92 && b[i] < 0x80 by { hex_bytes(b, k + 2, digits(c, y), i - k - 2); }
        hex_bytes(b, k + 2, digits(c, y), 0);
    } else if !(c == 92 || is_quote(c) || c == 10 || c == 13 || digits(c, y) > 0 || lone_byte(c) is Some) && octlen(b, k + 1) > 0 {
        oct_shift(b, k + 1);
        assert(octd(b, k + 1));
        assert forall|i: int| k + 2 <= i < k + n implies b[i] != 92 && b[i] < 0x80 by { assert(octd(b, i)); }
    }
    wf_skip(b, k + 2, k + n);
    if !y { assert(b[k + n - 1] < 0x80); }
}
spec fn cr(b: Seq<u8>, k: int) -> Seq<u8> { if k + 1 < b.len() && b[k + 1] == 10 { Seq::empty() } else { seq![10u8] } }
/// Replacing k..m by x keeps the invariant if that is what k..m decodes to.
proof fn join(b: Seq<u8>, a: Seq<u8>, p: int, k: int, x: Seq<u8>, m: int, y: bool)
    requires inv(b, a, p, k, y), k <= m <= b.len(), y || bnd(b, m), wf(b, m), dec(b, k, y) == x + dec(b, m, y),
    ensures inv(b, a + b.subrange(p, k) + x, m, m, y),
{
    let pre = a + b.subrange(p, k);
    assert(pre + (x + dec(b, m, y)) =~= pre + x + b.subrange(m, m) + dec(b, m, y));
}
proof fn step_plain(b: Seq<u8>, a: Seq<u8>, p: int, k: int, y: bool)
    requires inv(b, a, p, k, y), k < b.len(), b[k] != 92, b[k] != 13, ensures inv(b, a, p, k + 1, y),
{
    let pre = a + b.subrange(p, k);
    assert(b.subrange(p, k + 1) =~= b.subrange(p, k) + seq![b[k]]);
    assert(pre + (seq![b[k]] + dec(b, k + 1, y)) =~= a + b.subrange(p, k + 1) + dec(b, k + 1, y));
}
proof fn step_other(b: Seq<u8>, a: Seq<u8>, p: int, k: int, j: int)
    requires inv(b, a, p, k, false), k + 1 < b.len(), b[k] == 92, b[k + 1] >= 0x80, conts(b, k + 2, j),
    ensures inv(b, a + b.subrange(p, k) + seq![92u8] + b.subrange(k + 1, j), j, j, false),
{
    wf_skip(b, k + 2, j);
    dec_skip(b, k + 2, j, false);
    assert(b.subrange(k + 1, j) =~= seq![b[k + 1]] + b.subrange(k + 2, j));
    let x = seq![92u8] + b.subrange(k + 1, j);
    assert(seq![92u8, b[k + 1]] + (b.subrange(k + 2, j) + dec(b, j, false)) =~= x + dec(b, j, false));
    assert(dec(b, k, false) == x + dec(b, j, false));
    join(b, a, p, k, x, j, false);
    assert(a + b.subrange(p, k) + seq![92u8] + b.subrange(k + 1, j) =~= a + b.subrange(p, k) + x);
}
/// Every step of the decoder keeps the invariant.
proof fn all_steps(b: Seq<u8>, a: Seq<u8>, p: int, k: int, y: bool)
    requires inv(b, a, p, k, y), k < b.len(), starts_ok(b), utf8_ends(b),
    ensures
        b[k] != 92 && b[k] != 13 ==> inv(b, a, p, k + 1, y),
        b[k] == 13 ==> bnd(b, k) && inv(b, a + b.subrange(p, k) + cr(b, k), k + 1, k + 1, y),
        b[k] == 92 ==> bnd(b, k) && k + 1 < b.len() && bnd(b, k + 1),
        b[k] == 92 && (y || b[k + 1] < 0x80) ==> 2 <= esc(b, k, y).1 <= b.len() - k && inv(b, a + b.subrange(p, k) + esc(b, k, y).0, k + esc(b, k, y).1, k + esc(b, k, y).1, y),
        b[k] == 92 && b[k + 1] >= 0x80 && !y ==> forall|j: int| #[trigger] conts(b, k + 2, j) ==> inv(b, a + b.subrange(p, k) + seq![92u8] + b.subrange(k + 1, j), j, j, y),
{
    hide(esc);
    if b[k] == 92 {
        assert(b[k] < 0x80);
        assert(b[k + 1 - 1] < 0x80);
        if y || b[k + 1] < 0x80 {
            esc_end(b, k, y);
            join(b, a, p, k, esc(b, k, y).0, k + esc(b, k, y).1, y);
        } else {
            assert forall|j: int| #[trigger] conts(b, k + 2, j) implies inv(b, a + b.subrange(p, k) + seq![92u8] + b.subrange(k + 1, j), j, j, y) by { step_other(b, a, p, k, j); }
        }
    } else if b[k] == 13 {
        if k + 1 < b.len() { assert(b[k + 1 - 1] < 0x80); }
        join(b, a, p, k, cr(b, k), k + 1, y);
    } else {
        step_plain(b, a, p, k, y);
    }
}
/// i..j are continuation bytes up to a boundary.
spec fn conts(b: Seq<u8>, i: int, j: int) -> bool { 0 <= i <= j <= b.len() && bnd(b, j) && forall|k: int| i <= k < j ==> cont(#[trigger] b[k]) }
// ---- Strings as accumulators
uninterp spec fn bs(s: String) -> Seq<u8>;
spec fn acc(s: Option<String>) -> Seq<u8> { match s { None => Seq::empty(), Some(x) => bs(x) } }
#[verifier::external_body]
fn vx_string() -> (r: String) ensures bs(r) == Seq::<u8>::empty() { String::new() }
fn vx_mut<'a, T>(o: &'a mut Option<T>) -> (r: &'a mut T) requires *old(o) is Some, ensures *r == old(o)->0, *final(o) == Some(*final(r)) { match o { Some(x) => x, None => { proof { assert(false); } loop invariant false decreases 0int { } } } }
trait VxStr: Sized {
    spec fn by(&self) -> Seq<u8>;
    fn vx_push_str(&mut self, x: &str) ensures final(self).by() == old(self).by() + bts(x);
    fn vx_push(&mut self, c: char) ensures final(self).by() == old(self).by() + enc(c), (c as u32) < 0x80 ==> enc(c) == seq![c as u8];
}
impl VxStr for String {
    spec fn by(&self) -> Seq<u8> { bs(*self) }
    #[verifier::external_body]
    fn vx_push_str(&mut self, x: &str) { self.push_str(x) }
    #[verifier::external_body]
    fn vx_push(&mut self, c: char) { self.push(c) }
}
#[verifier::external_body]
fn vx_backslash_n() -> (r: &'static str) ensures bts(r) == seq![92u8, 78u8] { "\\N" }
fn vx_from<'a>(v: &'a [u8], a: usize) -> (r: &'a [u8]) requires a <= v@.len(), ensures r@ == v@.subrange(a as int, v@.len() as int) { vstd::slice::slice_subrange(v, a, v.len()) }
/// The first character: everything up to the next boundary.
#[verifier::external_body]
fn vx_first(s: &str) -> (r: Option<char>)
    ensures bts(s).len() == 0 ==> r is None,
        bts(s).len() > 0 ==> r is Some && conts(bts(s), 1, c8(r->0)) && enc(r->0) == bts(s).subrange(0, c8(r->0)),
{ s.chars().next() }
fn vx_log() { }
// ---- the node: code and start; that its text is a literal is what the tokenizer guarantees
#[verifier::external_body]
struct PyNode<'db> { x: &'db str }
impl<'db> PyNode<'db> {
    uninterp spec fn is_f(&self) -> bool;
    uninterp spec fn text(&self) -> Seq<u8>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn vx_is_fstring(&self) -> (r: bool) ensures r == self.is_f() { unimplemented!() }
    #[verifier::external_body]
    fn as_code(&self) -> (r: &'db str) ensures bts(r) == self.text(), !self.is_f() ==> literal(bts(r)) { unimplemented!() }
    #[verifier::external_body]
    fn start(&self) -> (r: CodeIndex) ensures r == self.at(), self.at() + self.text().len() <= u32::MAX { unimplemented!() }
}
proof fn chars_are() ensures forall|c: char| chr(#[trigger] ord(c)) == c { assert forall|c: char| chr(#[trigger] ord(c)) == c by { let d = chr(ord(c)); assert(ord(d) == ord(c)); } }
proof fn first_at(b: Seq<u8>, a: int, n: int)
    requires 0 <= a < b.len(), conts(b.subrange(a, b.len() as int), 1, n), utf8_ends(b),
    ensures conts(b, a + 1, a + n), b.subrange(a, b.len() as int).subrange(0, n) == b.subrange(a, a + n), b[a] < 0x80 ==> n == 1,
{
    let s = b.subrange(a, b.len() as int);
    assert(s.subrange(0, n) =~= b.subrange(a, a + n));
    assert forall|k: int| a + 1 <= k < a + n implies cont(#[trigger] b[k]) by { assert(s[k - a] == b[k]); }
    if n < s.len() { assert(s[n] == b[a + n]); }
    if b[a] < 0x80 && n > 1 { assert(cont(b[a + 1])); assert(b[a + 1 - 1] < 0x80); }
}
fn vx_contains(v: &[u8], c: &u8) -> (r: bool) ensures r <==> exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == *c
{
    let mut i = 0;
    while i < v.len() invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> #[trigger] v@[j] != *c decreases v@.len() - i { if v[i] == *c { return true; } i += 1; }
    false
}
/// chars().peekable()
struct VxCh<'a> { it: VxChars<'a> }
fn vx_chars<'a>(s: &'a str) -> (r: VxCh<'a>) ensures r.it.b() == bts(s), r.it.at() == 0 { VxCh { it: vx_char_indices(s) } }
impl<'a> VxCh<'a> {
    fn vx_next(&mut self) -> (r: Option<char>)
        requires 0 <= old(self).it.at() <= old(self).it.b().len(), bnd(old(self).it.b(), old(self).it.at()),
        ensures
            final(self).it.b() == old(self).it.b(), old(self).it.at() <= final(self).it.at() <= final(self).it.b().len(), bnd(final(self).it.b(), final(self).it.at()),
            old(self).it.at() == old(self).it.b().len() ==> r is None && final(self).it.at() == old(self).it.at(),
            old(self).it.at() < old(self).it.b().len() ==> r is Some && char_at(old(self).it.b(), old(self).it.at(), final(self).it.at(), r->0),
    { match self.it.vx_next() { Some((_, c)) => { proof { enc_ascii(c); } Some(c) } None => None } }
    #[verifier::external_body]
    fn vx_peek(&self) -> (r: Option<char>)
        requires 0 <= self.it.at() <= self.it.b().len(), bnd(self.it.b(), self.it.at()),
        ensures self.it.at() == self.it.b().len() ==> r is None,
            self.it.at() < self.it.b().len() ==> r is Some && ((r->0 as u32) < 0x80 <==> self.it.b()[self.it.at()] < 0x80) && ((r->0 as u32) < 0x80 ==> r->0 as u32 == self.it.b()[self.it.at()]),
    { unimplemented!() }
}
/// The character c takes i..j of b.
spec fn char_at(b: Seq<u8>, i: int, j: int, c: char) -> bool {
    0 <= i < j <= b.len() && enc(c) == b.subrange(i, j) && ((c as u32) < 0x80 <==> b[i] < 0x80) && ((c as u32) < 0x80 ==> c as u32 == b[i] && enc(c).len() == 1) && forall|k: int| i < k < j ==> cont(#[trigger] b[k])
}
proof fn raw_skip(b: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> #[trigger] b[k] != 13, ensures rawdec(b, i) == b.subrange(i, j) + rawdec(b, j), decreases j - i
{
    if i < j { raw_skip(b, i + 1, j); assert(b.subrange(i, j) =~= seq![b[i]] + b.subrange(i + 1, j)); assert(rawdec(b, i) =~= b.subrange(i, j) + rawdec(b, j)); }
    else { assert(b.subrange(i, j) + rawdec(b, j) =~= rawdec(b, j)); }
}
/// The encoding of a one-byte character has one byte.
#[verifier::external_body]
proof fn enc_ascii(c: char) ensures (c as u32) < 0x80 ==> enc(c) == seq![c as u8] { }
