#![allow(warnings)]
// C13: licenses (crates/licensing/src/lib.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
struct VxErr;
fn vx_err() -> VxErr { VxErr }

// ---- strings and numbers as text
uninterp spec fn bs(s: String) -> Seq<u8>;
#[verifier::external_body]
fn vx_bytes<'a>(s: &'a String) -> (r: &'a [u8]) ensures r@ == bs(*s) { s.as_bytes() }
/// to_string of an unsigned number: its decimal digits.
spec fn decimal(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { decimal(n / 10).push((48 + n % 10) as u8) } }
#[verifier::external_body]
fn vx_dec64(n: u64) -> (r: String) ensures bs(r) == decimal(n as nat) { n.to_string() }
#[verifier::external_body]
fn vx_decsz(n: usize) -> (r: String) ensures bs(r) == decimal(n as nat) { n.to_string() }
/// serde_json's text of a level: its name in quotes.
spec fn level_text(l: LicenseLevel) -> Seq<u8> { match l { LicenseLevel::NoLicense => seq![34u8, 78, 111, 76, 105, 99, 101, 110, 115, 101, 34], LicenseLevel::Standard => seq![34u8, 83, 116, 97, 110, 100, 97, 114, 100, 34] } }
#[verifier::external_body]
fn vx_level(l: &LicenseLevel) -> (r: Option<String>) ensures r is Some, bs(r->0) == level_text(*l) { unimplemented!() }
fn vx_empty() -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { Vec::new() }
#[verifier::external_body]
fn vx_cat(a: Vec<u8>, b: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ { let mut a = a; a.extend_from_slice(b); a }
#[verifier::external_body]
fn vx_str_empty() -> (r: String) ensures bs(r) == Seq::<u8>::empty() { String::new() }

// ---- ed25519: keys, signatures, their text form
#[verifier::external_body]
struct Signature { x: u8 }
#[verifier::external_body]
struct VerifyingKey { x: u8 }
#[verifier::external_body]
struct SigningKey { x: u8 }
uninterp spec fn sig_text(s: Seq<u8>) -> Option<Signature>;
uninterp spec fn usable(k: Seq<u8>) -> bool;
uninterp spec fn key_of(k: Seq<u8>) -> VerifyingKey;
uninterp spec fn verifies(k: VerifyingKey, m: Seq<u8>, s: Signature) -> bool;
uninterp spec fn signed(k: Seq<u8>, m: Seq<u8>) -> Signature;
uninterp spec fn private_of(k: SigningKey) -> Seq<u8>;
#[verifier::external_body]
fn vx_sig_from_str(s: &String) -> (r: Result<Signature, VxErr>) ensures r is Ok <==> sig_text(bs(*s)) is Some, r is Ok ==> r->Ok_0 == sig_text(bs(*s))->0 { unimplemented!() }
#[verifier::external_body]
fn vx_key(k: &[u8; 32]) -> (r: Option<VerifyingKey>) ensures r is Some <==> usable(k@), r is Some ==> r->0 == key_of(k@) { unimplemented!() }
#[verifier::external_body]
fn vx_signing_key(k: &[u8; 32]) -> (r: SigningKey) ensures private_of(r) == k@ { unimplemented!() }
impl SigningKey {
    #[verifier::external_body]
    fn sign(&mut self, m: &Vec<u8>) -> (r: Signature) ensures r == signed(private_of(*old(self)), m@) { unimplemented!() }
}
impl Signature {
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures sig_text(bs(r)) == Some(*self) { unimplemented!() }
}
impl VerifyingKey {
    #[verifier::external_body]
    fn verify_strict(&self, m: &Vec<u8>, s: &Signature) -> (r: Result<(), VxErr>) ensures r is Ok <==> verifies(*self, m@, *s) { unimplemented!() }
}
/// The keys that are tried, in order.
struct VxKeys<'x> { v: Vec<&'x [u8; 32]>, k: usize }
fn vx_into_iter<I>(x: I) -> (r: I) ensures r == x { x }
impl<'x> VxKeys<'x> {
    fn vx_next(&mut self) -> (r: Option<&'x [u8; 32]>)
        requires old(self).k <= old(self).v@.len(),
        ensures final(self).v == old(self).v,
            old(self).k < old(self).v@.len() ==> r == Some(old(self).v@[old(self).k as int]) && final(self).k == old(self).k + 1,
            old(self).k == old(self).v@.len() ==> r is None && final(self).k == old(self).k,
    { if self.k < self.v.len() { let i = self.k; self.k += 1; Some(self.v[i]) } else { None } }
}
uninterp spec fn built_in() -> Seq<&'static [u8; 32]>;
/// VALID_PUBLIC_KEYS: all of them are keys.
#[verifier::external_body]
fn vx_built_in() -> (r: VxKeys<'static>) ensures r.v@ == built_in(), r.k == 0, forall|i: int| 0 <= i < built_in().len() ==> usable((#[trigger] built_in()[i])@) { unimplemented!() }

// ---- time
#[verifier::external_body]
#[derive(Clone, Copy)]
struct SystemTime { x: u8 }
/// Seconds since the epoch; the clock is not before it.
uninterp spec fn secs(t: SystemTime) -> u64;
#[verifier::external_body]
fn vx_secs(t: SystemTime) -> (r: u64) ensures r == secs(t) { unimplemented!() }
#[verifier::external_body]
fn vx_now() -> SystemTime { unimplemented!() }

// ---- files
#[verifier::external_body]
struct Path { x: u8 }
/// What the file holds while it is read.
uninterp spec fn file(p: Path) -> Option<Seq<u8>>;
#[verifier::external_body]
fn vx_read(p: &Path) -> (r: Result<String, VxErr>) ensures r is Ok <==> file(*p) is Some, r is Ok ==> bs(r->Ok_0) == file(*p)->0 { unimplemented!() }
/// serde_json's reading of a license.
uninterp spec fn parsed(s: Seq<u8>) -> Option<License>;
#[verifier::external_body]
fn vx_from_json(s: &String) -> (r: Result<License, VxErr>) ensures r is Ok <==> parsed(bs(*s)) is Some, r is Ok ==> r->Ok_0 == parsed(bs(*s))->0 { unimplemented!() }

// ---- specification
/// The signed message: every field but the signature.
spec fn msg(l: License) -> Seq<u8> {
    bs(l.name) + bs(l.email) + bs(l.company) + decimal(l.valid_from as nat) + decimal(l.valid_until as nat) + decimal(l.license_version as nat) + level_text(l.level)
}
spec fn signed_by(l: License, k: Seq<u8>) -> bool { sig_text(bs(l.signature)) is Some && verifies(key_of(k), msg(l), sig_text(bs(l.signature))->0) }
spec fn any_key(l: License, keys: Seq<&[u8; 32]>, n: int) -> bool decreases n { n > 0 && (signed_by(l, keys[n - 1]@) || any_key(l, keys, n - 1)) }
spec fn in_time(l: License, t: int) -> bool { l.valid_from <= t <= l.valid_until }
proof fn any_key_grows(l: License, keys: Seq<&[u8; 32]>, i: int, n: int)
    requires 0 < i <= n, signed_by(l, keys[i - 1]@), ensures any_key(l, keys, n), decreases n
{ if i < n { any_key_grows(l, keys, i, n - 1); } }

//@file crates/licensing/src/lib.rs
//@const CURRENT_LICENSE_VERSION
//@enum LicenseLevel #[derive(Clone, Copy)]
//@struct License
impl License {
//@rw self.valid_from.to_string() ==> vx_dec64(self.valid_from)
//@rw self.valid_until.to_string() ==> vx_dec64(self.valid_until)
//@rw self.license_version.to_string() ==> vx_decsz(self.license_version)
//@rw serde_json::to_string(&self.level).unwrap().to_string() ==> vx_level(&self.level).unwrap()
//@rw serde_json::to_string(&self.level).unwrap() ==> vx_level(&self.level).unwrap()
//@rw $x.as_bytes() ==> vx_bytes(&$x)
//@fn License::to_bytes_message
    ensures r@ == msg(*self),
//@end
//@fn License::sign
//@sig fn sign(&mut self, private_key: &[u8; 32]) -> (r: Result<(), VxErr>)
//@rw SigningKey::from_bytes($k) ==> vx_signing_key($k)
    ensures
        r is Ok ==> msg(*final(self)) == msg(*old(self)) && sig_text(bs(final(self).signature)) == Some(signed(private_key@, msg(*old(self)))),
        r is Ok ==> final(self).valid_from == old(self).valid_from && final(self).valid_until == old(self).valid_until && final(self).level == old(self).level,
//@end
//@fn License::verify_with_keys
//@sig fn verify_with_keys<'x>(&self, current_time: SystemTime, public_keys: VxKeys<'x>) -> (r: Result<bool, VxErr>)
//@rw VerifyingKey::from_bytes($k) ==> vx_key($k)
//@rw Signature::from_str($s) ==> vx_sig_from_str($s)
//@rw $t.duration_since(UNIX_EPOCH).expect($m).as_secs() ==> vx_secs($t)
//@rw $t.duration_since(UNIX_EPOCH).unwrap().as_secs() ==> vx_secs($t)
    requires public_keys.k == 0, forall|i: int| 0 <= i < public_keys.v@.len() ==> usable((#[trigger] public_keys.v@[i])@),
    ensures
        // accepted exactly when signed with one of the keys and in time
        r is Ok && r->Ok_0 <==> any_key(*self, public_keys.v@, public_keys.v@.len() as int) && in_time(*self, secs(current_time) as int),
        // not signed: Ok(false), or an error if the signature cannot even be read
        r is Ok && !r->Ok_0 ==> !any_key(*self, public_keys.v@, public_keys.v@.len() as int),
//@loop 0
    invariant
        it__0.v == public_keys.v, it__0.k <= it__0.v@.len(), forall|i: int| 0 <= i < public_keys.v@.len() ==> usable((#[trigger] public_keys.v@[i])@),
        !any_key(*self, public_keys.v@, it__0.k as int),
    ensures !any_key(*self, public_keys.v@, public_keys.v@.len() as int),
    decreases it__0.v@.len() - it__0.k,
//@loopbegin 0
    proof {
        if it__0.k < it__0.v@.len() && signed_by(*self, public_keys.v@[it__0.k as int]@) { any_key_grows(*self, public_keys.v@, it__0.k + 1, public_keys.v@.len() as int); }
        if sig_text(bs(self.signature)) is None { unread(*self, public_keys.v@, public_keys.v@.len() as int); }
    }
//@end
//@fn License::verify
//@sig fn verify(&self) -> (r: Result<bool, VxErr>)
//@rw SystemTime::now() ==> vx_now()
//@rw VALID_PUBLIC_KEYS.iter() ==> vx_built_in()
    ensures r is Ok && r->Ok_0 ==> exists|t: SystemTime| #[trigger] in_time(*self, secs(t) as int) && any_key(*self, built_in(), built_in().len() as int),
//@end
//@fn License::create
//@sig fn create(name: String, email: String, company: String, valid_from: SystemTime, valid_until: SystemTime, level: LicenseLevel) -> (r: License)

//@inline t_to_int
//@rw $t.duration_since(UNIX_EPOCH).unwrap().as_secs() ==> vx_secs($t)
//@rw "".to_string() ==> vx_str_empty()
    ensures r.name == name, r.email == email, r.company == company, r.valid_from == secs(valid_from), r.valid_until == secs(valid_until), r.level == level, r.license_version == CURRENT_LICENSE_VERSION,
//@end
}
proof fn unread(l: License, keys: Seq<&[u8; 32]>, n: int) requires sig_text(bs(l.signature)) is None, ensures !any_key(l, keys, n), decreases n { if n > 0 { unread(l, keys, n - 1); } }
//@fn verify_license_in_path
//@sig fn verify_license_in_path(path: &Path) -> (r: Result<LicenseLevel, VxErr>)
//@rw std::fs::read_to_string(path).map_err(|$e| $x) ==> vx_read(path)
//@rw License::from_json($s) ==> vx_from_json($s)
    ensures
        r is Ok ==> file(*path) is Some && parsed(file(*path)->0) is Some && ({
            let l = parsed(file(*path)->0)->0;
            r->Ok_0 == l.level && any_key(l, built_in(), built_in().len() as int) && exists|t: SystemTime| #[trigger] in_time(l, secs(t) as int)
        }),
//@end

// ---- changing one field changes the message
proof fn some_digit(a: nat) ensures decimal(a).len() >= 1, a >= 10 ==> decimal(a).len() >= 2, decreases a { if a >= 10 { some_digit(a / 10); } }
proof fn last_digit(a: nat, b: nat) requires decimal(a) == decimal(b), ensures a == b, decreases a {
    some_digit(a);
    some_digit(b);
    if a >= 10 && b >= 10 {
        assert(decimal(a).last() == (48 + a % 10) as u8);
        assert(decimal(b).last() == (48 + b % 10) as u8);
        assert(decimal(a).drop_last() =~= decimal(a / 10));
        assert(decimal(b).drop_last() =~= decimal(b / 10));
        last_digit(a / 10, b / 10);
    }
    if a < 10 && b < 10 { assert(decimal(a)[0] == (48 + a) as u8); assert(decimal(b)[0] == (48 + b) as u8); }
}
proof fn middle(a: Seq<u8>, x: Seq<u8>, y: Seq<u8>, z: Seq<u8>) requires a + x + z == a + y + z, ensures x == y {
    let (l, m) = (a + x + z, a + y + z);
    assert(l.len() == a.len() + x.len() + z.len());
    assert(m.len() == a.len() + y.len() + z.len());
    assert(x =~= l.subrange(a.len() as int, (a.len() + x.len()) as int));
    assert(y =~= m.subrange(a.len() as int, (a.len() + y.len()) as int));
}
/// Two licenses that differ in exactly one field have different messages: a signature for one says nothing about the other.
proof fn one_field(l: License, m: License)
    requires
        msg(l) == msg(m),
        (if bs(l.name) != bs(m.name) { 1int } else { 0 }) + (if bs(l.email) != bs(m.email) { 1int } else { 0 }) + (if bs(l.company) != bs(m.company) { 1int } else { 0 })
            + (if l.valid_from != m.valid_from { 1int } else { 0 }) + (if l.valid_until != m.valid_until { 1int } else { 0 }) + (if l.license_version != m.license_version { 1int } else { 0 })
            + (if l.level != m.level { 1int } else { 0 }) <= 1,
    ensures
        bs(l.name) == bs(m.name), bs(l.email) == bs(m.email), bs(l.company) == bs(m.company), l.valid_from == m.valid_from, l.valid_until == m.valid_until,
        l.license_version == m.license_version, l.level == m.level,
{
    let (n, e, c) = (bs(l.name), bs(l.email), bs(l.company));
    let (f, u, v, x) = (decimal(l.valid_from as nat), decimal(l.valid_until as nat), decimal(l.license_version as nat), level_text(l.level));
    let (n2, e2, c2) = (bs(m.name), bs(m.email), bs(m.company));
    let (f2, u2, v2, x2) = (decimal(m.valid_from as nat), decimal(m.valid_until as nat), decimal(m.license_version as nat), level_text(m.level));
    let o = Seq::<u8>::empty();
    if n != n2 { assert(msg(l) =~= o + n + (e + c + f + u + v + x)); assert(msg(m) =~= o + n2 + (e + c + f + u + v + x)); middle(o, n, n2, e + c + f + u + v + x); }
    else if e != e2 { assert(msg(l) =~= n + e + (c + f + u + v + x)); assert(msg(m) =~= n + e2 + (c + f + u + v + x)); middle(n, e, e2, c + f + u + v + x); }
    else if c != c2 { assert(msg(l) =~= (n + e) + c + (f + u + v + x)); assert(msg(m) =~= (n + e) + c2 + (f + u + v + x)); middle(n + e, c, c2, f + u + v + x); }
    else if l.valid_from != m.valid_from { assert(msg(l) =~= (n + e + c) + f + (u + v + x)); assert(msg(m) =~= (n + e + c) + f2 + (u + v + x)); middle(n + e + c, f, f2, u + v + x); last_digit(l.valid_from as nat, m.valid_from as nat); }
    else if l.valid_until != m.valid_until { assert(msg(l) =~= (n + e + c + f) + u + (v + x)); assert(msg(m) =~= (n + e + c + f) + u2 + (v + x)); middle(n + e + c + f, u, u2, v + x); last_digit(l.valid_until as nat, m.valid_until as nat); }
    else if l.license_version != m.license_version { assert(msg(l) =~= (n + e + c + f + u) + v + x); assert(msg(m) =~= (n + e + c + f + u) + v2 + x); middle(n + e + c + f + u, v, v2, x); last_digit(l.license_version as nat, m.license_version as nat); }
    else if l.level != m.level { assert(msg(l) =~= (n + e + c + f + u + v) + x + o); assert(msg(m) =~= (n + e + c + f + u + v) + x2 + o); middle(n + e + c + f + u + v, x, x2, o); assert(x.len() != x2.len()); }
}
}
fn main() {}
