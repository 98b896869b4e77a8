#![allow(warnings)]
// C08: dedent (crates/utils/src/lib.rs) and docstrings (crates/parsa_python_cst/src/strings.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
type T = Seq<char>;
uninterp spec fn ws(c: char) -> bool;
/// UTF-8 length
uninterp spec fn w(c: char) -> nat;
spec fn blen(s: T) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + w(s.last()) } }
/// Byte offsets of characters are distinct: every character has a length.
#[verifier::external_body]
proof fn widths() ensures forall|c: char| 1 <= #[trigger] w(c) <= 4 { }
proof fn blen_add(a: T, b: T) ensures blen(a + b) == blen(a) + blen(b) decreases b.len()
{
    if b.len() > 0 { blen_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); }
}
proof fn blen_strict(s: T, i: int, j: int) requires 0 <= i < j <= s.len() ensures blen(s.take(i)) < blen(s.take(j)) decreases j - i
{
    widths();
    assert(s.take(j).drop_last() =~= s.take(j - 1));
    if i < j - 1 { blen_strict(s, i, j - 1); }
}
spec fn blank(s: T) -> bool { forall|i: int| 0 <= i < s.len() ==> ws(#[trigger] s[i]) }
/// Leading whitespace
spec fn lead(s: T) -> nat decreases s.len() { if s.len() > 0 && ws(s[0]) { 1 + lead(s.skip(1)) } else { 0 } }
proof fn lead_is(s: T)
    ensures lead(s) <= s.len(), blank(s.take(lead(s) as int)), lead(s) < s.len() ==> !ws(s[lead(s) as int]), lead(s) == s.len() <==> blank(s),
    decreases s.len(),
{
    if s.len() > 0 && ws(s[0]) {
        let r = s.skip(1);
        lead_is(r);
        assert forall|i: int| 0 <= i < lead(s) implies ws(#[trigger] s.take(lead(s) as int)[i]) by { if i > 0 { assert(r.take(lead(r) as int)[i - 1] == s[i]); } }
        assert(lead(r) < r.len() ==> r[lead(r) as int] == s[lead(s) as int]);
        if lead(s) == s.len() { assert(s.take(lead(s) as int) =~= s); }
    } else { assert(s.take(0) =~= Seq::<char>::empty()); if s.len() > 0 { assert(!ws(s[0])); } }
}
proof fn lead_exact(s: T, k: nat)
    requires k < s.len(), !ws(s[k as int]), blank(s.take(k as int)),
    ensures lead(s) == k,
{
    lead_is(s);
    if lead(s) < k { assert(ws(s.take(k as int)[lead(s) as int])); }
    if lead(s) > k { assert(ws(s.take(lead(s) as int)[k as int])); }
}
/// Split at line feeds
spec fn no_nl(s: T) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
spec fn join(l: Seq<T>) -> T decreases l.len() { if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { join(l.drop_last()).push('\n') + l.last() } }
/// l are the lines of s
spec fn lines_of(l: Seq<T>, s: T) -> bool { l.len() >= 1 && join(l) == s && forall|i: int| 0 <= i < l.len() ==> no_nl(#[trigger] l[i]) }
spec fn texts(v: Seq<&str>) -> Seq<T> { Seq::new(v.len(), |i: int| v[i]@) }
/// A text has one list of lines.
proof fn lines_unique(a: Seq<T>, b: Seq<T>)
    requires a.len() >= 1, b.len() >= 1, join(a) == join(b), forall|i: int| 0 <= i < a.len() ==> no_nl(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> no_nl(#[trigger] b[i]),
    ensures a == b,
    decreases a.len(),
{
    let s = join(a);
    let (x, y) = (a.last(), b.last());
    assert(no_nl(x) && no_nl(y));
    assert(s.len() >= x.len() && s.subrange(s.len() - x.len(), s.len() as int) =~= x);
    assert(s.len() >= y.len() && s.subrange(s.len() - y.len(), s.len() as int) =~= y);
    if a.len() > 1 { assert(s[s.len() - x.len() - 1] == '\n'); }
    if b.len() > 1 { assert(s[s.len() - y.len() - 1] == '\n'); }
    if x.len() < y.len() { if a.len() > 1 { assert(y[y.len() - x.len() - 1] == '\n'); } else { assert(s.len() == x.len()); } }
    if y.len() < x.len() { if b.len() > 1 { assert(x[x.len() - y.len() - 1] == '\n'); } else { assert(s.len() == y.len()); } }
    assert(x.len() == y.len());
    if a.len() > 1 && b.len() > 1 {
        let (p, q) = (a.drop_last(), b.drop_last());
        assert(join(p) =~= s.take(s.len() - x.len() - 1));
        assert(join(q) =~= s.take(s.len() - x.len() - 1));
        assert forall|i: int| 0 <= i < p.len() implies no_nl(#[trigger] p[i]) by { assert(p[i] == a[i]); }
        assert forall|i: int| 0 <= i < q.len() implies no_nl(#[trigger] q[i]) by { assert(q[i] == b[i]); }
        lines_unique(p, q);
        assert(a =~= p.push(x)); assert(b =~= q.push(y));
    } else if a.len() == 1 { assert(b.len() == 1) by { if b.len() > 1 { assert(s.len() > y.len()); } } assert(a =~= b); }
    else { assert(s.len() > x.len()); }
}
/// The largest indentation common to all lines with content, None if there are none
spec fn common(l: Seq<T>) -> Option<nat> decreases l.len() {
    if l.len() == 0 { None } else {
        let c = common(l.drop_last());
        if blank(l.last()) { c } else { Some(if c is Some && c->0 < lead(l.last()) { c->0 } else { lead(l.last()) }) }
    }
}
spec fn cut(s: T, k: nat) -> T { if s.len() >= k { s.skip(k as int) } else { s } }
spec fn cuts(l: Seq<T>, k: nat) -> Seq<T> { Seq::new(l.len(), |i: int| cut(l[i], k)) }
/// o is s, dedented
spec fn dedented(s: T, o: T) -> bool {
    forall|l: Seq<T>| #[trigger] lines_of(l, s) ==> match common(l) { None => o == s, Some(k) => lines_of(cuts(l, k), o) }
}
proof fn common_is(l: Seq<T>)
    ensures common(l) is Some ==> (forall|i: int| 0 <= i < l.len() && !blank(#[trigger] l[i]) ==> common(l)->0 <= lead(l[i])) && (exists|i: int| 0 <= i < l.len() && !blank(#[trigger] l[i]) && common(l)->0 == lead(l[i])),
        common(l) is None <==> (forall|i: int| 0 <= i < l.len() ==> blank(#[trigger] l[i])),
    decreases l.len(),
{
    if l.len() > 0 {
        let d = l.drop_last();
        common_is(d);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] l[i] == d[i] by { }
        if common(d) is Some && common(l)->0 == common(d)->0 {
            let j = choose|i: int| 0 <= i < d.len() && !blank(#[trigger] d[i]) && common(d)->0 == lead(d[i]);
            assert(l[j] == d[j]);
        }
        if common(d) is None { assert forall|i: int| 0 <= i < d.len() implies blank(#[trigger] l[i]) by { assert(blank(d[i])); } }
        if common(l) is None { assert forall|i: int| 0 <= i < l.len() implies blank(#[trigger] l[i]) by { if i < d.len() { assert(blank(d[i])); } } }
        else if !blank(l.last()) { assert(!blank(l[l.len() - 1])); }
        else { let j = choose|i: int| 0 <= i < d.len() && !blank(#[trigger] d[i]); assert(!blank(l[j])); }
    }
}
/// A line with content loses exactly k characters of whitespace, another only whitespace.
proof fn cut_is(s: T, k: nat)
    requires blank(s) || k <= lead(s),
    ensures !blank(s) ==> s == s.take(k as int) + cut(s, k) && blank(s.take(k as int)) && lead(cut(s, k)) + k == lead(s) && !blank(cut(s, k)), blank(s) ==> blank(cut(s, k)),
{
    lead_is(s);
    if !blank(s) {
        let m = lead(s) as int;
        let c = cut(s, k);
        assert(s =~= s.take(k as int) + c);
        assert forall|i: int| 0 <= i < k implies ws(#[trigger] s.take(k as int)[i]) by { assert(s.take(m)[i] == s[i]); }
        assert(c[m - k] == s[m]);
        assert forall|i: int| 0 <= i < m - k implies ws(#[trigger] c.take(m - k)[i]) by { assert(s.take(m)[i + k] == c[i]); }
        lead_exact(c, (m - k) as nat);
    } else if s.len() >= k { assert forall|i: int| 0 <= i < cut(s, k).len() implies ws(#[trigger] cut(s, k)[i]) by { assert(cut(s, k)[i] == s[i + k]); } }
}
/// Dedenting twice changes nothing more.
proof fn twice(s: T, l: Seq<T>, o: T, p: T)
    requires lines_of(l, s), dedented(s, o), dedented(o, p),
    ensures p == o,
{
    common_is(l);
    if common(l) is Some {
        let k = common(l)->0;
        let m = cuts(l, k);
        common_is(m);
        assert forall|i: int| 0 <= i < l.len() implies blank(l[i]) == blank(#[trigger] m[i]) && (!blank(l[i]) ==> lead(m[i]) + k == lead(l[i])) by { cut_is(l[i], k); }
        let j = choose|i: int| 0 <= i < l.len() && !blank(#[trigger] l[i]) && k == lead(l[i]);
        assert(!blank(m[j]) && lead(m[j]) == 0);
        assert(common(m) == Some(0nat));
        assert(cuts(m, 0) =~= m) by { assert forall|i: int| 0 <= i < m.len() implies cut(#[trigger] m[i], 0) == m[i] by { assert(m[i].skip(0) =~= m[i]); } }
    } else { }
}

// ---- std
enum Cow<'a> { Borrowed(&'a str), Owned(String) }
spec fn cow(c: Cow) -> T { match c { Cow::Borrowed(s) => s@, Cow::Owned(o) => o@ } }
#[verifier::external_body]
fn vx_lines<'a>(s: &'a Cow<'_>) -> (r: Vec<&'a str>) ensures lines_of(texts(r@), cow(*s)) { unimplemented!() }
#[verifier::external_body]
fn vx_blank(s: &str) -> (r: bool) ensures r == blank(s@) { s.trim().is_empty() }
#[verifier::external_body]
fn vx_lead(s: &str) -> (r: usize) ensures r == lead(s@), r < usize::MAX { s.chars().take_while(|c| c.is_whitespace()).count() }
#[verifier::external_body]
fn vx_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body]
fn vx_nth(s: &str, n: usize) -> (r: Option<(usize, char)>) ensures r is Some <==> n < s@.len(), r is Some ==> (r->0).0 == blen(s@.take(n as int)) { s.char_indices().nth(n) }
/// Slicing at the byte offset of a character
#[verifier::external_body]
fn vx_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires exists|k: int| 0 <= k <= s@.len() && a == blen(#[trigger] s@.take(k)),
    ensures exists|k: int| 0 <= k <= s@.len() && a == blen(#[trigger] s@.take(k)) && r@ == s@.skip(k) { &s[a..] }
#[verifier::external_body]
fn vx_join(v: Vec<&str>) -> (r: String) ensures r@ == join(texts(v@)) { v.join("\n") }
#[verifier::external_body]
fn vx_empty_str<'a>() -> (r: &'a str) ensures r@ == Seq::<char>::empty() { "" }
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
struct VxIt<'v, 'a> { v: &'v Vec<&'a str>, k: usize }
fn vx_into_iter<'v, 'a>(v: &'v Vec<&'a str>) -> (r: VxIt<'v, 'a>) ensures r.v == v, r.k == 0 { VxIt { v, k: 0 } }
impl<'v, 'a> VxIt<'v, 'a> {
    fn vx_next(&mut self) -> (r: Option<&'a str>)
        requires old(self).k <= old(self).v@.len(),
        ensures final(self).v == old(self).v, r is Some <==> old(self).k < old(self).v@.len(),
            r is Some ==> r->0 == old(self).v@[old(self).k as int] && final(self).k == old(self).k + 1, r is None ==> final(self).k == old(self).k,
    { if self.k < self.v.len() { let i = self.k; self.k += 1; Some(self.v[i]) } else { None } }
}
/// t is s without its leading and trailing whitespace
spec fn trimmed_of(s: T, t: T) -> bool {
    exists|a: int, b: int| 0 <= a <= b <= s.len() && #[trigger] s.subrange(a, b) == t && blank(s.take(a)) && blank(s.skip(b))
        && (t.len() > 0 ==> !ws(t[0]) && !ws(t.last()))
}
#[verifier::external_body]
fn vx_trim<'a>(s: &'a str) -> (r: &'a str) ensures trimmed_of(s@, r@) { s.trim() }
#[verifier::external_body]
fn vx_find(s: &str, t: &str) -> (r: Option<usize>)
    ensures r is None ==> forall|k: int| 0 <= k <= s@.len() - t@.len() ==> #[trigger] s@.subrange(k, k + t@.len()) != t@,
        r is Some ==> exists|k: int| 0 <= k <= s@.len() - t@.len() && r->0 == blen(#[trigger] s@.take(k)) && s@.subrange(k, k + t@.len()) == t@
            && forall|j: int| 0 <= j < k ==> #[trigger] s@.subrange(j, j + t@.len()) != t@ { s.find(t) }
#[verifier::external_body]
fn vx_unwrap(o: Option<usize>) -> (r: usize) requires o is Some ensures r == o->0 { o.unwrap() }
#[verifier::external_body]
fn vx_len(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
#[verifier::external_body]
fn vx_as_str(s: &String) -> (r: &str) ensures r@ == s@, blen(s@) <= isize::MAX { s }
#[verifier::external_body]
fn vx_drain_from(s: &mut String, a: usize)
    requires exists|k: int| 0 <= k <= old(s)@.len() && a == blen(#[trigger] old(s)@.take(k)),
    ensures exists|k: int| 0 <= k <= old(s)@.len() && a == blen(#[trigger] old(s)@.take(k)) && final(s)@ == old(s)@.take(k) { s.drain(a..); }
#[verifier::external_body]
fn vx_drain_to(s: &mut String, a: usize)
    requires exists|k: int| 0 <= k <= old(s)@.len() && a == blen(#[trigger] old(s)@.take(k)),
    ensures exists|k: int| 0 <= k <= old(s)@.len() && a == blen(#[trigger] old(s)@.take(k)) && final(s)@ == old(s)@.skip(k) { s.drain(..a); }
proof fn blen_inj(t: T, a: int, b: int) requires 0 <= a <= t.len(), 0 <= b <= t.len(), blen(t.take(a)) == blen(t.take(b)) ensures a == b
{
    if a < b { blen_strict(t, a, b); } else if b < a { blen_strict(t, b, a); }
}
#[verifier::external_body]
fn vx_owned(c: Cow<'_>) -> (r: String) ensures r@ == cow(c) { unimplemented!() }
//@file crates/utils/src/lib.rs
//@rw &s.split('\n').collect() ==> &vx_lines(&s)
//@rw $x.trim().is_empty() ==> vx_blank($x)
//@rw $x.chars().take_while(|c| c.is_whitespace()).count() ==> vx_lead($x)
//@rw $x.chars().count() ==> vx_count($x)
//@rw $x.char_indices().nth($n) ==> vx_nth($x, $n)
//@rw &$x[$a..] ==> vx_from($x, $a)
//@rw "" ==> vx_empty_str()
//@rw std::cmp::min($a, $b) ==> vx_min($a, $b)
//@rw $x.join("\n") ==> vx_join($x)
//@fn dedent_cow
//@sig fn dedent_cow<'a>(s: Cow<'a>) -> (r: Cow<'a>)
//@tyrw & Vec<_> ==> & Vec<&str>
//@tyrw Vec<_> ==> Vec<&str>
    ensures dedented(cow(s), cow(r)),
//@loop 0
        invariant it__0.v == lines, it__0.k <= lines@.len(), lines_of(texts(lines@), cow(s)),
            indent == usize::MAX <==> common(texts(lines@).take(it__0.k as int)) is None,
            indent != usize::MAX ==> common(texts(lines@).take(it__0.k as int)) == Some(indent as nat),
        ensures it__0.k == lines@.len(), 
        decreases lines@.len() - it__0.k,
//@before if indent == usize::MAX
        proof { assert(texts(lines@).take(lines@.len() as int) =~= texts(lines@)); }
        let ghost tl = texts(lines@);
        proof {
            assert forall|l: Seq<T>| #[trigger] lines_of(l, cow(s)) implies l == tl by { lines_unique(l, tl); }
        }
//@loopbegin 0
        let ghost k0 = it__0.k;
        proof {
            if k0 < lines@.len() {
                let p = texts(lines@).take(k0 + 1);
                assert(p.drop_last() =~= texts(lines@).take(k0 as int));
                assert(p.last() == lines@[k0 as int]@);
            }
        }
//@loop 1
        invariant it__1.v == lines, it__1.k <= lines@.len(), texts(c__@) == cuts(texts(lines@).take(it__1.k as int), indent as nat),
        ensures it__1.k == lines@.len(),
        decreases lines@.len() - it__1.k,
//@loopbegin 1
        let ghost k1 = it__1.k;
        let ghost c1 = c__@;
        proof {
            if k1 < lines@.len() {
                let t = lines@[k1 as int]@;
                assert forall|a: int, b: int| 0 <= a <= t.len() && 0 <= b <= t.len() && blen(#[trigger] t.take(a)) == blen(#[trigger] t.take(b)) implies a == b by {
                    if a < b { blen_strict(t, a, b); } else if b < a { blen_strict(t, b, a); }
                }
                assert(t.skip(t.len() as int) =~= Seq::<char>::empty());
            }
        }
//@loopend 1
        proof {
            assert(texts(c1).len() == k1 && c1.len() == k1);
            assert(c__@[k1 as int]@ == cut(lines@[k1 as int]@, indent as nat));
            assert(texts(c__@) =~= cuts(texts(lines@).take(it__1.k as int), indent as nat)) by {
                assert forall|i: int| 0 <= i < c__@.len() implies texts(c__@)[i] == #[trigger] cuts(texts(lines@).take(it__1.k as int), indent as nat)[i] by {
                    if i < k1 { assert(c__@[i] == c1[i]); assert(texts(c1)[i] == cuts(texts(lines@).take(k1 as int), indent as nat)[i]); }
                }
            }
        }
//@before Cow::Owned(
        proof {
            assert(texts(lines@).take(lines@.len() as int) =~= texts(lines@));
            let m = cuts(tl, indent as nat);
            assert forall|i: int| 0 <= i < m.len() implies no_nl(#[trigger] m[i]) by {
                assert(no_nl(tl[i]));
                assert forall|j: int| 0 <= j < m[i].len() implies #[trigger] m[i][j] != '\n' by { if tl[i].len() >= indent { assert(m[i][j] == tl[i][j + indent]); } }
            }
        }
//@end
//@fn dedent
//@sig fn dedent(s: &str) -> (r: String)
//@rw $x.into_owned() ==> vx_owned($x)
    ensures dedented(s@, r@),
//@end
//@file crates/parsa_python_cst/src/strings.rs
//@tyrw CodeIndex ==> u32
//@enum PythonString
/// The value of a string expression, None for an f-string. C06 proves that as_python_string yields it.
struct Strings<'db> { p: &'db u8 }
impl<'db> Strings<'db> {
    uninterp spec fn value(&self) -> Option<T>;
    #[verifier::external_body]
    fn as_python_string(&self) -> (r: PythonString<'db>) ensures text(r) == self.value() { unimplemented!() }
}
spec fn text(p: PythonString<'_>) -> Option<T> { match p { PythonString::Ref(_, s) => Some(s@), PythonString::String(_, s) => Some(s@), PythonString::FString => None } }
//@rw $x.drain($a..) ==> vx_drain_from($x, $a)
//@rw $x.drain(..$a) ==> vx_drain_to($x, $a)
//@rw $x.trim() ==> vx_trim(vx_as_str($x))
//@rw $x.find($t).unwrap() ==> vx_unwrap(vx_find(vx_as_str($x), $t))
//@rw $x.len() ==> vx_len($x)
impl<'db> PythonString<'db> {
//@fn PythonString::into_cow_str
//@sig fn into_cow_str(self) -> (r: Option<Cow<'db>>)
    ensures r is Some <==> text(self) is Some, r is Some ==> cow(r->0) == text(self)->0,
//@end
}
//@fn trim_string_in_place
    ensures trimmed_of(old(s)@, final(s)@),
//@begin
        let ghost t0 = s@;
//@after let trimmed
        let ghost tr = trimmed@;
        let ghost (a, b) = choose|a: int, b: int| 0 <= a <= b <= t0.len() && #[trigger] t0.subrange(a, b) == tr && blank(t0.take(a)) && blank(t0.skip(b));
        proof { assert(t0.subrange(a, a + tr.len()) == tr); }
//@after let start
        let ghost k = choose|k: int| 0 <= k <= t0.len() - tr.len() && start == blen(#[trigger] t0.take(k)) && t0.subrange(k, k + tr.len()) == tr && forall|j: int| 0 <= j < k ==> #[trigger] t0.subrange(j, j + tr.len()) != tr;
        proof {
            blen_add(t0.take(k), tr); assert(t0.take(k) + tr =~= t0.take(k + tr.len()));
            blen_add(t0.take(k + tr.len()), t0.skip(k + tr.len())); assert(t0.take(k + tr.len()) + t0.skip(k + tr.len()) =~= t0);
            assert(k <= a) by { if a < k { assert(t0.subrange(a, a + tr.len()) != tr); } }
            if tr.len() > 0 {
                assert(t0.subrange(k, k + tr.len())[0] == t0[k]);
                if k < a { assert(t0.take(a)[k] == t0[k]); assert(ws(t0[k])); }
            } else { assert(k == 0) by { if k > 0 { assert(t0.subrange(0int, 0int + tr.len()) =~= tr); } } }
        }
//@after vx_drain_from(
        proof { assert forall|m: int| 0 <= m <= t0.len() && end == blen(#[trigger] t0.take(m)) implies m == k + tr.len() by { blen_inj(t0, m, k + tr.len()); }
            assert(s@ == t0.take(k + tr.len())); assert(s@.take(k) =~= t0.take(k)); 
            assert forall|m: int| 0 <= m <= s@.len() && start == blen(#[trigger] s@.take(m)) implies m == k by { blen_inj(s@, m, k); }
        }
//@after vx_drain_to(
        proof { assert(s@ =~= tr); if tr.len() == 0 { assert(a == b); assert(t0 =~= t0.take(a) + t0.skip(b)); } assert(t0.subrange(a, b) == s@); }
//@end
impl<'db> Strings<'db> {
//@fn Strings::clean_docstring
//@sig fn clean_docstring(&self) -> (r: Option<Cow<'db>>)
    ensures r is Some <==> self.value() is Some,
        r is Some ==> exists|o: T| #[trigger] dedented(self.value()->0, o) && (cow(r->0) == o || trimmed_of(o, cow(r->0))),
//@end
}
}
fn main() {}
