//@include str_spec.inc
/// `at` is where m characters of l (or all of them) end.
spec fn count_ok(l: Seq<u8>, at: int, m: int) -> bool {
    0 <= at <= l.len() && if len1(l) < m { at == l.len() } else { bnd(l, at) && len1(l.subrange(0, at)) == m }
}
proof fn count_done(l: Seq<u8>, at: int, m: int)
    requires 0 <= at <= l.len(), bnd(l, at), len1(l.subrange(0, at)) <= m,
    ensures
        len1(l.subrange(0, at)) == m ==> count_ok(l, at, m) && len1(l) >= m,
        at == l.len() && len1(l.subrange(0, at)) < m ==> count_ok(l, at, m) && len1(l) == len1(l.subrange(0, at)),
{
    len_add(l, at, l.len() as int);
    assert(l.subrange(0, l.len() as int) =~= l);
}
// ---- line structure
/// A line ends before i: after LF, after CRLF, after a CR that is not followed by LF.
spec fn line_end(b: Seq<u8>, i: int) -> bool {
    1 <= i <= b.len() && (b[i - 1] == 10 || (b[i - 1] == 13 && !(i < b.len() && b[i] == 10)))
}
/// v lists exactly the line ends, ascending.
spec fn line_ends(b: Seq<u8>, v: Seq<u32>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> line_end(b, #[trigger] v[k] as int)
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> (#[trigger] v[k]) < (#[trigger] v[l])
    &&& forall|i: int| line_end(b, i) ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == i
}
proof fn ends_unique(b: Seq<u8>, v: Seq<u32>, w: Seq<u32>, k: int)
    requires line_ends(b, v), line_ends(b, w), 0 <= k <= v.len(),
    ensures k <= w.len(), forall|i: int| 0 <= i < k ==> v[i] == w[i],
    decreases k,
{
    if k > 0 {
        ends_unique(b, v, w, k - 1);
        let i = k - 1;
        assert(line_end(b, v[i] as int));
        let m = choose|m: int| 0 <= m < w.len() && #[trigger] w[m] == v[i];
        if m < i { assert(v[m] == w[m]); assert(v[m] < v[i]); }
        if m > i {
            assert(w[i] < w[m]);
            assert(line_end(b, w[i] as int));
            let q = choose|q: int| 0 <= q < v.len() && #[trigger] v[q] == w[i];
            if q < i { assert(v[q] == w[q]); assert(w[q] < w[i]); }
            if q > i { assert(v[i] < v[q]); }
        }
    }
}
/// The line ends of a text.
spec fn ends(b: Seq<u8>) -> Seq<u32> { choose|v: Seq<u32>| line_ends(b, v) }
proof fn ends_are(b: Seq<u8>, v: Seq<u32>) requires line_ends(b, v), ensures ends(b) == v, line_ends(b, ends(b)) {
    let w = ends(b);
    ends_unique(b, v, w, v.len() as int);
    ends_unique(b, w, v, w.len() as int);
    assert(w =~= v);
}
spec fn upto(b: Seq<u8>, i: int) -> Seq<u32> decreases i { if i <= 0 { Seq::empty() } else if line_end(b, i) { upto(b, i - 1).push(i as u32) } else { upto(b, i - 1) } }
proof fn upto_props(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), b.len() < u32::MAX,
    ensures
        forall|k: int| 0 <= k < upto(b, i).len() ==> line_end(b, #[trigger] upto(b, i)[k] as int) && upto(b, i)[k] <= i,
        forall|k: int, l: int| 0 <= k < l < upto(b, i).len() ==> (#[trigger] upto(b, i)[k]) < (#[trigger] upto(b, i)[l]),
        forall|j: int| #[trigger] line_end(b, j) && j <= i ==> exists|k: int| 0 <= k < upto(b, i).len() && #[trigger] upto(b, i)[k] == j,
    decreases i,
{
    if i > 0 {
        upto_props(b, i - 1);
        let (u, w) = (upto(b, i - 1), upto(b, i));
        assert forall|j: int| #[trigger] line_end(b, j) && j <= i implies exists|k: int| 0 <= k < w.len() && #[trigger] w[k] == j by {
            if j == i { assert(w[w.len() - 1] == j); } else { let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k] == j; assert(w[k] == j); }
        }
    }
}
/// Every text has its line ends.
proof fn ends_exist(b: Seq<u8>) requires b.len() < u32::MAX, ensures line_ends(b, ends(b)) {
    upto_props(b, b.len() as int);
    ends_are(b, upto(b, b.len() as int));
}
//@file crates/zuban_python/src/lib.rs
//@enum InputPosition
//@file crates/zuban_python/src/lines.rs
//@struct BytePositionInfos

/// Start and end (before the final LF/CR byte) of line n.
spec fn lstart(v: Seq<u32>, n: int) -> int { if n <= 0 { 0 } else { v[n - 1] as int } }
spec fn lstop(b: Seq<u8>, v: Seq<u32>, n: int) -> int { if n < v.len() { v[n] - 1 } else { b.len() as int } }
proof fn line_bnd(b: Seq<u8>, v: Seq<u32>, n: int)
    requires line_ends(b, v), 0 <= n <= v.len(), starts_ok(b), utf8_ends(b),
    ensures bnd(b, lstart(v, n)), bnd(b, lstop(b, v, n)), 0 <= lstart(v, n) <= lstop(b, v, n) <= b.len(),
{
    if n > 0 { assert(line_end(b, v[n - 1] as int)); }
    if n < v.len() { assert(line_end(b, v[n] as int)); if n > 0 { assert(v[n - 1] < v[n]); } }
}

// ---- what a client position denotes
/// Column c of the text l, in units that f counts (monotone).
spec fn pos16(l: Seq<u8>, c: int, k: int) -> bool { 0 <= k <= l.len() && bnd(l, k) && len16(l.subrange(0, k)) == c }
spec fn pos1(l: Seq<u8>, c: int, k: int) -> bool { 0 <= k <= l.len() && bnd(l, k) && len1(l.subrange(0, k)) == c }
spec fn line_of(b: Seq<u8>, v: Seq<u32>, n: int) -> Seq<u8> { b.subrange(lstart(v, n), lstop(b, v, n)) }

spec fn result8(l: Seq<u8>, c: int, r: Result<(int, bool), ()>) -> bool {
    if c >= l.len() { r == Ok::<_, ()>((l.len() as int, c > l.len())) } else if bnd(l, c) { r == Ok::<_, ()>((c, false)) } else { r is Err }
}
spec fn result16(l: Seq<u8>, c: int, r: Result<(int, bool), ()>) -> bool {
    match r {
        Ok((k, oob)) => if oob { k == l.len() && c > len16(l) } else { pos16(l, c, k) },
        Err(_) => c < len16(l) && forall|k: int| !#[trigger] pos16(l, c, k),
    }
}
spec fn result1(l: Seq<u8>, c: int, r: Result<(int, bool), ()>) -> bool {
    match r {
        Ok((k, oob)) => if oob { k == l.len() && c > len1(l) } else { pos1(l, c, k) },
        Err(_) => false,
    }
}
spec fn minus(r: Result<BytePositionInfos, VxErr>, s: int) -> Result<(int, bool), ()> {
    match r { Ok(i) => Ok((i.byte - s, i.column_out_of_bounds)), Err(_) => Err(()) }
}
spec fn conv(b: Seq<u8>, v: Seq<u32>, input: InputPosition, r: Result<BytePositionInfos, VxErr>) -> bool {
    match input {
        InputPosition::NthUTF8Byte(pos) => result8(b, pos as int, minus(r, 0)),
        InputPosition::Utf8Bytes { line, column } => if line > v.len() { r is Err } else { result8(line_of(b, v, line as int), column as int, minus(r, lstart(v, line as int))) },
        InputPosition::Utf16CodeUnits { line, column } => if line > v.len() { r is Err } else { result16(line_of(b, v, line as int), column as int, minus(r, lstart(v, line as int))) },
        InputPosition::CodePoints { line, column } => if line > v.len() { r is Err } else { result1(line_of(b, v, line as int), column as int, minus(r, lstart(v, line as int))) },
    }
}
/// What position_infos reports for a byte.
spec fn located(b: Seq<u8>, v: Seq<u32>, p: int, line: int, off: int) -> bool {
    0 <= line <= v.len() && off == lstart(v, line) && off <= p && (line < v.len() ==> p < v[line])
}


// ---- the cache. OnceLock::get_or_init through a shared reference is written as filling an Option through &mut.
struct NewlineIndices(Option<Vec<u32>>);
/// Up to line n an index serves like the real one.
spec fn agree(v: Seq<u32>, e: Seq<u32>, n: int) -> bool {
    &&& v.len() == e.len() || (v.len() > n && e.len() > n)
    &&& forall|k: int| 0 <= k <= n && k < v.len() ==> #[trigger] v[k] == e[k]
}
impl NewlineIndices {
    /// What the cache holds once it is used with the text b.
    spec fn idx(&self, b: Seq<u8>) -> Seq<u32> { match self.0 { Some(v) => v@, None => ends(b) } }
    spec fn agrees(&self, b: Seq<u8>, n: int) -> bool { self.0 is Some ==> agree(self.0->0@, ends(b), n) }
    spec fn exact(&self, b: Seq<u8>) -> bool { self.0 is Some ==> self.0->0@ == ends(b) && line_ends(b, ends(b)) }
}
spec fn line_no(i: InputPosition) -> int {
    match i { InputPosition::NthUTF8Byte(_) => -1, InputPosition::Utf8Bytes { line, column } => line as int, InputPosition::Utf16CodeUnits { line, column } => line as int, InputPosition::CodePoints { line, column } => line as int }
}
