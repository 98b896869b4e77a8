#![allow(warnings)]
// C09: byte offsets and line/column positions (crates/zuban_python/src/lines.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;

type CodeIndex = u32;
struct VxErr;
fn vx_err() -> VxErr { VxErr }

//@include lines_spec.inc
/// std: the regex \n|\r\n|\r matches exactly the line breaks, leftmost-longest by its alternation order.
#[verifier::external_body]
struct VxMatches<'a> { x: &'a str }
struct VxMatch { end: usize }
impl VxMatch { fn end(&self) -> (r: usize) ensures r == self.end { self.end } }
impl<'a> VxMatches<'a> {
    uninterp spec fn b(&self) -> Seq<u8>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<VxMatch>)
        ensures
            final(self).b() == old(self).b(),
            r is Some ==> final(self).at() == (r->0).end && line_end(old(self).b(), (r->0).end as int) && old(self).at() < (r->0).end
                && forall|i: int| old(self).at() < i < (r->0).end ==> !line_end(old(self).b(), i),
            r is None ==> final(self).at() == old(self).b().len() && forall|i: int| old(self).at() < i ==> !line_end(old(self).b(), i),
            0 <= final(self).at() <= final(self).b().len(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_newlines<'a>(s: &'a str) -> (r: VxMatches<'a>) ensures r.b() == bts(s), r.at() == 0 { unimplemented!() }
fn vx_as_slice(v: &Option<Vec<u32>>) -> (r: &[u32]) requires v is Some, ensures r@ == v->0@ { match v { Some(x) => x.as_slice(), None => { vx_unreachable() } } }
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { panic!() }

//@file crates/zuban_python/src/lines.rs
//@expect static ref NEWLINES: Regex = Regex::new(r"\n|\r\n|\r").unwrap();
//@rw $x.is_char_boundary($i) ==> vx_bnd($x, $i)
//@rw &$s[$a..$b] ==> vx_slice($s, $a, $b)
//@rw &$s[$a..] ==> vx_slice_from($s, $a)
//@rw $x.strip_suffix($c) ==> vx_strip_suffix($x, $c)
//@rw code.len() ==> vx_len(code)
//@rw rest_line.len() ==> vx_len(rest_line)
//@rw s.len() ==> vx_len(s)
//@rw $x.encode_utf16().count() ==> vx_utf16_count($x)
//@rw $x.chars().count() ==> vx_chars_count($x)
//@rw $x.char_indices() ==> vx_char_indices($x)
//@rw $c.len_utf16() ==> vx_len_utf16($c)
//@rw $c.len_utf8() ==> vx_len_utf8($c)
//@rw NEWLINES.find_iter($x) ==> vx_newlines($x)
//@rw $v.into_boxed_slice() ==> $v
//@rw $x.get_or_init(|| $b) ==> { if $x.is_none() { let v__ = $b; $x = Some(v__); } vx_as_slice(&$x) }
//@rw OnceLock::new() ==> None
//@rw $v.partition_point(|$p| $b) ==> { let v__ = $v; let mut i__ = 0; while i__ < v__.len() { let $p = &v__[i__]; if !($b) { break; } i__ = i__ + 1; } i__ }
//@rw $x.map(|$p| $b).unwrap_or($d) ==> match $x { Some($p) => $b, None => $d }
//@rw $x.chars().take($n).count() ==> { let mut it__ = vx_char_indices($x); let mut n__ = 0; let m__ = $n; while n__ < m__ { match it__.vx_next() { Some(c__) => { n__ = n__ + 1; }, None => { break; } } } n__ }
//@rw $x.chars().take($n).map(|$c| $b).sum::<CodeIndex>() ==> { let mut it__ = vx_char_indices($x); let mut n__ = 0; let m__ = $n; let mut sum__: CodeIndex = 0; while n__ < m__ { match it__.vx_next() { Some(c__) => { let $c = c__.1; sum__ = sum__ + $b; n__ = n__ + 1; }, None => { break; } } } sum__ }
//@tyrw anyhow :: Result<CodeIndex> ==> Result<CodeIndex, VxErr>
//@tyrw anyhow :: Result<BytePositionInfos> ==> Result<BytePositionInfos, VxErr>
//@tyrw std :: ops :: Range<CodeIndex> ==> VxRange
//@struct PositionInfos
struct VxRange { start: CodeIndex, end: CodeIndex }
/// x is where the line that holds p starts / stops.
spec fn start_for(b: Seq<u8>, v: Seq<u32>, p: int, x: int) -> bool { exists|m: int| #[trigger] located(b, v, p, m, x) }
spec fn stop_for(b: Seq<u8>, v: Seq<u32>, p: int, x: int) -> bool { exists|n: int| #[trigger] located(b, v, p, n, lstart(v, n)) && x == lstop(b, v, n) }
impl NewlineIndices {
//@fn NewlineIndices::new
    ensures r.0 is None,
//@end
//@fn NewlineIndices::lines
//@sig fn lines(&mut self, code: &str) -> (r: &[CodeIndex])
//@rw Vec::new() ==> Vec::<u32>::new()
    requires bts(code).len() < u32::MAX,
    ensures r@ == old(self).idx(bts(code)), final(self).0 is Some, final(self).0->0@ == r@, line_ends(bts(code), ends(bts(code))),
//@begin
    proof { utf8(code); utf8_follow(code); ends_exist(bts(code)); }
//@loop 0
    invariant
        it__0.b() == bts(code), bts(code).len() < u32::MAX, 0 <= it__0.at() <= bts(code).len(),
        forall|k: int| 0 <= k < v@.len() ==> line_end(bts(code), #[trigger] v@[k] as int) && v@[k] <= it__0.at(),
        forall|k: int, l: int| 0 <= k < l < v@.len() ==> (#[trigger] v@[k]) < (#[trigger] v@[l]),
        forall|i: int| i <= it__0.at() && line_end(bts(code), i) ==> exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == i,
    ensures
        line_ends(bts(code), v@), v@ == ends(bts(code)),
    decreases bts(code).len() - it__0.at(),
//@loopbegin 0
    let ghost v0__ = v@;
    let ghost at0__ = it__0.at();
    proof { if line_ends(bts(code), v@) { ends_are(bts(code), v@); } }
//@loopend 0
    proof {
        assert forall|i: int| i <= it__0.at() && line_end(bts(code), i) implies exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == i by {
            if i <= at0__ {
                let k = choose|k: int| 0 <= k < v0__.len() && #[trigger] v0__[k] == i;
                assert(v@[k] == i);
            } else {
                assert(v@[v0__.len() as int] == i);
            }
        }
    }
//@end

//@fn NewlineIndices::line_column_to_byte/line_infos name=line_infos
//@sig fn line_infos<'a>(&mut self, code: &'a str, line: usize) -> (r: Result<(CodeIndex, &'a str), VxErr>)
    requires bts(code).len() < u32::MAX, old(self).agrees(bts(code), line as int),
    ensures
        final(self).0 is Some, final(self).0->0@ == old(self).idx(bts(code)),
        ({ let v = ends(bts(code)); match r {
            Ok((start, l)) => line <= v.len() && start == lstart(v, line as int) && bts(l) == line_of(bts(code), v, line as int)
                && lstart(v, line as int) <= lstop(bts(code), v, line as int) <= bts(code).len() && starts_ok(bts(l)),
            Err(_) => line > v.len(),
        } }), line_ends(bts(code), ends(bts(code))),
//@begin
    proof { utf8(code); utf8_follow(code); }
//@after let lines = self.lines(code);
    proof {
        let e = ends(bts(code));
        assert(agree(lines@, e, line as int));
        if line > 0 { assert(((line - 1) < lines@.len()) <==> ((line - 1) < e.len())); }
        if line < e.len() { assert(lines@[line as int] == e[line as int]); }
        if line <= e.len() { line_bnd(bts(code), e, line as int); }
        if line > 0 && line <= e.len() { assert(lines@[line - 1] == e[line - 1]); assert(line_end(bts(code), e[line - 1] as int)); }
        assert(line == 0 || line > e.len() || lstart(e, line as int) == lines@[line - 1]);
    }
//@end

//@fn NewlineIndices::line_column_to_byte
//@drop line_infos
//@sig fn line_column_to_byte(&mut self, code: &str, input: InputPosition) -> (r: Result<BytePositionInfos, VxErr>)
//@rw line_infos($l) ==> self.line_infos(code, $l)
    requires bts(code).len() < u32::MAX, old(self).agrees(bts(code), line_no(input)),
    ensures conv(bts(code), ends(bts(code)), input, r), line_ends(bts(code), ends(bts(code))),
        line_no(input) >= 0 ==> final(self).0 is Some && final(self).0->0@ == old(self).idx(bts(code)),
        line_no(input) < 0 ==> *final(self) == *old(self),
//@begin
    proof { utf8(code); ends_exist(bts(code)); }
//@loop 0
    invariant
        count_ok(bts(rest_line), it__.at(), m__ as int) || n__ < m__,
        it__.b() == bts(rest_line), 0 <= it__.at() <= it__.b().len(), bnd(it__.b(), it__.at()), n__ <= m__, m__ == column, bts(rest_line).len() < u32::MAX,
        sum__ == it__.at(), n__ == len1(it__.b().subrange(0, it__.at())),
    ensures
        it__.b() == bts(rest_line), 0 <= it__.at() <= it__.b().len(), bnd(it__.b(), it__.at()), n__ <= m__, 
        sum__ == it__.at(), n__ == len1(it__.b().subrange(0, it__.at())), n__ < m__ ==> it__.at() == it__.b().len(),
        count_ok(bts(rest_line), it__.at(), m__ as int),
    decreases it__.b().len() - it__.at(),
//@loopbegin 0
    let ghost at0__ = it__.at();
    proof { count_done(bts(rest_line), it__.at(), m__ as int); }
//@loopend 0
    proof { step(it__.b(), at0__, it__.at()); count_done(bts(rest_line), it__.at(), m__ as int); }
//@loop 1
    invariant
        n__ == m__ ==> len1(bts(rest_line)) >= m__,
        it__.b() == bts(rest_line), 0 <= it__.at() <= it__.b().len(), bnd(it__.b(), it__.at()), n__ <= m__, m__ == column, bts(rest_line).len() < u32::MAX,
        n__ == len1(it__.b().subrange(0, it__.at())),
    ensures
        n__ == if len1(bts(rest_line)) < m__ { len1(bts(rest_line)) } else { m__ as nat },
    decreases it__.b().len() - it__.at(),
//@loopbegin 1
    let ghost at0__ = it__.at();
    proof { count_done(bts(rest_line), it__.at(), m__ as int); }
//@loopend 1
    proof { step(it__.b(), at0__, it__.at()); count_done(bts(rest_line), it__.at(), m__ as int); }
//@end

//@fn NewlineIndices::line_column_to_safe_byte
//@sig fn line_column_to_safe_byte(&mut self, code: &str, input: InputPosition) -> (r: Result<CodeIndex, VxErr>)
    requires bts(code).len() < u32::MAX, old(self).agrees(bts(code), line_no(input)),
    ensures
        line_ends(bts(code), ends(bts(code))),
        line_no(input) >= 0 ==> final(self).0 is Some && final(self).0->0@ == old(self).idx(bts(code)),
        line_no(input) < 0 ==> *final(self) == *old(self),
        ({ let v = ends(bts(code)); match r {
            Ok(byte) => conv(bts(code), v, input, Ok(BytePositionInfos { byte, column_out_of_bounds: false })),
            Err(_) => exists|x: Result<BytePositionInfos, VxErr>| #[trigger] conv(bts(code), v, input, x) && (x is Err || x->Ok_0.column_out_of_bounds),
        } }),
//@end

//@fn NewlineIndices::position_infos
//@sig fn position_infos<'code>(&mut self, code: &'code str, byte_position: CodeIndex) -> (r: PositionInfos<'code>)
    requires bts(code).len() < u32::MAX, old(self).exact(bts(code)),
    ensures final(self).exact(bts(code)), r.byte_position == byte_position, r.code == code,
        located(bts(code), ends(bts(code)), byte_position as int, r.line as int, r.line_offset_in_code as int), line_ends(bts(code), ends(bts(code))),
//@after let lines = self.lines(code);
    proof {
    }
//@loop 0
    invariant
        v__@ == lines@, i__ <= v__.len(), line_ends(bts(code), lines@),
        forall|k: int| 0 <= k < i__ ==> (#[trigger] lines@[k]) <= byte_position,
    ensures
        i__ <= lines@.len(), i__ < lines@.len() ==> byte_position < lines@[i__ as int],
    decreases v__.len() - i__,
//@end

//@fn NewlineIndices::expand_range_to_full_lines
//@sig fn expand_range_to_full_lines(&mut self, code: &str, range: VxRange) -> (r: VxRange)
    requires bts(code).len() < u32::MAX, old(self).exact(bts(code)),
    ensures final(self).exact(bts(code)),
        start_for(bts(code), ends(bts(code)), range.start as int, r.start as int), stop_for(bts(code), ends(bts(code)), range.end as int, r.end as int),
//@before VxRange
    proof {
        let v = ends(bts(code));
        assert(located(bts(code), v, range.start as int, infos_start.line as int, (infos_start.line_offset_in_code as CodeIndex) as int));
        assert(located(bts(code), v, range.end as int, infos_end.line as int, lstart(v, infos_end.line as int)));
        if infos_end.line < v.len() { assert(line_end(bts(code), v[infos_end.line as int] as int)); }
        assert(lines@ == v);
        assert(end == lstop(bts(code), v, infos_end.line as int));
        assert(start_for(bts(code), v, range.start as int, infos_start.line_offset_in_code as int));
        assert(stop_for(bts(code), v, range.end as int, end as int));
    }
//@rw $a..end ==> VxRange { start: $a, end: end }
//@end
}

//@fn utf16_to_utf8_byte_offset
    requires bts(s).len() < u32::MAX,
    ensures result16(bts(s), utf16_pos as int, minus(r, 0)), r is Ok ==> r->Ok_0.byte <= bts(s).len(),
//@begin
    proof { utf8(s); assert(bts(s).subrange(0, bts(s).len() as int) =~= bts(s)); }
//@loop 0
    invariant
        it__0.b() == bts(s), 0 <= it__0.at() <= it__0.b().len(), bnd(it__0.b(), it__0.at()), bts(s).len() < u32::MAX, starts_ok(bts(s)),
        utf16_count == len16(bts(s).subrange(0, it__0.at())), utf16_count <= utf16_pos,
    ensures
        it__0.at() == bts(s).len(), utf16_count == len16(bts(s).subrange(0, it__0.at())), utf16_count <= utf16_pos,
    decreases it__0.b().len() - it__0.at(),
//@loopbegin 0
    let ghost at0__ = it__0.at();
//@before #0 if utf16_count + char_utf16_len > utf16_pos
    proof {
        step(it__0.b(), at0__, it__0.at());
        small16(bts(s), at0__);
    }
//@before #0 return Err(vx_err())
    proof {
        assert forall|k: int| !#[trigger] pos16(bts(s), utf16_pos as int, k) by {
            if pos16(bts(s), utf16_pos as int, k) {
                if k <= at0__ { len_add(bts(s), k, at0__); } else if k < it__0.at() { assert(cont(bts(s)[k])); } else { len_add(bts(s), it__0.at(), k); }
            }
        }
        len_add(bts(s), it__0.at(), bts(s).len() as int);
        assert(bts(s).subrange(0, bts(s).len() as int) =~= bts(s));
    }
//@end

proof fn small16(b: Seq<u8>, i: int) requires 0 <= i <= b.len(), ensures len16(b.subrange(0, i)) <= 2 * i decreases i {
    if i > 0 { small16(b, i - 1); assert(b.subrange(0, i).drop_last() =~= b.subrange(0, i - 1)); }
}

impl<'code> PositionInfos<'code> {
    spec fn wf(&self) -> bool {
        self.line_offset_in_code <= self.byte_position <= bts(self.code).len() && bnd(bts(self.code), self.line_offset_in_code as int) && bnd(bts(self.code), self.byte_position as int)
            && self.line < usize::MAX
    }
    spec fn part(&self) -> Seq<u8> { bts(self.code).subrange(self.line_offset_in_code as int, self.byte_position as int) }
//@fn PositionInfos::utf8_bytes_column
    requires self.wf(), ensures r == self.byte_position - self.line_offset_in_code,
//@end
//@fn PositionInfos::utf16_code_units_column
    requires self.wf(), ensures r == len16(self.part()),
//@end
//@fn PositionInfos::code_points_column
    requires self.wf(), ensures r == len1(self.part()),
//@end
//@fn PositionInfos::line_zero_based
    ensures r == self.line,
//@end
//@fn PositionInfos::line_one_based
    requires self.wf(), ensures r == self.line + 1,
//@end
//@fn PositionInfos::line_part
    requires self.wf(), ensures bts(r) == self.part(),
//@end
//@fn PositionInfos::code_until
    requires self.byte_position <= end_pos.byte_position <= bts(self.code).len(), bnd(bts(self.code), self.byte_position as int), bnd(bts(self.code), end_pos.byte_position as int),
    ensures bts(r) == bts(self.code).subrange(self.byte_position as int, end_pos.byte_position as int),
//@end
}

/// The property: the position reported for a boundary, in any of the three units, converts back to it.
proof fn round_trip(b: Seq<u8>, p: int, line: usize, off: int, column: usize, input: InputPosition, r: Result<BytePositionInfos, VxErr>)
    requires
        starts_ok(b), utf8_ends(b), line_ends(b, ends(b)), 0 <= p <= b.len(), b.len() < u32::MAX, bnd(b, p), located(b, ends(b), p, line as int, off),
        ({
            ||| input == InputPosition::Utf8Bytes { line, column } && column == p - off
            ||| input == InputPosition::Utf16CodeUnits { line, column } && column == len16(b.subrange(off, p))
            ||| input == InputPosition::CodePoints { line, column } && column == len1(b.subrange(off, p))
            ||| input == InputPosition::NthUTF8Byte(column) && column == p
        }),
        conv(b, ends(b), input, r),
    ensures r is Ok, r->Ok_0.byte == p, !r->Ok_0.column_out_of_bounds,
{
    let v = ends(b);
    line_bnd(b, v, line as int);
    let l = line_of(b, v, line as int);
    let k = p - off;
    assert(bnd(l, k));
    assert(starts_ok(l)) by { if off < b.len() && off > 0 { assert(l.len() > 0 ==> l[0] == b[off]); } }
    assert(l.subrange(0, k) =~= b.subrange(off, p));
    assert(pos16(l, len16(b.subrange(off, p)) as int, k));
    assert(pos1(l, len1(b.subrange(off, p)) as int, k));
    len_add(l, k, l.len() as int);
    assert(l.subrange(0, l.len() as int) =~= l);
    match minus(r, off) {
        Ok((j, oob)) => {
            if !oob && (input is Utf16CodeUnits || input is CodePoints) {
                if j < k { strict(l, j, k); } else if k < j { strict(l, k, j); }
            }
        },
        Err(_) => {},
    }
}
/// Two boundaries never share a position.
proof fn positions_distinct(b: Seq<u8>, p: int, q: int, line: int, off: int)
    requires starts_ok(b), line_ends(b, ends(b)), utf8_ends(b), 0 <= p < q <= b.len(), bnd(b, p), bnd(b, q), located(b, ends(b), p, line, off), located(b, ends(b), q, line, off),
    ensures len16(b.subrange(off, p)) < len16(b.subrange(off, q)), len1(b.subrange(off, p)) < len1(b.subrange(off, q)),
{
    strict(b, p, q);
    len_add(b, off, p);
    len_add(b, off, q);
}
}
fn main() {}
