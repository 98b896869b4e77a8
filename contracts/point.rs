#![allow(warnings)]
// C15: packed per-node records (crates/zuban_python/src/database.rs)
use vstd::prelude::*;
verus! {

// ---- the crate's types this file needs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
struct FileIndex(u32);
type NodeIndex = u32;
fn vx_assert(b: bool) requires b {}

//@file crates/zuban_python/src/database.rs
//@constfold IS_ANALIZED_BIT_INDEX IN_GLOBAL_SCOPE_INDEX LOCALITY_BIT_INDEX NEEDS_FLOW_ANALYSIS_BIT_INDEX KIND_BIT_INDEX
//@constfold REST_MASK SPECIFIC_BIT_LEN SPECIFIC_MASK IS_ANALIZED_MASK IN_GLOBAL_SCOPE_MASK NEEDS_FLOW_ANALYSIS_MASK LOCALITY_MASK KIND_MASK
//@constfold FUNCTION_CHECKED_INDEX FUNCTION_CHECKED_MASK PARTIAL_NULLABLE_INDEX PARTIAL_NULLABLE_MASK PARTIAL_REPORTED_ERROR_INDEX
//@constfold PARTIAL_REPORTED_ERROR_MASK PARTIAL_FINISHED_INDEX PARTIAL_FINISHED_MASK
//@constfold CALCULATED_OR_REDIRECT_LIKE_KIND_OR_REST_MASK REDIRECT_KIND_VALUE
//@enum PointKind #[derive(PartialEq, Eq, Structural, Clone, Copy)] #[repr(u32)]
//@enum Specific #[derive(PartialEq, Eq, Structural, Clone, Copy)] #[repr(u32)]
//@enum Locality #[derive(PartialEq, Eq, Structural, Clone, Copy)] #[repr(u32)]
//@struct Point #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@struct PointLink #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@struct PartialFlags

// ---- what a record says
spec fn calc(p: Point) -> bool { p.flags & IS_ANALIZED_MASK != 0 }
spec fn kindb(p: Point) -> u32 { (p.flags & KIND_MASK) >> KIND_BIT_INDEX }
spec fn locb(p: Point) -> u32 { (p.flags & LOCALITY_MASK) >> LOCALITY_BIT_INDEX }
spec fn restb(p: Point) -> u32 { p.flags & REST_MASK }
spec fn specb(p: Point) -> u32 { p.flags & SPECIFIC_MASK }
spec fn flow(p: Point) -> bool { p.flags & NEEDS_FLOW_ANALYSIS_MASK != 0 }
spec fn global(p: Point) -> bool { p.flags & IN_GLOBAL_SCOPE_MASK != 0 }
spec fn checked(p: Point) -> bool { p.flags & FUNCTION_CHECKED_MASK != 0 }
spec fn nullable(p: Point) -> bool { p.flags & PARTIAL_NULLABLE_MASK != 0 }
spec fn reported(p: Point) -> bool { p.flags & PARTIAL_REPORTED_ERROR_MASK != 0 }
spec fn finished(p: Point) -> bool { p.flags & PARTIAL_FINISHED_MASK != 0 }
spec fn fits(x: u32) -> bool { x & !REST_MASK == 0 }

spec fn kv(k: PointKind) -> u32 { k as u32 }
spec fn lv(k: Locality) -> u32 { k as u32 }
spec fn sv(k: Specific) -> u32 { k as u32 }
spec fn is_kv(x: u32) -> bool { exists|k: PointKind| #[trigger] kv(k) == x }
spec fn is_lv(x: u32) -> bool { exists|k: Locality| #[trigger] lv(k) == x }
spec fn is_sv(x: u32) -> bool { exists|k: Specific| #[trigger] sv(k) == x }
/// Everything but the payload's flag bits is the same.
spec fn same_fields(p: Point, q: Point) -> bool {
    calc(p) == calc(q) && kindb(p) == kindb(q) && locb(p) == locb(q) && specb(p) == specb(q) && p.node_index == q.node_index
}
/// Only discriminants that exist are stored.
spec fn inv(p: Point) -> bool {
    &&& is_lv(locb(p))
    &&& calc(p) ==> is_kv(kindb(p))
    &&& calc(p) && kindb(p) == PointKind::Specific as u32 ==> is_sv(specb(p))
}
/// A freshly packed record.
spec fn packed(p: Point, kind: PointKind, rest: u32, locality: Locality) -> bool {
    calc(p) && kindb(p) == kv(kind) && locb(p) == lv(locality) && restb(p) == rest && !flow(p) && !global(p)
}

// ---- transmutes of a u32 into a repr(u32) enum: defined exactly for existing discriminants
#[verifier::external_body]
fn vx_kind(x: u32) -> (r: PointKind) requires is_kv(x), ensures r as u32 == x { unsafe { std::mem::transmute(x) } }
#[verifier::external_body]
fn vx_locality(x: u32) -> (r: Locality) requires is_lv(x), ensures r as u32 == x { unsafe { std::mem::transmute(x) } }
#[verifier::external_body]
fn vx_specific(x: u32) -> (r: Specific) requires is_sv(x), ensures r as u32 == x { unsafe { std::mem::transmute(x) } }

proof fn small(k: PointKind, l: Locality, s: Specific)
    ensures k as u32 <= 7, l as u32 <= 7, s as u32 <= SPECIFIC_MASK, s as u32 & !REST_MASK == 0,
{
    assert(k as u32 <= 7);
    assert(l as u32 <= 7);
    let su = s as u32;
    assert(su <= SPECIFIC_MASK);
    assert(su & !REST_MASK == 0) by (bit_vector) requires su <= SPECIFIC_MASK;
}
proof fn fits_le(x: u32) ensures fits(x) == (x <= REST_MASK) {
    assert((x & !REST_MASK == 0) == (x <= REST_MASK)) by (bit_vector);
}
proof fn pack(f: u32, rest: u32, l: u32, k: u32)
    requires f == rest | IS_ANALIZED_MASK | l << LOCALITY_BIT_INDEX | k << KIND_BIT_INDEX, rest & !REST_MASK == 0, l <= 7, k <= 7,
    ensures
        f & IS_ANALIZED_MASK != 0, (f & KIND_MASK) >> KIND_BIT_INDEX == k, (f & LOCALITY_MASK) >> LOCALITY_BIT_INDEX == l,
        f & REST_MASK == rest, f & NEEDS_FLOW_ANALYSIS_MASK == 0, f & IN_GLOBAL_SCOPE_MASK == 0,
        f & SPECIFIC_MASK == rest & SPECIFIC_MASK,
{
    assert(f & IS_ANALIZED_MASK != 0) by (bit_vector) requires f == rest | IS_ANALIZED_MASK | l << LOCALITY_BIT_INDEX | k << KIND_BIT_INDEX;
    assert((f & KIND_MASK) >> KIND_BIT_INDEX == k) by (bit_vector) requires f == rest | IS_ANALIZED_MASK | l << LOCALITY_BIT_INDEX | k << KIND_BIT_INDEX, rest & !REST_MASK == 0, l <= 7, k <= 7;
    assert((f & LOCALITY_MASK) >> LOCALITY_BIT_INDEX == l) by (bit_vector) requires f == rest | IS_ANALIZED_MASK | l << LOCALITY_BIT_INDEX | k << KIND_BIT_INDEX, rest & !REST_MASK == 0, l <= 7, k <= 7;
    assert(f & REST_MASK == rest) by (bit_vector) requires f == rest | IS_ANALIZED_MASK | l << LOCALITY_BIT_INDEX | k << KIND_BIT_INDEX, rest & !REST_MASK == 0, l <= 7, k <= 7;
    assert(f & NEEDS_FLOW_ANALYSIS_MASK == 0) by (bit_vector) requires f == rest | IS_ANALIZED_MASK | l << LOCALITY_BIT_INDEX | k << KIND_BIT_INDEX, rest & !REST_MASK == 0, l <= 7, k <= 7;
    assert(f & IN_GLOBAL_SCOPE_MASK == 0) by (bit_vector) requires f == rest | IS_ANALIZED_MASK | l << LOCALITY_BIT_INDEX | k << KIND_BIT_INDEX, rest & !REST_MASK == 0, l <= 7, k <= 7;
    assert(f & SPECIFIC_MASK == rest & SPECIFIC_MASK) by (bit_vector) requires f == rest | IS_ANALIZED_MASK | l << LOCALITY_BIT_INDEX | k << KIND_BIT_INDEX, rest & !REST_MASK == 0, l <= 7, k <= 7;
}
proof fn spec_rest(s: Specific) ensures is_sv(s as u32), s as u32 & SPECIFIC_MASK == s as u32, s as u32 & !REST_MASK == 0,
    s as u32 & FUNCTION_CHECKED_MASK == 0, s as u32 & PARTIAL_NULLABLE_MASK == 0, s as u32 & PARTIAL_REPORTED_ERROR_MASK == 0, s as u32 & PARTIAL_FINISHED_MASK == 0,
{
    let x = s as u32;
    assert(sv(s) == x);
    assert(x <= SPECIFIC_MASK);
    assert(x & SPECIFIC_MASK == x && x & !REST_MASK == 0 && x & FUNCTION_CHECKED_MASK == 0 && x & PARTIAL_NULLABLE_MASK == 0 && x & PARTIAL_REPORTED_ERROR_MASK == 0 && x & PARTIAL_FINISHED_MASK == 0) by (bit_vector) requires x <= SPECIFIC_MASK;
}
/// The flag bits of a payload that holds only a specific are clear.
proof fn rest_flags(f: u32, rest: u32) requires f & REST_MASK == rest, ensures
    f & FUNCTION_CHECKED_MASK == rest & FUNCTION_CHECKED_MASK, f & PARTIAL_NULLABLE_MASK == rest & PARTIAL_NULLABLE_MASK,
    f & PARTIAL_REPORTED_ERROR_MASK == rest & PARTIAL_REPORTED_ERROR_MASK, f & PARTIAL_FINISHED_MASK == rest & PARTIAL_FINISHED_MASK,
    f & SPECIFIC_MASK == rest & SPECIFIC_MASK,
{
    assert(f & FUNCTION_CHECKED_MASK == rest & FUNCTION_CHECKED_MASK && f & PARTIAL_NULLABLE_MASK == rest & PARTIAL_NULLABLE_MASK
        && f & PARTIAL_REPORTED_ERROR_MASK == rest & PARTIAL_REPORTED_ERROR_MASK && f & PARTIAL_FINISHED_MASK == rest & PARTIAL_FINISHED_MASK
        && f & SPECIFIC_MASK == rest & SPECIFIC_MASK) by (bit_vector) requires f & REST_MASK == rest;
}
/// Setting one flag bit.
proof fn set_bit(f: u32, g: u32, b: u32, i: usize)
    requires g == f | (b << i), b <= 1, i == NEEDS_FLOW_ANALYSIS_BIT_INDEX || i == IN_GLOBAL_SCOPE_INDEX,
    ensures
        g & IS_ANALIZED_MASK == f & IS_ANALIZED_MASK, g & KIND_MASK == f & KIND_MASK, g & LOCALITY_MASK == f & LOCALITY_MASK, g & REST_MASK == f & REST_MASK, g & SPECIFIC_MASK == f & SPECIFIC_MASK,
        i == NEEDS_FLOW_ANALYSIS_BIT_INDEX ==> g & IN_GLOBAL_SCOPE_MASK == f & IN_GLOBAL_SCOPE_MASK && (g & NEEDS_FLOW_ANALYSIS_MASK != 0) == (b == 1 || f & NEEDS_FLOW_ANALYSIS_MASK != 0),
        i == IN_GLOBAL_SCOPE_INDEX ==> g & NEEDS_FLOW_ANALYSIS_MASK == f & NEEDS_FLOW_ANALYSIS_MASK && (g & IN_GLOBAL_SCOPE_MASK != 0) == (b == 1 || f & IN_GLOBAL_SCOPE_MASK != 0),
{
    if i == NEEDS_FLOW_ANALYSIS_BIT_INDEX {
        assert(g & IS_ANALIZED_MASK == f & IS_ANALIZED_MASK && g & KIND_MASK == f & KIND_MASK && g & LOCALITY_MASK == f & LOCALITY_MASK && g & REST_MASK == f & REST_MASK && g & SPECIFIC_MASK == f & SPECIFIC_MASK && g & IN_GLOBAL_SCOPE_MASK == f & IN_GLOBAL_SCOPE_MASK
            && ((g & NEEDS_FLOW_ANALYSIS_MASK != 0) == (b == 1 || f & NEEDS_FLOW_ANALYSIS_MASK != 0))) by (bit_vector) requires g == f | (b << i), b <= 1, i == NEEDS_FLOW_ANALYSIS_BIT_INDEX;
    } else {
        assert(g & IS_ANALIZED_MASK == f & IS_ANALIZED_MASK && g & KIND_MASK == f & KIND_MASK && g & LOCALITY_MASK == f & LOCALITY_MASK && g & REST_MASK == f & REST_MASK && g & SPECIFIC_MASK == f & SPECIFIC_MASK && g & NEEDS_FLOW_ANALYSIS_MASK == f & NEEDS_FLOW_ANALYSIS_MASK
            && ((g & IN_GLOBAL_SCOPE_MASK != 0) == (b == 1 || f & IN_GLOBAL_SCOPE_MASK != 0))) by (bit_vector) requires g == f | (b << i), b <= 1, i == IN_GLOBAL_SCOPE_INDEX;
    }
}
proof fn zero() ensures
    0u32 & IS_ANALIZED_MASK == 0, (0u32 & LOCALITY_MASK) >> LOCALITY_BIT_INDEX == 0,
{
    assert(0u32 & IS_ANALIZED_MASK == 0) by (bit_vector);
    assert((0u32 & LOCALITY_MASK) >> LOCALITY_BIT_INDEX == 0) by (bit_vector);
}

impl Specific {
//@fn Specific::is_partial
    ensures r == (self is PartialNone || self is PartialList || self is PartialDict || self is PartialSet || self is PartialDefaultDict || self is PartialDefaultDictWithList || self is PartialDefaultDictWithSet),
//@end
//@fn Specific::is_partial_container
    ensures r == (self is PartialList || self is PartialDict || self is PartialSet || self is PartialDefaultDict || self is PartialDefaultDictWithList || self is PartialDefaultDictWithSet),
//@end
//@fn Specific::is_function_state
    ensures r == (self is FunctionEndIsReachable || self is FunctionEndIsUnreachable),
//@end
}

spec fn is_spec(p: Point, s: Specific) -> bool { calc(p) && kindb(p) == PointKind::Specific as u32 && specb(p) == s as u32 }
spec fn partial(p: Point) -> bool {
    ||| is_spec(p, Specific::PartialNone) ||| is_spec(p, Specific::PartialList) ||| is_spec(p, Specific::PartialDict) ||| is_spec(p, Specific::PartialSet)
    ||| is_spec(p, Specific::PartialDefaultDict) ||| is_spec(p, Specific::PartialDefaultDictWithList) ||| is_spec(p, Specific::PartialDefaultDictWithSet)
}
spec fn function_state(p: Point) -> bool { is_spec(p, Specific::FunctionEndIsReachable) || is_spec(p, Specific::FunctionEndIsUnreachable) }
spec fn has_node_index(p: Point) -> bool {
    calc(p) && (kindb(p) == PointKind::Redirect as u32 || is_spec(p, Specific::NameOfNameDef) || is_spec(p, Specific::FirstNameOfNameDef)
        || is_spec(p, Specific::Parent) || is_spec(p, Specific::Analyzed))
}

impl Point {
//@fn Point::calculate_flags
    requires fits(rest),
    ensures ({ let p = Point { flags: r, node_index: 0 }; packed(p, kind, rest, locality) && specb(p) == rest & SPECIFIC_MASK }),
//@begin
    proof {
        small(kind, locality, Specific::Analyzed);
        pack(rest | IS_ANALIZED_MASK | (locality as u32) << LOCALITY_BIT_INDEX | (kind as u32) << KIND_BIT_INDEX, rest, locality as u32, kind as u32);
    }
//@end
//@fn Point::new_redirect
    requires fits(file.0),
    ensures packed(r, PointKind::Redirect, file.0, locality), r.node_index == node_index, inv(r),
//@end
//@fn Point::new_first_name_of_name_def
    ensures calc(r), kindb(r) == PointKind::Specific as u32, specb(r) == Specific::FirstNameOfNameDef as u32, restb(r) == Specific::FirstNameOfNameDef as u32,
        locb(r) == locality as u32, global(r) == in_global_scope, !flow(r), r.node_index == node_index, inv(r),
//@begin
    proof { spec_rest(Specific::FirstNameOfNameDef); }
//@end
//@fn Point::new_name_of_name_def
    ensures calc(r), kindb(r) == PointKind::Specific as u32, specb(r) == Specific::NameOfNameDef as u32, restb(r) == Specific::NameOfNameDef as u32,
        locb(r) == locality as u32, global(r) == in_global_scope, !flow(r), r.node_index == node_index, inv(r),
//@begin
    proof { spec_rest(Specific::NameOfNameDef); }
//@end
//@fn Point::new_parent
    ensures packed(r, PointKind::Specific, Specific::Parent as u32, locality), specb(r) == Specific::Parent as u32, r.node_index == node_index, inv(r),
//@begin
    proof { spec_rest(Specific::Parent); }
//@end
//@fn Point::new_complex_point
    requires complex_index <= REST_MASK,
    ensures packed(r, PointKind::Complex, complex_index, locality), inv(r),
//@begin
    proof { fits_le(complex_index); }
//@end
//@fn Point::new_specific
    ensures packed(r, PointKind::Specific, specific as u32, locality), specb(r) == specific as u32, inv(r),
        !checked(r), !nullable(r), !reported(r), !finished(r),
//@begin
    proof { spec_rest(specific); assert forall|f: u32| #[trigger] (f & REST_MASK) == specific as u32 implies (f & FUNCTION_CHECKED_MASK) == 0 && f & PARTIAL_NULLABLE_MASK == 0
        && f & PARTIAL_REPORTED_ERROR_MASK == 0 && f & PARTIAL_FINISHED_MASK == 0 by { rest_flags(f, specific as u32); } }
//@end
//@fn Point::new_calculating
    ensures !calc(r), r.flags == Specific::Calculating as u32, inv(r), r.flags != 0,
//@begin
    proof {
        assert(Specific::Calculating as u32 & IS_ANALIZED_MASK == 0 && (Specific::Calculating as u32 & LOCALITY_MASK) >> LOCALITY_BIT_INDEX == 0) by {
            let x = Specific::Calculating as u32;
            assert(x <= SPECIFIC_MASK);
            assert(x & IS_ANALIZED_MASK == 0) by (bit_vector) requires x <= SPECIFIC_MASK;
            assert((x & LOCALITY_MASK) >> LOCALITY_BIT_INDEX == 0) by (bit_vector) requires x <= SPECIFIC_MASK;
        }
        assert(lv(Locality::NameBinder) == 0);
    }
//@end
//@fn Point::new_file_reference
    requires fits(file.0),
    ensures packed(r, PointKind::FileReference, file.0, locality), inv(r),
//@end
//@fn Point::new_analyzed_with_node_index
    ensures packed(r, PointKind::Specific, Specific::Analyzed as u32, locality), specb(r) == Specific::Analyzed as u32, r.node_index == node_index, inv(r),
//@end
//@fn Point::new_uncalculated
    ensures !calc(r), r.flags == 0, inv(r),
//@begin
    proof { zero(); assert(lv(Locality::NameBinder) == 0); }
//@end
//@fn Point::with_needs_flow_analysis
    ensures same_fields(r, self), restb(r) == restb(self), flow(r) == (needs_flow_analysis || flow(self)), global(r) == global(self), inv(self) ==> inv(r),
//@begin
    proof { let b = if needs_flow_analysis { 1u32 } else { 0u32 }; set_bit(self.flags, self.flags | (b << NEEDS_FLOW_ANALYSIS_BIT_INDEX), b, NEEDS_FLOW_ANALYSIS_BIT_INDEX); }
//@end
//@fn Point::with_changed_node_index
//@rw cfg!(debug_assertions) ==> true
    requires inv(self), has_node_index(self),
    ensures r.flags == self.flags, r.node_index == node_index,
//@end
//@fn Point::with_in_global_scope
    ensures same_fields(r, self), restb(r) == restb(self), global(r) == (in_global_scope || global(self)), flow(r) == flow(self), inv(self) ==> inv(r),
//@begin
    proof { let b = if in_global_scope { 1u32 } else { 0u32 }; set_bit(self.flags, self.flags | (b << IN_GLOBAL_SCOPE_INDEX), b, IN_GLOBAL_SCOPE_INDEX); }
//@end
//@fn Point::kind
//@rw mem::transmute($x) ==> vx_kind($x)
    requires inv(self), calc(self),
    ensures r as u32 == kindb(self),
//@end
//@fn Point::locality
//@rw mem::transmute($x) ==> vx_locality($x)
    requires inv(self),
    ensures r as u32 == locb(self),
//@end
//@fn Point::needs_flow_analysis
    requires calc(self), ensures r == flow(self),
//@end
//@fn Point::can_be_redefined
    requires calc(self), ensures r == flow(self),
//@end
//@fn Point::calculated
    ensures r == calc(self),
//@end
//@fn Point::calculating
    ensures r == (self.flags == Specific::Calculating as u32),
//@end
//@fn Point::in_global_scope
    requires calc(self), ensures r == global(self),
//@end
//@fn Point::file_index
    requires inv(self), calc(self), kindb(self) == PointKind::Redirect as u32 || kindb(self) == PointKind::FileReference as u32,
    ensures r.0 == restb(self),
//@end
//@fn Point::complex_index
    requires inv(self), calc(self), kindb(self) == PointKind::Complex as u32,
    ensures r == restb(self),
//@end
//@fn Point::maybe_complex_index
    requires inv(self),
    ensures r == (if calc(self) && kindb(self) == PointKind::Complex as u32 { Some(restb(self) as usize) } else { None }),
//@end
//@fn Point::node_index
    requires inv(self), has_node_index(self),
    ensures r == self.node_index,
//@end
//@fn Point::is_name_of_name_def_like
    requires inv(self), calc(self),
    ensures r == (is_spec(self, Specific::NameOfNameDef) || is_spec(self, Specific::FirstNameOfNameDef)),
//@end
//@fn Point::maybe_redirect_to
    requires fits(link.file.0),
    ensures r == (calc(self) && kindb(self) == PointKind::Redirect as u32 && restb(self) == link.file.0 && self.node_index == link.node_index),
//@begin
    proof {
        let f = self.flags;
        let x = link.file.0;
        assert(PointKind::Redirect as u32 == REDIRECT_KIND_VALUE >> KIND_BIT_INDEX) by { assert(REDIRECT_KIND_VALUE >> KIND_BIT_INDEX == 2) by (bit_vector); }
        assert((f & CALCULATED_OR_REDIRECT_LIKE_KIND_OR_REST_MASK == IS_ANALIZED_MASK | REDIRECT_KIND_VALUE | x)
            == (f & IS_ANALIZED_MASK != 0 && (f & KIND_MASK) >> KIND_BIT_INDEX == REDIRECT_KIND_VALUE >> KIND_BIT_INDEX && f & REST_MASK == x)) by (bit_vector) requires x & !REST_MASK == 0;
    }
//@end
//@fn Point::maybe_file_reference
//@rw ($c).then(|| $x) ==> if $c { Some($x) } else { None }
    requires inv(self), calc(self),
    ensures r == (if kindb(self) == PointKind::FileReference as u32 { Some(FileIndex(restb(self))) } else { None }),
//@end
//@fn Point::maybe_specific
    requires inv(self), calc(self),
    ensures kindb(self) == PointKind::Specific as u32 ==> r is Some && (r->0) as u32 == specb(self), kindb(self) != PointKind::Specific as u32 ==> r is None,
//@end
//@fn Point::maybe_calculated_and_specific
    requires inv(self),
    ensures calc(self) && kindb(self) == PointKind::Specific as u32 ==> r is Some && (r->0) as u32 == specb(self), !(calc(self) && kindb(self) == PointKind::Specific as u32) ==> r is None,
//@end
//@fn Point::specific
//@rw mem::transmute($x) ==> vx_specific($x)
    requires inv(self), calc(self), kindb(self) == PointKind::Specific as u32,
    ensures r as u32 == specb(self),
//@end
//@fn Point::function_was_checked
    requires inv(self), function_state(self), ensures r == checked(self),
//@end
//@fn Point::set_checked_function
    requires inv(self), function_state(self),
    ensures same_fields(r, self), checked(r), flow(r) == flow(self), global(r) == global(self), inv(r),
//@begin
    proof {
        let f = self.flags;
        let g = f | (1u32 << FUNCTION_CHECKED_INDEX);
        assert(g & IS_ANALIZED_MASK == f & IS_ANALIZED_MASK && g & KIND_MASK == f & KIND_MASK && g & LOCALITY_MASK == f & LOCALITY_MASK && g & SPECIFIC_MASK == f & SPECIFIC_MASK
            && g & NEEDS_FLOW_ANALYSIS_MASK == f & NEEDS_FLOW_ANALYSIS_MASK && g & IN_GLOBAL_SCOPE_MASK == f & IN_GLOBAL_SCOPE_MASK && g & FUNCTION_CHECKED_MASK != 0) by (bit_vector)
            requires g == f | (1u32 << FUNCTION_CHECKED_INDEX);
    }
//@end
//@fn Point::partial_flags
    requires inv(self), partial(self),
    ensures r.nullable == nullable(self), r.reported_error == reported(self), r.finished == finished(self),
//@end
//@fn Point::set_partial_flags
    requires inv(self), partial(self),
    ensures same_fields(r, self), nullable(r) == partial_flags.nullable, reported(r) == partial_flags.reported_error, finished(r) == partial_flags.finished,
        flow(r) == flow(self), global(r) == global(self), inv(r),
//@begin
    proof {
        let f = self.flags;
        let a = if partial_flags.nullable { 1u32 } else { 0u32 };
        let b = if partial_flags.reported_error { 1u32 } else { 0u32 };
        let c = if partial_flags.finished { 1u32 } else { 0u32 };
        let f0 = f & !PARTIAL_NULLABLE_MASK & !PARTIAL_REPORTED_ERROR_MASK & !PARTIAL_FINISHED_MASK;
        let g = f0 | (a << PARTIAL_NULLABLE_INDEX) | (b << PARTIAL_REPORTED_ERROR_INDEX) | (c << PARTIAL_FINISHED_INDEX);
        assert(g & IS_ANALIZED_MASK == f & IS_ANALIZED_MASK && g & KIND_MASK == f & KIND_MASK && g & LOCALITY_MASK == f & LOCALITY_MASK && g & SPECIFIC_MASK == f & SPECIFIC_MASK
            && g & NEEDS_FLOW_ANALYSIS_MASK == f & NEEDS_FLOW_ANALYSIS_MASK && g & IN_GLOBAL_SCOPE_MASK == f & IN_GLOBAL_SCOPE_MASK
            && (g & PARTIAL_NULLABLE_MASK != 0) == (a == 1) && (g & PARTIAL_REPORTED_ERROR_MASK != 0) == (b == 1) && (g & PARTIAL_FINISHED_MASK != 0) == (c == 1)) by (bit_vector)
            requires f0 == f & !PARTIAL_NULLABLE_MASK & !PARTIAL_REPORTED_ERROR_MASK & !PARTIAL_FINISHED_MASK,
                g == f0 | (a << PARTIAL_NULLABLE_INDEX) | (b << PARTIAL_REPORTED_ERROR_INDEX) | (c << PARTIAL_FINISHED_INDEX), a <= 1, b <= 1, c <= 1;
    }
//@end
}

/// Records in different states are never confused.
proof fn distinct(p: Point, q: Point, u: Point)
    requires calc(p), q.flags == Specific::Calculating as u32, u.flags == 0,
    ensures p.flags != q.flags, p.flags != 0, !calc(q), !calc(u), q.flags != u.flags,
{
    zero();
    let x = Specific::Calculating as u32;
    assert(x <= SPECIFIC_MASK);
    assert(x & IS_ANALIZED_MASK == 0) by (bit_vector) requires x <= SPECIFIC_MASK;
}
/// A variant of an enum is determined by its discriminant.
proof fn injective(a: Specific, b: Specific, k: PointKind, l: PointKind, x: Locality, y: Locality)
    ensures a as u32 == b as u32 ==> a == b, k as u32 == l as u32 ==> k == l, x as u32 == y as u32 ==> x == y,
{}

// ---- the table. `Cell` writes through a shared reference are written as `&mut` writes of the same slot;
// `Range::enumerate` is this struct (its semantics are the only thing assumed about it).
struct VxRange { start: u32, end: u32 }
impl VxRange {
    fn clone(&self) -> (r: VxRange) ensures r == *self { VxRange { start: self.start, end: self.end } }
    fn enumerate(self) -> (r: VxEnum) ensures r.lo == self.start, r.hi == self.end, r.i == 0 { VxEnum { lo: self.start, hi: self.end, i: 0 } }
}
struct VxEnum { lo: u32, hi: u32, i: usize }
fn vx_into_iter(x: VxEnum) -> (r: VxEnum) ensures r == x { x }
impl VxEnum {
    fn vx_next(&mut self) -> (r: Option<(usize, u32)>)
        requires old(self).lo + old(self).i <= u32::MAX, 
        ensures
            final(self).lo == old(self).lo, final(self).hi == old(self).hi,
            old(self).lo + old(self).i < old(self).hi ==> r == Some((old(self).i, (old(self).lo + old(self).i) as u32)) && final(self).i == old(self).i + 1,
            old(self).lo + old(self).i >= old(self).hi ==> r is None && final(self).i == old(self).i,
    {
        if self.lo as u64 + (self.i as u64) < self.hi as u64 {
            let i = self.i;
            self.i = i + 1;
            Some((i, self.lo + i as u32))
        } else { None }
    }
}
fn vx_vec(x: Point, n: usize) -> (r: Vec<Point>) ensures r@ == Seq::new(n as nat, |i: int| x) {
    let mut v: Vec<Point> = Vec::new();
    let mut i = 0;
    while i < n invariant i <= n, v@ == Seq::new(i as nat, |k: int| x) decreases n - i { v.push(x); i += 1; proof { assert(v@ =~= Seq::new(i as nat, |k: int| x)); } }
    v
}
fn vx_to_vec(s: &[Point]) -> (r: Vec<Point>) ensures r@ == s@ {
    let mut v: Vec<Point> = Vec::new();
    let mut i = 0;
    while i < s.len() invariant i <= s@.len(), v@ == s@.subrange(0, i as int) decreases s@.len() - i { v.push(s[i]); i += 1; proof { assert(v@ =~= s@.subrange(0, i as int)); } }
    proof { assert(v@ =~= s@); }
    v
}
fn vx_default() -> (r: Point) ensures r.flags == 0, r.node_index == 0 { Point { flags: 0, node_index: 0 } }

//@tyrw Cell<Point> ==> Point
//@tyrw Range<NodeIndex> ==> VxRange
//@struct Points
//@struct PointsBackup

spec fn tinv(t: Seq<Point>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> inv(#[trigger] t[i]) && (locb(t[i]) == lv(Locality::DirectExtern) ==>
        calc(t[i]) && (kindb(t[i]) == PointKind::Redirect as u32 || kindb(t[i]) == PointKind::FileReference as u32))
}
/// The records an invalidation of `f` has to drop.
spec fn foreign(p: Point, f: Option<FileIndex>) -> bool {
    (locb(p) == lv(Locality::DirectExtern) && f is Some && restb(p) == (f->0).0) || locb(p) >= lv(Locality::Complex)
}
spec fn unwritten(p: Point) -> bool { p.flags == 0 }

impl Points {
//@fn Points::new
//@rw Default::default() ==> vx_default()
    ensures r.0@.len() == length, forall|i: int| 0 <= i < length ==> unwritten(#[trigger] r.0@[i]) && !calc(r.0@[i]), tinv(r.0@),
//@begin
    proof { zero(); assert(lv(Locality::NameBinder) == 0); }
//@end
//@fn Points::get
//@rw $x.get() ==> $x
    requires index < self.0@.len(),
    ensures r == self.0@[index as int],
//@end
//@fn Points::set
//@sig fn set(&mut self, index: NodeIndex, point: Point)
//@rw $x.set($p) ==> $x = $p
    requires index < old(self).0@.len(),
    ensures final(self).0@ == old(self).0@.update(index as int, point),
//@end
//@fn Points::invalidate_references_to
//@forix & self . 0
//@rw $x.get() ==> $x
//@rw $x.set($p) ==> $x = $p
    requires tinv(old(self).0@),
    ensures
        final(self).0@.len() == old(self).0@.len(),
        forall|i: int| 0 <= i < old(self).0@.len() ==> if foreign(old(self).0@[i], file_index) { unwritten(#[trigger] final(self).0@[i]) } else { final(self).0@[i] == old(self).0@[i] },
        tinv(final(self).0@),
//@loop 0
    invariant
        n__0 == self.0@.len(), self.0@.len() == old(self).0@.len(), tinv(self.0@), 0 <= i__0 <= n__0,
        forall|i: int| i__0 <= i < n__0 ==> self.0@[i] == old(self).0@[i],
        forall|i: int| 0 <= i < i__0 ==> if foreign(old(self).0@[i], file_index) { unwritten(#[trigger] self.0@[i]) } else { self.0@[i] == old(self).0@[i] },
    decreases n__0 - i__0,
//@loopbegin 0
    proof { zero(); assert(lv(Locality::NameBinder) == 0); assert(inv(self.0@[i__0 as int])); }
//@end
//@fn Points::invalidate_full_db
//@forix & self . 0
//@rw $x.set($p) ==> $x = $p
    ensures
        final(self).0@.len() == old(self).0@.len(),
        forall|i: int| 0 <= i < old(self).0@.len() ==> unwritten(#[trigger] final(self).0@[i]),
//@loop 0
    invariant
        n__0 == self.0@.len(), self.0@.len() == old(self).0@.len(), 0 <= i__0 <= n__0,
        forall|i: int| 0 <= i < i__0 ==> unwritten(#[trigger] self.0@[i]),
    decreases n__0 - i__0,
//@end
//@fn Points::backup
//@rw &self.0[$a..$b] ==> vstd::slice::slice_subrange(self.0.as_slice(), $a, $b)
//@rw $x.to_vec() ==> vx_to_vec($x)
    requires range.start <= range.end <= self.0@.len(),
    ensures r.range == range, r.points@ == self.0@.subrange(range.start as int, range.end as int),
//@end
//@fn Points::reset_from_backup
//@sig fn reset_from_backup(&mut self, backup: &PointsBackup)
//@rw $x.set($y.get()) ==> $x = $y
    requires backup.range.start <= backup.range.end <= old(self).0@.len(), backup.points@.len() == backup.range.end - backup.range.start,
    ensures
        final(self).0@.len() == old(self).0@.len(),
        forall|i: int| 0 <= i < old(self).0@.len() ==> #[trigger] final(self).0@[i] == if backup.range.start <= i < backup.range.end { backup.points@[i - backup.range.start] } else { old(self).0@[i] },
//@loop 0
    invariant_except_break
        true,
    invariant
        it__0.lo == backup.range.start, it__0.hi == backup.range.end, it__0.lo <= it__0.hi <= self.0@.len(), it__0.i <= it__0.hi - it__0.lo,
        self.0@.len() == old(self).0@.len(), backup.points@.len() == backup.range.end - backup.range.start,
        forall|i: int| 0 <= i < self.0@.len() ==> #[trigger] self.0@[i] == if backup.range.start <= i < backup.range.start + it__0.i { backup.points@[i - backup.range.start] } else { old(self).0@[i] },
    ensures it__0.i == it__0.hi - it__0.lo,
    decreases it__0.hi - it__0.lo - it__0.i,
//@end
}

/// Restoring a backup gives back the table exactly when only the saved range was written meanwhile.
proof fn backup_restores(t: Seq<Point>, u: Seq<Point>, v: Seq<Point>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), u.len() == t.len(), v.len() == t.len(),
        forall|i: int| 0 <= i < t.len() && !(a <= i < b) ==> u[i] == t[i],
        forall|i: int| 0 <= i < t.len() ==> #[trigger] v[i] == if a <= i < b { t.subrange(a, b)[i - a] } else { u[i] },
    ensures v =~= t,
{}

}
fn main() {}
