#![allow(warnings)]
// C16: semantic token encoding (crates/zubanls/src/semantic_tokens.rs)
use vstd::prelude::*;
verus! {

#[verifier::external_body]
fn vx_unreachable() -> ! requires false { panic!() }

// ---- the protocol types (lsp_types), reduced to the fields used
#[derive(Clone, Copy)]
struct Position { line: u32, character: u32 }
struct SemanticToken { delta_line: u32, delta_start: u32, length: u32, token_type: u32, token_modifiers_bitset: u32 }
struct SemanticTokens { result_id: Option<u32>, data: Vec<SemanticToken> }

//@file crates/zuban_python/src/semantic_tokens.rs
//@struct SemanticTokenProperties
//@file crates/zubanls/src/semantic_tokens.rs
//@macrolist define_semantic_token_types standard #[derive(Clone, Copy, PartialEq, Eq, Structural)] enum SemanticTokenType { $LIST() }
//@macrolist define_semantic_token_modifiers standard #[derive(Clone, Copy, PartialEq, Eq, Structural)] enum SemanticTokenModifier { $LIST() }
// the legends, in the order in which the macros list them (the macro bodies themselves are not verified)
//@macrolist define_semantic_token_types standard spec fn type_legend() -> Seq<SemanticTokenType> { seq![$LIST(SemanticTokenType::)] }
//@macrolist define_semantic_token_modifiers standard spec fn modifier_legend() -> Seq<SemanticTokenModifier> { seq![$LIST(SemanticTokenModifier::)] }
//@macrolist define_semantic_token_types standard fn supported_types() -> (r: Vec<SemanticTokenType>) ensures r@ == type_legend() { let r = vec![$LIST(SemanticTokenType::)]; assert(r@ =~= type_legend()); r }
//@macrolist define_semantic_token_modifiers standard fn supported_modifiers() -> (r: Vec<SemanticTokenModifier>) ensures r@ == modifier_legend() { let r = vec![$LIST(SemanticTokenModifier::)]; assert(r@ =~= modifier_legend()); r }

/// Every entry has its own place, and the modifiers fit a 32-bit set.
proof fn legends_distinct()
    ensures
        forall|t: SemanticTokenType| type_legend().contains(t), forall|t: SemanticTokenModifier| modifier_legend().contains(t),
        type_legend().no_duplicates(), modifier_legend().no_duplicates(), modifier_legend().len() <= 32,
{
    assert forall|t: SemanticTokenType| type_legend().contains(t) by { assert(type_legend()[t as int] == t); }
    assert forall|t: SemanticTokenModifier| modifier_legend().contains(t) by { assert(modifier_legend()[t as int] == t); }
    assert forall|i: int| 0 <= i < type_legend().len() implies #[trigger] type_legend()[i] as int == i by {}
    assert forall|i: int| 0 <= i < modifier_legend().len() implies #[trigger] modifier_legend()[i] as int == i by {}
}
spec fn bit(s: u32, i: u32) -> bool { (s >> i) & 1 == 1 }
spec fn has(s: u32, m: SemanticTokenModifier) -> bool { bit(s, m as u32) }

//@rw SUPPORTED_MODIFIERS.iter().position(|$p| $b) ==> { let v__ = supported_modifiers(); let mut i__ = 0; let mut found__ = None; while i__ < v__.len() { let $p = &v__[i__]; if $b { found__ = Some(i__); break; } i__ = i__ + 1; } found__ }
//@rw SUPPORTED_TYPES.iter().position(|$p| $b) ==> { let v__ = supported_types(); let mut i__ = 0; let mut found__ = None; while i__ < v__.len() { let $p = &v__[i__]; if $b { found__ = Some(i__); break; } i__ = i__ + 1; } found__ }
//@rw $x.unwrap_or_else(|| vx_unreachable()) ==> match $x { Some(x__) => x__, None => vx_unreachable() }
//@rw $a |= modifier ==> $a.bitor_assign(modifier)
//@rw ModifierSet::default() ==> ModifierSet(0)
//@tyrw modifiers :: ==> SemanticTokenModifier ::

//@struct ModifierSet
//@struct SemanticTokensBuilder

impl ModifierSet {
//@fn ModifierSet:BitOrAssign::bitor_assign
    ensures final(self).0 == old(self).0 | (1u32 << (rhs as u32)),
        forall|m: SemanticTokenModifier| #[trigger] has(final(self).0, m) == (m == rhs || has(old(self).0, m)),
//@begin
    proof {
        legends_distinct();
        assert(modifier_legend()[rhs as int] == rhs);
        let s = self.0;
        let n = s | (1u32 << (rhs as u32));
        assert forall|m: SemanticTokenModifier| #[trigger] has(n, m) == (m == rhs || has(s, m)) by {
            let (a, b) = (rhs as u32, m as u32);
            assert((((s | (1u32 << a)) >> b) & 1 == 1) == (a == b || (s >> b) & 1 == 1)) by (bit_vector) requires a < 32, b < 32;
        }
    }
//@loop 0
        invariant_except_break
            found__ is None,
        invariant
            v__@ == modifier_legend(), i__ <= v__.len(), modifier_legend()[rhs as int] == rhs, modifier_legend().no_duplicates(), i__ <= rhs as int, (rhs as int) < v__.len(),
        ensures found__ == Some(rhs as usize),
        decreases v__.len() - i__,
//@end
}

//@fn type_index
    ensures r < type_legend().len(), type_legend()[r as int] == ty,
//@begin
    proof { legends_distinct(); assert(type_legend()[ty as int] == ty); }
//@loop 0
        invariant_except_break
            found__ is None,
        invariant
            v__@ == type_legend(), i__ <= v__.len(), type_legend()[ty as int] == ty, type_legend().no_duplicates(), i__ <= ty as int, (ty as int) < v__.len(),
        ensures found__ == Some(ty as usize),
        decreases v__.len() - i__,
//@end

// ---- what a client reads
struct Abs { line: int, ch: int, len: u32, ty: SemanticTokenType, mods: u32 }
spec fn decode_at(d: Seq<SemanticToken>, k: int) -> (int, int)
    decreases k
{
    if k <= 0 { (0, 0) } else {
        let (l, c) = decode_at(d, k - 1);
        let t = d[k - 1];
        (l + t.delta_line, if t.delta_line == 0 { c + t.delta_start } else { t.delta_start as int })
    }
}
spec fn decode(d: Seq<SemanticToken>) -> Seq<Abs> {
    Seq::new(d.len(), |k: int| Abs { line: decode_at(d, k + 1).0, ch: decode_at(d, k + 1).1, len: d[k].length, ty: type_legend()[d[k].token_type as int], mods: d[k].token_modifiers_bitset })
}
proof fn decode_prefix(d: Seq<SemanticToken>, e: Seq<SemanticToken>, k: int)
    requires 0 <= k <= d.len() <= e.len(), forall|i: int| 0 <= i < d.len() ==> d[i] == e[i],
    ensures decode_at(d, k) == decode_at(e, k),
    decreases k,
{
    if k > 0 { decode_prefix(d, e, k - 1); }
}
/// Exactly the properties of a token are in its modifier set.
spec fn mods_of(p: SemanticTokenProperties, m: SemanticTokenModifier) -> bool {
    ||| p.definition && m == SemanticTokenModifier::DEFINITION
    ||| p.declaration && m == SemanticTokenModifier::DECLARATION
    ||| p.in_stdlib && m == SemanticTokenModifier::DEFAULT_LIBRARY
    ||| p.read_only && m == SemanticTokenModifier::READONLY
    ||| p.static_ && m == SemanticTokenModifier::STATIC
    ||| p.deprecated && m == SemanticTokenModifier::DEPRECATED
    ||| p.async_ && m == SemanticTokenModifier::ASYNC
    ||| p.abstract_ && m == SemanticTokenModifier::ABSTRACT
}

impl SemanticTokensBuilder {
    spec fn wf(&self) -> bool {
        let n = self.data@.len() as int;
        self.data@.len() > 0 ==> decode_at(self.data@, n) == (self.prev_line as int, self.prev_char as int)
    }
//@fn SemanticTokensBuilder::new
//@rw Default::default() ==> Vec::new()
    ensures r.wf(), decode(r.data@) =~= Seq::empty(), r.data@.len() == 0,
//@end
//@fn SemanticTokensBuilder::push
//@inline add
    requires
        old(self).wf(),
        // document order
        old(self).data@.len() > 0 ==> start.line > old(self).prev_line || (start.line == old(self).prev_line && start.character >= old(self).prev_char),
    ensures
        final(self).wf(),
        final(self).prev_line == start.line, final(self).prev_char == start.character,
        decode(final(self).data@).len() == decode(old(self).data@).len() + 1,
        forall|k: int| 0 <= k < decode(old(self).data@).len() ==> decode(final(self).data@)[k] == decode(old(self).data@)[k],
        ({
            let t = decode(final(self).data@).last();
            t.line == start.line && t.ch == start.character && t.len == token_len && t.ty == type_
                && forall|m: SemanticTokenModifier| #[trigger] has(t.mods, m) == mods_of(props, m)
        }),
//@begin
    proof {
        assert forall|m: SemanticTokenModifier| !#[trigger] has(0u32, m) by { let b = m as u32; assert((0u32 >> b) & 1 == 0) by (bit_vector) requires b < 32; }
    }
//@before self.prev_line = start.line;
    proof {
        let (d, e) = (old(self).data@, self.data@);
        let n = d.len() as int;
        assert forall|k: int| 0 <= k <= n implies decode_at(d, k) == decode_at(e, k) by { decode_prefix(d, e, k); }
        assert(decode_at(e, n + 1).0 == decode_at(e, n).0 + e[n].delta_line);
        assert(decode(e)[n].line == start.line);
    }
//@end
//@fn SemanticTokensBuilder::build
    requires self.wf(),
    ensures r.data@ == self.data@,
//@end
}

}
fn main() {}
