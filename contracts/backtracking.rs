#![allow(warnings)]
// C05: the token buffer behind speculative parsing (crates/parsa/src/backtracking.rs)
use vstd::prelude::*;
verus! {

fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { panic!() }

type NodeIndex = u32;
type CodeIndex = u32;
type CodeLength = u32;
/// The two fields of the real InternalNode that this file reads.
struct InternalNode { start_index: CodeIndex, length: CodeLength }

//@include backtracking.inc
}
fn main() {}
