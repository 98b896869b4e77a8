#![allow(warnings)]
// C01, C02: the tokenizer (crates/parsa_python/src/tokenizer.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include str_spec.inc
// ---- what lies between tokens
spec fn nl(x: u8) -> bool { x == 10 || x == 13 }
spec fn sp(x: u8) -> bool { x == 32 || x == 9 || x == 12 }
/// The end of the line
spec fn eol(b: Seq<u8>, i: int) -> int decreases b.len() - i { if i >= b.len() || nl(b[i]) { i } else { eol(b, i + 1) } }
/// The length of a backslash continuation
spec fn contlen(b: Seq<u8>, i: int) -> int {
    if i + 1 < b.len() && b[i + 1] == 13 { if i + 2 < b.len() && b[i + 2] == 10 { 3 } else { 2 } }
    else if i + 1 < b.len() && b[i + 1] == 10 { 2 } else { 0 }
}
/// Whitespace, line breaks, comments and continuations from i to j
spec fn trivia(b: Seq<u8>, i: int, j: int) -> bool decreases j - i {
    if i >= j { i == j }
    else if j > b.len() || i < 0 { false }
    else if sp(b[i]) || nl(b[i]) { trivia(b, i + 1, j) }
    else if b[i] == 35 { i < eol(b, i) <= j && trivia(b, eol(b, i), j) }
    else if b[i] == 92 { contlen(b, i) > 0 && i + contlen(b, i) <= j && trivia(b, i + contlen(b, i), j) }
    else { false }
}
proof fn eol_is(b: Seq<u8>, i: int) requires 0 <= i <= b.len() ensures i <= eol(b, i) <= b.len(), eol(b, i) < b.len() ==> nl(b[eol(b, i)]), i < b.len() && !nl(b[i]) ==> i < eol(b, i) decreases b.len() - i
{ if i < b.len() && !nl(b[i]) { eol_is(b, i + 1); } }
proof fn trivia_le(b: Seq<u8>, i: int, j: int) requires trivia(b, i, j) ensures i <= j decreases j - i
{ }
proof fn trivia_add(b: Seq<u8>, i: int, m: int, j: int) requires 0 <= i, trivia(b, i, m), trivia(b, m, j), j <= b.len() ensures trivia(b, i, j) decreases m - i
{
    trivia_le(b, i, m); trivia_le(b, m, j);
    if i < m {
        if sp(b[i]) || nl(b[i]) { trivia_add(b, i + 1, m, j); }
        else if b[i] == 35 { trivia_le(b, eol(b, i), m); trivia_add(b, eol(b, i), m, j); }
        else { trivia_le(b, i + contlen(b, i), m); trivia_add(b, i + contlen(b, i), m, j); }
    }
}
/// What is skipped before a token. Only at the start of a logical line (fresh) line breaks are skipped, too, and the whitespace of the last line is
/// counted. Stops behind a continuation (.2).
spec fn skip(b: Seq<u8>, i: int, ind: nat, com: bool, fresh: bool) -> (int, nat, bool) decreases b.len() - i {
    if i >= b.len() { (i, ind, false) }
    else if nl(b[i]) { if fresh { skip(b, i + 1, 0, false, fresh) } else { (i, ind, false) } }
    else if com { skip(b, i + 1, ind, true, fresh) }
    else if sp(b[i]) { skip(b, i + 1, if fresh { ind + 1 } else { ind }, false, fresh) }
    else if b[i] == 35 { skip(b, i + 1, 0, true, fresh) }
    else if b[i] == 92 && contlen(b, i) > 0 { (i + contlen(b, i), ind, true) }
    else { (i, ind, false) }
}
spec fn rest(b: Seq<u8>, i: int, fresh: bool) -> int decreases b.len() - i {
    let s = skip(b, i, 0, false, fresh);
    if s.2 && i < s.0 <= b.len() { rest(b, s.0, fresh) } else { s.0 }
}
/// Where the next token starts
spec fn start(b: Seq<u8>, i: int, fresh: bool) -> int { rest(b, i, fresh) }
/// The indentation of the line
spec fn width(b: Seq<u8>, i: int, fresh: bool) -> nat { skip(b, i, 0, false, fresh).1 }
proof fn skip_is(b: Seq<u8>, i: int, ind: nat, com: bool, fresh: bool)
    requires 0 <= i <= b.len(),
    ensures ({
        let s = skip(b, i, ind, com, fresh);
        &&& i <= s.0 <= b.len() &&& s.2 ==> i < s.0
        &&& !com ==> trivia(b, i, s.0) &&& com ==> eol(b, i) <= s.0 && trivia(b, eol(b, i), s.0)
        &&& s.1 <= ind + (s.0 - i)
        &&& fresh && !s.2 && s.0 < b.len() ==> !nl(b[s.0])
        &&& !s.2 && s.0 < b.len() ==> !sp(b[s.0]) && b[s.0] != 35
        &&& s.2 ==> nl(b[s.0 - 1])
        &&& !s.2 && s.0 > i && b[s.0 - 1] >= 0x80 ==> s.0 == b.len() || nl(b[s.0])
    }),
    decreases b.len() - i,
{
    eol_is(b, i);
    if i < b.len() {
        if nl(b[i]) { if fresh { skip_is(b, i + 1, 0, false, fresh); } }
        else if com { skip_is(b, i + 1, ind, true, fresh); }
        else if sp(b[i]) { skip_is(b, i + 1, if fresh { ind + 1 } else { ind }, false, fresh); }
        else if b[i] == 35 { skip_is(b, i + 1, 0, true, fresh); assert(eol(b, i) == eol(b, i + 1)); }
        else if b[i] == 92 && contlen(b, i) > 0 { assert(trivia(b, i + contlen(b, i), i + contlen(b, i))); }
    }
}
proof fn rest_is(b: Seq<u8>, i: int, fresh: bool)
    requires 0 <= i <= b.len(),
    ensures i <= rest(b, i, fresh) <= b.len(), trivia(b, i, rest(b, i, fresh)), ({ let s = skip(b, i, 0, false, fresh); if s.2 { rest(b, i, fresh) == rest(b, s.0, fresh) } else { rest(b, i, fresh) == s.0 } }),
        fresh && rest(b, i, fresh) < b.len() ==> !nl(b[rest(b, i, fresh)]),
    decreases b.len() - i,
{
    let s = skip(b, i, 0, false, fresh);
    skip_is(b, i, 0, false, fresh);
    if s.2 { rest_is(b, s.0, fresh); trivia_add(b, i, s.0, rest(b, i, fresh)); }
}
/// A multi-byte character in a comment
proof fn comment_run(b: Seq<u8>, i: int, j: int, ind: nat, fresh: bool)
    requires 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> !nl(#[trigger] b[k]),
    ensures skip(b, i, ind, true, fresh) == skip(b, j, ind, true, fresh),
    decreases j - i,
{ if i < j { comment_run(b, i + 1, j, ind, fresh); } }
/// What width measures: the whitespace at the beginning of the line, up to the first character of the line that is none. (Lines before it that are blank or
/// comments only are passed over.)
proof fn width_is(b: Seq<u8>, i: int, ind: nat, com: bool)
    requires 0 <= i <= b.len(), ind <= i, com ==> ind == 0, !com ==> forall|k: int| i - ind <= k < i ==> sp(#[trigger] b[k]), i - ind == 0 || nl(b[i - ind - 1]) || com,
    ensures ({
        let s = skip(b, i, ind, com, true);
        s.0 < b.len() && !s.2 ==> 0 <= s.0 - s.1 && (s.0 - s.1 == 0 || nl(b[s.0 - s.1 - 1])) && forall|k: int| s.0 - s.1 <= k < s.0 ==> sp(#[trigger] b[k])
    }),
    decreases b.len() - i,
{
    if i < b.len() {
        if nl(b[i]) { width_is(b, i + 1, 0, false); }
        else if com { width_is(b, i + 1, 0, true); }
        else if sp(b[i]) { width_is(b, i + 1, ind + 1, false); }
        else if b[i] == 35 { width_is(b, i + 1, 0, true); }
    }
}
/// The whitespace before i, if there is nothing else on the line
spec fn before(b: Seq<u8>, i: int, n: nat) -> Option<nat> decreases i {
    if i <= 0 || i > b.len() { None } else if b[i - 1] == 32 || b[i - 1] == 9 { before(b, i - 1, n + 1) } else if nl(b[i - 1]) { Some(n) } else { None }
}
// ---- tokens and the tokenizer's state
//@file crates/parsa_python/src/tokenizer.rs
//@expect static ref NEWLINE: Regex = r(r"^(\r\n?|\n)");
//@expect static ref NUMBER: Regex = r(&("^".to_owned() + &or(&[&IMAG_NUMBER, &FLOAT_NUMBER, &INT_NUMBER])));
//@expect static ref OPERATOR: Regex = r(&("^".to_owned() +
//@expect static ref F_STRING_START: Regex = r(r#"^([Ff][Rr]?|[Rr][Ff])("""|'''|'|")"#);
//@expect static ref STRING: Regex = r(&all_string_regexes(
//@expect static ref BYTES: Regex = r(&all_string_regexes(
//@expect "^".to_owned() + &or(prefixes) + &or(&[&single3, &double3, &single, &double])
//@macrolist create_terminals TerminalType #[derive(Clone, Copy, PartialEq, Eq, Structural)] enum TerminalType { $LIST() }
/// What create_terminals! makes
struct PyTerminal { start_index: u32, length: u32, type_: TerminalType, can_contain_syntax: bool }
//@struct PythonTokenizer
//@enum QuoteType #[derive(Clone, Copy)]
//@struct FStringNode
//@const FORM_FEED
type Tok<'a> = PythonTokenizer<'a>;
spec fn stack_ok(s: Seq<usize>) -> bool { s.len() >= 1 && s[0] == 0 && forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
spec fn nodes_ok(s: Seq<FStringNode>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).parentheses_level <= n }
spec fn txt(t: Tok) -> Seq<u8> { bts(t.code) }
spec fn inv(t: Tok) -> bool {
    let b = txt(t);
    &&& b.len() < u32::MAX &&& t.index <= b.len() &&& bnd(b, t.index as int) &&& stack_ok(t.indent_stack@)
    &&& t.parentheses_level <= t.index &&& nodes_ok(t.f_string_stack@, t.index as int)
    &&& t.previous_token_was_newline ==> t.parentheses_level == 0 && t.f_string_stack@.len() == 0
    &&& forall|i: int| 0 <= i < t.indent_stack@.len() ==> #[trigger] t.indent_stack@[i] <= b.len()
}
/// at is the end of the last token: the index, or (a block was just closed) where the token behind the whitespace will start
spec fn at_ok(t: Tok, at: int) -> bool { at == t.index || (t.previous_token_was_newline && !t.ended && at == start(txt(t), t.index as int, true)) }
spec fn outside(t: Tok) -> bool { t.parentheses_level == 0 && t.f_string_stack@.len() == 0 }
spec fn sum(s: Seq<usize>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat } }
spec fn blocky(k: TerminalType) -> bool { k == TerminalType::Indent || k == TerminalType::Dedent || k == TerminalType::ErrorDedent }
/// A line with this indentation leaves the innermost block
spec fn closes(s: Seq<usize>, ind: int, n: Seq<usize>, k: TerminalType) -> bool {
    s.len() >= 2 && ind < s.last() && if ind > s[s.len() - 2] { k == TerminalType::ErrorDedent && n == s.drop_last().push(ind as usize) } else { k == TerminalType::Dedent && n == s.drop_last() }
}
/// C01: what one token covers
spec fn covers(o: Tok, n: Tok, t: PyTerminal) -> bool {
    let b = txt(o);
    let (s, e) = (t.start_index as int, t.start_index + t.length);
    &&& n.code == o.code &&& inv(n) &&& !o.ended
    &&& o.index <= s <= e <= b.len() &&& bnd(b, s) &&& bnd(b, e) &&& trivia(b, o.index as int, s)
    &&& o.index <= n.index &&& at_ok(n, e)
    &&& outside(o) ==> s == start(b, o.index as int, o.previous_token_was_newline)
    &&& n.ended == (t.type_ == TerminalType::Endmarker)
    &&& t.type_ == TerminalType::Endmarker ==> t.length == 0 && s == b.len() && n.index == b.len()
    // progress
    &&& n.index > o.index || sum(n.indent_stack@) < sum(o.indent_stack@) || (n.indent_stack@ == o.indent_stack@ && n.ended)
    &&& blocky(t.type_) || t.type_ == TerminalType::Endmarker ==> t.length == 0
}
/// C02: what it does to the blocks
spec fn blocks(o: Tok, n: Tok, t: PyTerminal) -> bool {
    let b = txt(o);
    let st = o.indent_stack@;
    let j = start(b, o.index as int, o.previous_token_was_newline);
    let ind = width(b, o.index as int, true) as int;
    let fresh = o.previous_token_was_newline;
    let last = t.start_index == b.len() && st.len() > 1 && t.type_ == TerminalType::Dedent && n.indent_stack@ == st.drop_last();
    let none = !blocky(t.type_) && n.indent_stack@ == st;
    let end = t.type_ == TerminalType::Endmarker;
    &&& if outside(o) {
        if j == b.len() { if st.len() > 1 { last } else { none && end } }
        else if fresh && ind > st.last() { t.type_ == TerminalType::Indent && n.indent_stack@ == st.push(ind as usize) }
        else if fresh && ind < st.last() { closes(st, ind, n.indent_stack@, t.type_) }
        else { none && !end }
    } else {
        none || last || (before(b, t.start_index as int, 0) is Some && closes(st, before(b, t.start_index as int, 0)->0 as int, n.indent_stack@, t.type_))
    }
    &&& end ==> n.indent_stack@.len() == 1
    &&& t.type_ == TerminalType::Newline <==> n.previous_token_was_newline && !(fresh && blocky(t.type_))
    &&& n.previous_token_was_newline ==> outside(n)
}
#[verifier::opaque]
spec fn tstep(o: Tok, n: Tok, t: PyTerminal) -> bool { covers(o, n, t) && blocks(o, n, t) }
/// Nothing but line breaks in brackets between o and m
spec fn same(o: Tok, m: Tok) -> bool { m.code == o.code && m.indent_stack@ == o.indent_stack@ && m.previous_token_was_newline == o.previous_token_was_newline && m.ended == o.ended }
proof fn step_after(o: Tok, m: Tok, n: Tok, t: PyTerminal)
    requires same(o, m), !outside(o), !o.previous_token_was_newline, o.index <= m.index, trivia(txt(o), o.index as int, m.index as int), tstep(m, n, t), inv(o), inv(m),
    ensures tstep(o, n, t),
{
    reveal(tstep);
    trivia_add(txt(o), o.index as int, m.index as int, t.start_index as int);
}

spec fn eqv(o: Tok, n: Tok) -> bool { same(o, n) && n.index == o.index && n.parentheses_level == o.parentheses_level && n.f_string_stack@ == o.f_string_stack@ }
/// Between the whitespace and the token: the line is neither indented nor dedented
spec fn mid(o: Tok, m: Tok) -> bool {
    &&& m.code == o.code && m.indent_stack@ == o.indent_stack@ && m.ended == o.ended && m.parentheses_level == o.parentheses_level && m.f_string_stack@ == o.f_string_stack@
    &&& m.index == start(txt(o), o.index as int, o.previous_token_was_newline) && !m.previous_token_was_newline
    &&& outside(o) && o.previous_token_was_newline && m.index < txt(o).len() ==> width(txt(o), o.index as int, true) == o.indent_stack@.last()
}
/// A token that is no block boundary
spec fn advances(o: Tok, m: Tok, n: Tok, t: PyTerminal) -> bool {
    &&& n.code == o.code && n.indent_stack@ == o.indent_stack@ && m.index < n.index && inv(n) && !n.ended
    &&& t.start_index == m.index && t.length == n.index - m.index && !blocky(t.type_) && t.type_ != TerminalType::Endmarker
    &&& n.previous_token_was_newline == (t.type_ == TerminalType::Newline)
}
/// A statement keyword on its own line in brackets ends the block
spec fn breaks(o: Tok, m: Tok, n: Tok, t: PyTerminal) -> bool {
    &&& n.code == o.code && m.index == n.index && inv(n) && !n.ended && !n.previous_token_was_newline && !outside(o)
    &&& t.start_index == m.index && t.length == 0 && sum(n.indent_stack@) < sum(o.indent_stack@)
    &&& before(txt(o), m.index as int, 0) is Some && closes(o.indent_stack@, before(txt(o), m.index as int, 0)->0 as int, n.indent_stack@, t.type_)
}
/// The end of the text
spec fn finishes(o: Tok, m: Tok, n: Tok, t: PyTerminal) -> bool {
    &&& n.code == o.code && m.index == n.index == txt(o).len() && !n.previous_token_was_newline && n.f_string_stack@ == m.f_string_stack@ && n.parentheses_level == m.parentheses_level
    &&& t.start_index == m.index && t.length == 0
    &&& if o.indent_stack@.len() > 1 { n.indent_stack@ == o.indent_stack@.drop_last() && t.type_ == TerminalType::Dedent && !n.ended } else { n.indent_stack@ == o.indent_stack@ && t.type_ == TerminalType::Endmarker && n.ended }
}
proof fn after_mid(o: Tok, m: Tok)
    requires inv(o), !o.ended, inv(m), mid(o, m),
    ensures forall|n: Tok, t: PyTerminal| advances(o, m, n, t) || breaks(o, m, n, t) || finishes(o, m, n, t) ==> #[trigger] tstep(o, n, t),
{
    let b = txt(o);
    rest_is(b, o.index as int, o.previous_token_was_newline);
    assert forall|n: Tok, t: PyTerminal| advances(o, m, n, t) || breaks(o, m, n, t) || finishes(o, m, n, t) implies #[trigger] tstep(o, n, t) by {
        reveal(tstep);
        if advances(o, m, n, t) { assert(covers(o, n, t)); assert(blocks(o, n, t)); }
        else if breaks(o, m, n, t) { assert(covers(o, n, t)); assert(blocks(o, n, t)); }
        else {
            let st = o.indent_stack@;
            if st.len() > 1 { assert(st[0] < st[st.len() - 1]); assert(sum(st.drop_last()) < sum(st)); }
            assert(inv(n)); assert(covers(o, n, t)); assert(blocks(o, n, t));
        }
    }
}
/// A block opens or closes at the start of a line.
spec fn line_start(o: Tok, m: Tok) -> bool {
    &&& m.code == o.code && m.ended == o.ended && m.parentheses_level == o.parentheses_level && m.f_string_stack@ == o.f_string_stack@
    &&& o.previous_token_was_newline && m.index == start(txt(o), o.index as int, true) && m.index < txt(o).len() && inv(m)
}
spec fn opening(o: Tok, m: Tok, n: Tok, t: PyTerminal) -> bool {
    &&& line_start(o, n) && width(txt(o), o.index as int, true) > o.indent_stack@.last() && n.indent_stack@ == o.indent_stack@.push(width(txt(o), o.index as int, true) as usize) && !n.previous_token_was_newline
    &&& t.type_ == TerminalType::Indent && t.start_index == n.index && t.length == 0
}
spec fn leaving(o: Tok, m: Tok, n: Tok, t: PyTerminal) -> bool {
    &&& line_start(o, m) && closes(o.indent_stack@, width(txt(o), o.index as int, true) as int, n.indent_stack@, t.type_) && t.start_index == m.index && t.length == 0 && sum(n.indent_stack@) < sum(o.indent_stack@)
    &&& n.code == o.code && n.index == o.index && n.previous_token_was_newline && n.ended == o.ended && inv(n)
}
proof fn at_line(o: Tok, m: Tok)
    requires inv(o), !o.ended,
    ensures forall|n: Tok, t: PyTerminal| opening(o, m, n, t) || leaving(o, m, n, t) ==> #[trigger] tstep(o, n, t),
{
    let b = txt(o);
    rest_is(b, o.index as int, true); skip_is(b, o.index as int, 0, false, true); rest_is(b, skip(b, o.index as int, 0, false, true).0, true);
    assert forall|n: Tok, t: PyTerminal| opening(o, m, n, t) || leaving(o, m, n, t) implies #[trigger] tstep(o, n, t) by {
        reveal(tstep);
        if opening(o, m, n, t) { assert(covers(o, n, t)); assert(blocks(o, n, t)); } else { assert(covers(o, n, t)); assert(blocks(o, n, t)); }
    }
}
spec fn triple(q: QuoteType) -> bool { q is SingleTriple || q is DoubleTriple }
spec fn quoted(b: Seq<u8>, i: int, q: QuoteType) -> bool {
    let x: u8 = if q is Single || q is SingleTriple { 39 } else { 34 };
    b[i] == x && (triple(q) ==> i + 2 < b.len() && b[i + 1] == x && b[i + 2] == x)
}
proof fn sub_bnd(b: Seq<u8>, i: int, e: int) requires 0 <= i <= b.len(), 0 <= e <= b.len() - i, bnd(b, i), bnd(b.subrange(i, b.len() as int), e) ensures bnd(b, i + e)
{ if 0 < e < b.len() - i { assert(b.subrange(i, b.len() as int)[e] == b[i + e]); } }
// ---- std and regex
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum VxRe { Number, Operator, Str, Bytes, FStart, Newline, CharName }
struct VxMatch<'a> { s: &'a str, e: usize }
impl<'a> VxMatch<'a> {
    fn end(&self) -> (r: usize) ensures r == self.e { self.e }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &'a str) { &self.s[..self.e] }
}
/// All expressions but CharName are anchored at the start and match something.
#[verifier::external_body]
fn vx_find<'a>(r: VxRe, c: &'a str) -> (m: Option<VxMatch<'a>>)
    ensures m is Some && r != VxRe::CharName ==> 0 < (m->0).e <= bts(c).len() && bnd(bts(c), (m->0).e as int),
        m is Some && r == VxRe::Newline ==> ((m->0).e == 1 && nl(bts(c)[0])) || ((m->0).e == 2 && bts(c)[0] == 13 && bts(c)[1] == 10),
{ unimplemented!() }
#[verifier::external_body]
fn vx_contains<P>(s: &str, p: P) -> bool { unimplemented!() }
#[verifier::external_body]
fn vx_ends_with<P>(s: &str, p: P) -> bool { unimplemented!() }
#[verifier::external_body]
fn vx_triple(s: &str, q: u8) -> (r: bool) ensures r ==> bts(s).len() >= 3 && bts(s)[0] == q && bts(s)[1] == q && bts(s)[2] == q { unimplemented!() }
#[verifier::external_body]
fn vx_break_name(s: &str) -> bool { unimplemented!() }
#[verifier::external_body]
fn vx_get<'a>(s: &'a str, i: usize) -> (r: Option<&'a u8>) ensures r is Some <==> i < bts(s).len(), r is Some ==> *(r->0) == bts(s)[i as int] { s.as_bytes().get(i) }
#[verifier::external_body]
fn vx_byte(s: &str, i: usize) -> (r: u8) requires i < bts(s).len() ensures r == bts(s)[i as int] { s.as_bytes()[i] }
#[verifier::external_body]
fn vx_line_len(s: &str) -> (r: usize) ensures r <= bts(s).len(), bnd(bts(s), r as int) { unimplemented!() }
#[verifier::external_body]
fn vx_alphabetic(c: char) -> bool { c.is_alphabetic() }
#[verifier::external_body]
fn vx_numeric(c: char) -> bool { c.is_numeric() }
#[verifier::external_body]
fn vx_last(v: &Vec<usize>) -> (r: usize) requires v@.len() > 0 ensures r == v@.last() { *v.last().unwrap() }
#[verifier::external_body]
fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: &mut T) requires old(v)@.len() > 0 ensures *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r)) { v.last_mut().unwrap() }
#[verifier::external_body]
fn vx_last_mut_opt<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures r is Some <==> old(v)@.len() > 0, r is Some ==> *(r->0) == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r->0)), r is None ==> final(v)@ == old(v)@ { v.last_mut() }
#[verifier::external_body]
fn vx_drain<T>(v: &mut Vec<T>, j: usize) requires j <= old(v)@.len() ensures final(v)@ == old(v)@.take(j as int) { v.drain(j..); }
/// An iterator over (index, node), in either direction
struct VxNodes<'a> { v: &'a Vec<FStringNode>, k: usize, rev: bool }
impl<'a> VxNodes<'a> {
    fn vx_next(&mut self) -> (r: Option<(usize, &'a FStringNode)>)
        requires old(self).k <= old(self).v@.len(),
        ensures final(self).v == old(self).v, final(self).rev == old(self).rev, final(self).k <= final(self).v@.len(),
            r is Some <==> old(self).k < old(self).v@.len(), r is Some ==> final(self).k == old(self).k + 1,
            r is Some ==> (r->0).0 < old(self).v@.len() && *(r->0).1 == old(self).v@[(r->0).0 as int],
    { if self.k < self.v.len() { let i = if self.rev { self.v.len() - 1 - self.k } else { self.k }; self.k += 1; Some((i, &self.v[i])) } else { None } }
}
fn vx_nodes<'a>(v: &'a Vec<FStringNode>, rev: bool) -> (r: VxNodes<'a>) ensures r.v == v, r.k == 0 { VxNodes { v, k: 0, rev } }
#[verifier::external_body]
fn vx_single_line<'a>(v: &'a Vec<FStringNode>) -> (r: Option<(usize, &'a FStringNode)>) ensures r is Some ==> (r->0).0 < v@.len() { unimplemented!() }
/// chars()
struct VxOnlyChars<'a> { it: VxChars<'a> }
impl<'a> VxOnlyChars<'a> {
    fn vx_next(&mut self) -> (r: Option<char>)
        requires 0 <= old(self).it.at() <= old(self).it.b().len(), bnd(old(self).it.b(), old(self).it.at()),
        ensures
            final(self).it.b() == old(self).it.b(), old(self).it.at() <= final(self).it.at() <= final(self).it.b().len(), bnd(final(self).it.b(), final(self).it.at()),
            old(self).it.at() == old(self).it.b().len() ==> r is None,
            old(self).it.at() < old(self).it.b().len() ==> r is Some && old(self).it.at() < final(self).it.at() && !cont(old(self).it.b()[old(self).it.at()])
                && (forall|k: int| old(self).it.at() < k < final(self).it.at() ==> cont(#[trigger] old(self).it.b()[k]))
                && c8(r->0) == final(self).it.at() - old(self).it.at()
                && ((r->0 as u32) < 0x80 <==> old(self).it.b()[old(self).it.at()] < 0x80) && ((r->0 as u32) < 0x80 ==> r->0 as u32 == old(self).it.b()[old(self).it.at()]),
    { match self.it.vx_next() { Some((i, c)) => Some(c), None => None } }
}
fn vx_chars<'a>(s: &'a str) -> (r: VxOnlyChars<'a>) ensures r.it.b() == bts(s), r.it.at() == 0 { VxOnlyChars { it: vx_char_indices(s) } }
#[verifier::external_body]
fn vx_first_char(s: &str) -> (r: Option<char>) ensures r is Some <==> bts(s).len() > 0, r is Some ==> 1 <= c8(r->0) <= bts(s).len() && bnd(bts(s), c8(r->0)) { s.chars().next() }
/// chars().rev()
#[verifier::external_body]
struct VxRev<'a> { it: std::iter::Rev<std::str::Chars<'a>> }
impl<'a> VxRev<'a> {
    uninterp spec fn b(&self) -> Seq<u8>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<char>)
        requires 0 <= old(self).at() <= old(self).b().len(),
        ensures final(self).b() == old(self).b(), 0 <= final(self).at() <= old(self).at(), r is Some <==> old(self).at() > 0,
            r is Some ==> final(self).at() < old(self).at() && ((r->0 as u32) < 0x80 <==> old(self).b()[old(self).at() - 1] < 0x80)
                && ((r->0 as u32) < 0x80 ==> r->0 as u32 == old(self).b()[old(self).at() - 1] && final(self).at() == old(self).at() - 1),
    { self.it.next() }
}
#[verifier::external_body]
fn vx_rev<'a>(s: &'a str) -> (r: VxRev<'a>) ensures r.b() == bts(s), r.at() == bts(s).len() { unimplemented!() }
/// peek and nth of a peekable char_indices
impl<'a> VxChars<'a> {
    #[verifier::external_body]
    fn vx_peek(&self) -> (r: Option<&(usize, char)>)
        requires 0 <= self.at() <= self.b().len(), bnd(self.b(), self.at()),
        ensures r is Some <==> self.at() < self.b().len(), r is Some ==> (((r->0).1 as u32) < 0x80 <==> self.b()[self.at()] < 0x80) && (((r->0).1 as u32) < 0x80 ==> (r->0).1 as u32 == self.b()[self.at()]),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_nth(&mut self, n: usize)
        requires 0 <= old(self).at() <= old(self).b().len(), bnd(old(self).b(), old(self).at()),
        ensures final(self).b() == old(self).b(), old(self).at() <= final(self).at() <= final(self).b().len(), bnd(final(self).b(), final(self).at()),
    { unimplemented!() }
}
struct VxPairs<'a> { v: &'a [(VxRe, TerminalType); 2], k: usize }
impl<'a> VxPairs<'a> {
    fn vx_next(&mut self) -> (r: Option<&'a (VxRe, TerminalType)>)
        requires old(self).k <= 2,
        ensures final(self).v == old(self).v, final(self).k <= 2, r is Some <==> old(self).k < 2, r is Some ==> final(self).k == old(self).k + 1 && *(r->0) == old(self).v@[old(self).k as int],
    { if self.k < 2 { let i = self.k; self.k += 1; Some(&self.v[i]) } else { None } }
}
fn vx_pairs<'a>(v: &'a [(VxRe, TerminalType); 2]) -> (r: VxPairs<'a>) ensures r.v == v, r.k == 0 { VxPairs { v, k: 0 } }
/// derive(Default)
fn vx_default<'a>(code: &'a str) -> (r: PythonTokenizer<'a>)
    ensures r.index == 0, !r.ended, r.parentheses_level == 0, r.f_string_stack@.len() == 0, r.indent_stack@.len() == 0, !r.previous_token_was_newline
{ PythonTokenizer { code, previous_token_was_newline: false, index: 0, ended: false, indent_stack: Vec::new(), parentheses_level: 0, f_string_stack: Vec::new() } }
//@tyrw CodeIndex ==> u32
//@rw ALWAYS_BREAK_NAMES.contains(&$c[..$n]) ==> vx_break_name(vx_slice($c, 0, $n))
//@rw $s.contains($p) ==> vx_contains($s, $p)
//@rw $s.ends_with($p) ==> vx_ends_with($s, $p)
//@rw $s.starts_with("\"\"\"") ==> vx_triple($s, 34)
//@rw $s.starts_with("'''") ==> vx_triple($s, 39)
//@rw $s.as_bytes().get($i) ==> vx_get($s, $i)
//@rw $s.as_bytes().first() ==> vx_get($s, 0)
//@rw $s.as_bytes()[$i] ==> vx_byte($s, $i)
//@rw NUMBER.find($c) ==> vx_find(VxRe::Number, $c)
//@rw OPERATOR.find($c) ==> vx_find(VxRe::Operator, $c)
//@rw F_STRING_START.find($c) ==> vx_find(VxRe::FStart, $c)
//@rw NEWLINE.find($c) ==> vx_find(VxRe::Newline, $c)
//@rw UNICODE_CHARACTER_NAME.find($c) ==> vx_find(VxRe::CharName, $c)
//@rw r.find($c) ==> vx_find(r, $c)
//@rw &*STRING ==> VxRe::Str
//@rw &*BYTES ==> VxRe::Bytes
//@rw vx_into_iter(&regexes) ==> vx_pairs(&regexes)
//@rw $c.find(&['\n', '\r'] as &[_]).map_or($a, |index| index + 1) ==> vx_line_len($c)
//@rw *$v.last().unwrap() ==> vx_last(&$v)
//@rw $v.last_mut().unwrap() ==> vx_last_mut(&mut $v)
//@rw $v.last_mut() ==> vx_last_mut_opt(&mut $v)
//@rw $v.drain($j..) ==> vx_drain(&mut $v, $j)
//@rw $v.iter().enumerate().find(|(_, node)| !node.allow_multiline()) ==> vx_single_line(&$v)
//@rw vx_into_iter($v.iter().enumerate().rev()) ==> vx_nodes(&$v, true)
//@rw vx_into_iter($v.iter().enumerate()) ==> vx_nodes(&$v, false)
//@rw $c[..$i].chars().rev() ==> vx_rev(vx_slice($c, 0, $i))
//@rw $c.chars().next() ==> vx_first_char($c)
//@rw $c.char_indices().peekable() ==> vx_char_indices($c)
//@rw $c.char_indices() ==> vx_char_indices($c)
//@rw $c.chars() ==> vx_chars($c)
//@rw iterator.next() ==> iterator.vx_next()
//@rw iterator.peek() ==> iterator.vx_peek()
//@rw iterator.nth($n) ==> iterator.vx_nth($n)
//@rw $c.len_utf8() ==> vx_len_utf8($c)
//@rw $c.is_alphabetic() ==> vx_alphabetic($c)
//@rw $c.is_numeric() ==> vx_numeric($c)
//@rw code.len() ==> vx_len(code)
//@rw Default::default() ==> vx_default(code)
//@rw str::from_utf8_unchecked(&$c.as_bytes()[$i..]) ==> vx_slice_from($c, $i)
//@fn code_from_start
    requires index <= bts(code).len(), bnd(bts(code), index as int),
    ensures bts(r) == bts(code).subrange(index as int, bts(code).len() as int),
//@end
impl FStringNode {
//@fn FStringNode::open_parentheses
    requires old(self).parentheses_level < usize::MAX,
    ensures final(self).parentheses_level == old(self).parentheses_level + 1,
//@end
//@fn FStringNode::close_parentheses
    ensures final(self).parentheses_level <= old(self).parentheses_level,
//@end
//@fn FStringNode::allow_multiline
//@end
//@fn FStringNode::in_expr
    ensures r == (self.parentheses_level > self.format_spec_count),
//@end
//@fn FStringNode::in_format_spec
//@end
}
impl<'a> PythonTokenizer<'a> {
//@fn PythonTokenizer:Tokenizer::new
    requires bts(code).len() < u32::MAX,
    ensures inv(r), r.code == code, r.index == 0, !r.ended, r.indent_stack@ == seq![0usize], r.previous_token_was_newline, outside(r),
//@end
//@fn PythonTokenizer::new_tok
    requires start <= self.index <= u32::MAX,
    ensures r is Some, (r->0).start_index == start, (r->0).length == self.index - start, (r->0).type_ == type_,
//@end
//@fn PythonTokenizer::dedent_if_necessary
    requires inv(*old(self)),
    ensures ({
        let (o, n) = (*old(self), *final(self));
        &&& n.code == o.code && n.index == o.index && n.ended == o.ended && n.parentheses_level == o.parentheses_level && n.f_string_stack@ == o.f_string_stack@ && n.previous_token_was_newline == o.previous_token_was_newline
        &&& inv(n)
        &&& r is Some <==> indentation_count < o.indent_stack@.last()
        &&& r is None ==> n.indent_stack@ == o.indent_stack@
        &&& r is Some ==> closes(o.indent_stack@, indentation_count as int, n.indent_stack@, (r->0).type_) && (r->0).start_index == o.index && (r->0).length == 0 && sum(n.indent_stack@) < sum(o.indent_stack@)
    }),
//@begin
        let ghost st = self.indent_stack@;
//@after vx_last_mut(
        proof { assert(self.indent_stack@ =~= st.drop_last().push(indentation_count)); assert(self.indent_stack@.drop_last() =~= st.drop_last()); }
//@end
//@fn PythonTokenizer::encountered_break_token
    requires inv(*old(self)), !old(self).previous_token_was_newline,
    ensures ({
        let (o, n) = (*old(self), *final(self));
        &&& n.code == o.code && n.index == o.index && n.ended == o.ended && n.previous_token_was_newline == o.previous_token_was_newline
        &&& inv(n)
        &&& outside(o) ==> r is None
        &&& r is None ==> n.indent_stack@ == o.indent_stack@
        &&& r is Some ==> before(txt(o), o.index as int, 0) is Some && closes(o.indent_stack@, before(txt(o), o.index as int, 0)->0 as int, n.indent_stack@, (r->0).type_)
            && (r->0).start_index == o.index && (r->0).length == 0 && sum(n.indent_stack@) < sum(o.indent_stack@) && outside(n)
    }),
//@loop 0
        invariant it__0.b() == txt(*old(self)).subrange(0, old(self).index as int), 0 <= it__0.at() <= old(self).index <= txt(*old(self)).len() < u32::MAX, indentation <= old(self).index - it__0.at(),
            before(txt(*old(self)), old(self).index as int, 0) == before(txt(*old(self)), it__0.at(), indentation as nat),
            self.code == old(self).code, self.index == old(self).index, self.ended == old(self).ended, !self.previous_token_was_newline, !old(self).previous_token_was_newline, inv(*self), self.indent_stack@ == old(self).indent_stack@, outside(*self), !outside(*old(self)),
        decreases it__0.at(),
//@end
//@fn PythonTokenizer::f_string_tos
    requires old(self).f_string_stack@.len() > 0,
    ensures *r == old(self).f_string_stack@.last(), final(self).f_string_stack@ == old(self).f_string_stack@.update(old(self).f_string_stack@.len() - 1, *final(r)),
        final(self).code == old(self).code, final(self).index == old(self).index, final(self).ended == old(self).ended, final(self).previous_token_was_newline == old(self).previous_token_was_newline,
        final(self).parentheses_level == old(self).parentheses_level, final(self).indent_stack == old(self).indent_stack,
//@end
//@fn PythonTokenizer::maybe_fstring_string
    requires inv(*old(self)), old(self).index + length <= txt(*old(self)).len(), bnd(txt(*old(self)), old(self).index + length), !old(self).ended, !outside(*old(self)), !old(self).previous_token_was_newline,
    ensures length == 0 ==> r is None && *final(self) == *old(self), length > 0 ==> r is Some && tstep(*old(self), *final(self), r->0),
//@begin
        proof { reveal(tstep); assert(trivia(txt(*self), self.index as int, self.index as int)); }
//@end
//@fn PythonTokenizer::skip_whitespace_until_continuation
    requires inv(*old(self)),
    ensures ({
        let (o, n) = (*old(self), *final(self));
        let s = skip(txt(o), o.index as int, 0, false, o.previous_token_was_newline);
        &&& n.code == o.code && n.index == s.0 && n.ended == o.ended && n.parentheses_level == o.parentheses_level && n.f_string_stack@ == o.f_string_stack@ && n.previous_token_was_newline == o.previous_token_was_newline && n.indent_stack@ == o.indent_stack@
        &&& inv(n)
        &&& r == s.1
        &&& s.2 ==> *final(is_continuation)
        &&& !s.2 ==> *final(is_continuation) == *old(is_continuation)
    }),
//@begin
        let ghost b = txt(*self);
        let ghost z = skip(b, self.index as int, 0, false, self.previous_token_was_newline);
        proof { utf8(self.code); utf8_follow(self.code); skip_is(b, self.index as int, 0, false, self.previous_token_was_newline); }
//@loop 0
        invariant_except_break old(self).index + it__0.it.at() == self.index,
        invariant inv(*self), b == txt(*self), starts_ok(b), utf8_ends(b), self.code == old(self).code, self.ended == old(self).ended, self.parentheses_level == old(self).parentheses_level, self.f_string_stack == old(self).f_string_stack,
            self.previous_token_was_newline == old(self).previous_token_was_newline, self.indent_stack == old(self).indent_stack, *is_continuation == *old(is_continuation), 
            it__0.it.b() == b.subrange(old(self).index as int, b.len() as int), 0 <= it__0.it.at() <= it__0.it.b().len(), bnd(it__0.it.b(), it__0.it.at()), old(self).index <= self.index,
            z == skip(b, self.index as int, indentation as nat, was_comment, self.previous_token_was_newline), indentation <= self.index,
            z == skip(b, old(self).index as int, 0, false, old(self).previous_token_was_newline), z.0 <= b.len(),
        ensures z == (self.index as int, indentation as nat, false),
        decreases b.len() - self.index,
//@loopbegin 0
        let ghost p = self.index as int;
        let ghost w0 = was_comment;
//@after let character
        let ghost q = old(self).index + it__0.it.at();
        proof {
            let c = it__0.it.b();
            assert(b[p] == c[p - old(self).index]);
            if b[p] < 0x80 { if q > p + 1 { assert(cont(c[p + 1 - old(self).index])); assert(b[p + 1 - 1] < 0x80); } assert(q == p + 1); }
            else {
                assert forall|k: int| p <= k < q implies !nl(#[trigger] b[k]) by { if k > p { assert(cont(c[k - old(self).index])); } }
                if w0 { comment_run(b, p, q, indentation as nat, self.previous_token_was_newline); }
            }
            assert(('\n' as u32) == 10 && ('\r' as u32) == 13 && (' ' as u32) == 32 && ('\t' as u32) == 9 && ('#' as u32) == 35 && ('\\' as u32) == 92 && (FORM_FEED as u32) == 12);
            assert(bnd(b, q)) by { if q < b.len() { assert(b[q] == c[q - old(self).index]); } }
        }
//@before *is_continuation = true
        proof { assert(contlen(b, p) > 0 && self.index == p + contlen(b, p)); assert(nl(b[self.index - 1])); if self.index < b.len() { assert(b[self.index as int - 1] < 0x80); } assert(bnd(b, self.index as int)); }
//@loopend 0
        proof { assert(self.index == q); if !w0 { assert(b[p] < 0x80); if nl(b[p]) { } else if sp(b[p]) { } else { assert(b[p] == 35); } } else { } }
//@end
//@fn PythonTokenizer::skip_whitespace
    requires inv(*old(self)),
    ensures ({
        let (o, n) = (*old(self), *final(self));
        &&& n.code == o.code && n.index == start(txt(o), o.index as int, o.previous_token_was_newline) && n.ended == o.ended && n.parentheses_level == o.parentheses_level && n.f_string_stack@ == o.f_string_stack@ && n.previous_token_was_newline == o.previous_token_was_newline && n.indent_stack@ == o.indent_stack@
        &&& inv(n)
        &&& r == width(txt(o), o.index as int, o.previous_token_was_newline)
    }),
//@begin
        proof { rest_is(txt(*self), self.index as int, self.previous_token_was_newline); }
//@loop 0
        invariant inv(*self), self.code == old(self).code, self.ended == old(self).ended, self.parentheses_level == old(self).parentheses_level, self.f_string_stack@ == old(self).f_string_stack@,
            self.previous_token_was_newline == old(self).previous_token_was_newline, self.indent_stack@ == old(self).indent_stack@, 
            !is_continuation ==> start(txt(*self), old(self).index as int, self.previous_token_was_newline) == self.index,
            is_continuation ==> start(txt(*self), old(self).index as int, self.previous_token_was_newline) == rest(txt(*self), self.index as int, self.previous_token_was_newline),
        decreases txt(*self).len() - self.index, if is_continuation { 1int } else { 0int },
//@loopbegin 0
        proof { rest_is(txt(*self), self.index as int, self.previous_token_was_newline); skip_is(txt(*self), self.index as int, 0, false, self.previous_token_was_newline); }
//@end
//@fn PythonTokenizer::find_name_length
    ensures r <= bts(code).len(), bnd(bts(code), r as int),
//@loop 0
        invariant it__0.b() == bts(code), 0 <= it__0.at() <= bts(code).len(), bnd(bts(code), it__0.at()),
        decreases bts(code).len() - it__0.at(),
//@end
//@fn PythonTokenizer::end_f_string
//@inline end
    requires inv(*old(self)), old(self).f_string_stack@.len() > 0, !old(self).ended, old(self).index + string_length < txt(*old(self)).len(), bnd(txt(*old(self)), old(self).index + string_length),
        drain_from <= old(self).f_string_stack@.len(), quoted(txt(*old(self)), old(self).index + string_length, quote),
        old(self).f_string_stack@.last().parentheses_level <= old(self).f_string_stack@.last().format_spec_count,
    ensures r is Some, tstep(*old(self), *final(self), r->0),
//@begin
        proof {
            reveal(tstep); utf8(self.code); utf8_follow(self.code);
            let b = txt(*self);
            assert(trivia(b, self.index as int, self.index as int));
            assert(self.f_string_stack@.update(self.f_string_stack@.len() - 1, self.f_string_stack@.last()) =~= self.f_string_stack@);
            let e = self.index + string_length;
            if e + 1 < b.len() { assert(b[e + 1 - 1] < 0x80); }
            if e + 3 < b.len() && triple(quote) { assert(b[e + 3 - 1] < 0x80); }
        }
//@end
//@fn PythonTokenizer::handle_fstring_stack
    requires inv(*old(self)), old(self).f_string_stack@.len() > 0, !old(self).ended,
    ensures r is None ==> eqv(*old(self), *final(self)), r is Some ==> tstep(*old(self), *final(self), r->0),
    decreases txt(*old(self)).len() - old(self).index, old(self).f_string_stack@.len(), 0int,
//@begin
        let ghost b = txt(*self);
        proof {
            reveal(tstep); utf8(self.code); utf8_follow(self.code);
            assert(trivia(b, self.index as int, self.index as int));
            assert(self.f_string_stack@.update(self.f_string_stack@.len() - 1, self.f_string_stack@.last()) =~= self.f_string_stack@);
        }
//@loop 0
        invariant eqv(*old(self), *self), inv(*self), b == txt(*self), starts_ok(b), utf8_ends(b), !old(self).ended, !in_expr, self.f_string_stack@.len() > 0, trivia(b, self.index as int, self.index as int),
            self.f_string_stack@.last().parentheses_level <= self.f_string_stack@.last().format_spec_count,
            self.f_string_stack@.update(self.f_string_stack@.len() - 1, self.f_string_stack@.last()) == self.f_string_stack@,
            iterator.b() == b.subrange(self.index as int, b.len() as int), 0 <= iterator.at() <= iterator.b().len(), bnd(iterator.b(), iterator.at()),
        decreases b.len() - self.index - iterator.at(),
//@loopbegin 0
        let ghost p = iterator.at();
        proof { reveal(tstep); if p < iterator.b().len() { assert(iterator.b()[p] == b[self.index + p]); sub_bnd(b, self.index as int, p); if p + 1 < iterator.b().len() { assert(iterator.b()[p + 1] == b[self.index + p + 1]); } }
            assert(('\n' as u32) == 10 && ('\r' as u32) == 13 && ('"' as u32) == 34 && ('\'' as u32) == 39 && ('\\' as u32) == 92 && ('N' as u32) == 78);
        }
//@before vx_find(VxRe::CharName
        proof {
            assert(b[self.index + p] == 92);
            if iterator.at() > p + 1 { assert(cont(iterator.b()[p + 1])); assert(b[self.index + p + 1 - 1] < 0x80); }
            assert(b[self.index + p + 1] == 78); if self.index + p + 2 < b.len() { assert(b[self.index + p + 2 - 1] < 0x80); }
        }
//@loop 1
        invariant eqv(*old(self), *self), inv(*self), b == txt(*self), !old(self).ended, it__1.v@ == self.f_string_stack@, it__1.k <= it__1.v@.len(), b[self.index + i] == 34, self.index + i < b.len(), bnd(b, self.index + i), starts_ok(b), utf8_ends(b),
            self.f_string_stack@.len() > 0, self.f_string_stack@.last().parentheses_level <= self.f_string_stack@.last().format_spec_count,
        decreases it__1.v@.len() - it__1.k,
//@loopbegin 1
        proof { reveal(tstep); }
//@loop 2
        invariant eqv(*old(self), *self), inv(*self), b == txt(*self), !old(self).ended, it__2.v@ == self.f_string_stack@, it__2.k <= it__2.v@.len(), b[self.index + i] == 39, self.index + i < b.len(), bnd(b, self.index + i), starts_ok(b), utf8_ends(b),
            self.f_string_stack@.len() > 0, self.f_string_stack@.last().parentheses_level <= self.f_string_stack@.last().format_spec_count,
        decreases it__2.v@.len() - it__2.k,
//@loopbegin 2
        proof { reveal(tstep); }
//@end
//@fn PythonTokenizer::next_token attr=verifier::rlimit(60)
    requires inv(*old(self)), !*old(is_line_break_in_brackets),
    ensures old(self).ended ==> r is None && *final(self) == *old(self),
        *final(is_line_break_in_brackets) ==> r is None && !old(self).ended && same(*old(self), *final(self)) && inv(*final(self)) && !outside(*old(self)) && !outside(*final(self)) && old(self).index < final(self).index
            && trivia(txt(*old(self)), old(self).index as int, final(self).index as int) && !old(self).previous_token_was_newline,
        !old(self).ended && !*final(is_line_break_in_brackets) ==> r is Some && tstep(*old(self), *final(self), r->0),
    decreases txt(*old(self)).len() - old(self).index, old(self).f_string_stack@.len(), 1int,
//@begin
        let ghost b = txt(*self);
        proof {
            utf8(self.code); utf8_follow(self.code);
            rest_is(b, self.index as int, self.previous_token_was_newline);
            skip_is(b, self.index as int, 0, false, self.previous_token_was_newline);
        }
//@after let c = 
        let ghost w = *self;
        proof { at_line(*old(self), w); assert forall|e: int| 0 <= e <= bts(c).len() && #[trigger] bnd(bts(c), e) implies bnd(b, start + e) by { sub_bnd(b, start as int, e); } }
//@before vx_find(VxRe::Number
        let ghost m = *self;
        proof { assert(mid(*old(self), m)); after_mid(*old(self), m); }
//@before *is_line_break_in_brackets = true
        proof {
            assert(trivia(b, self.index as int, self.index as int)); assert(bts(c)[0] == b[start as int]); assert(nl(b[start as int])); 
            if self.index == start + 2 { assert(bts(c)[1] == b[start + 1]); assert(nl(b[start + 1])); assert(trivia(b, start + 1, self.index as int)); }
            assert(trivia(b, start as int, self.index as int)); trivia_add(b, old(self).index as int, start as int, self.index as int);
        }
//@loopbegin 0
        proof { after_mid(*old(self), *self); assert forall|e: int| 0 <= e <= bts(c).len() && #[trigger] bnd(bts(c), e) implies bnd(txt(*self), start + e) by { sub_bnd(txt(*self), start as int, e); } }
//@loop 0
        invariant mid(*old(self), *self), !old(self).ended, inv(*self), it__0.k <= 2, start == self.index, inv(*old(self)), trivia(txt(*self), old(self).index as int, start as int), old(self).index <= start,
            bts(c) == txt(*self).subrange(self.index as int, txt(*self).len() as int), !*is_line_break_in_brackets,
            forall|k: int| 0 <= k < 2 ==> !blocky((#[trigger] it__0.v@[k]).1) && it__0.v@[k].1 != TerminalType::Endmarker && it__0.v@[k].1 != TerminalType::Newline && it__0.v@[k].0 != VxRe::CharName,
        decreases 2 - it__0.k,
//@end
//@fn PythonTokenizer:Iterator::next
//@tyrw Self::Item ==> PyTerminal
    requires inv(*old(self)),
    ensures old(self).ended ==> r is None && *final(self) == *old(self),
        !old(self).ended ==> r is Some && tstep(*old(self), *final(self), r->0),
    decreases txt(*old(self)).len() - old(self).index, old(self).f_string_stack@.len(), 2int,
//@loop 0
        invariant inv(*self), inv(*old(self)), old(self).ended ==> *self == *old(self),
            *self == *old(self) || (same(*old(self), *self) && !outside(*old(self)) && !outside(*self) && !old(self).previous_token_was_newline && old(self).index < self.index && trivia(txt(*self), old(self).index as int, self.index as int)),
        decreases txt(*self).len() - self.index,
//@loopbegin 0
        let ghost m = *self;
//@after let token
        proof {
            let o = *old(self);
            if is_line_break_in_brackets { if m != o { trivia_add(txt(o), o.index as int, m.index as int, self.index as int); } }
            else if m != o { step_after(o, m, *self, token->0); }
        }
//@end
}
/// The token stream
spec fn stop(t: PyTerminal) -> int { t.start_index + t.length }
spec fn count(v: Seq<PyTerminal>, k: TerminalType) -> nat decreases v.len() { if v.len() == 0 { 0 } else { count(v.drop_last(), k) + if v.last().type_ == k { 1nat } else { 0 } } }
/// C01 over the whole text: tokens in order and in bounds, at character boundaries, only trivia before, between and behind them, one end marker, at the end.
spec fn stream(b: Seq<u8>, v: Seq<PyTerminal>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).start_index <= stop(v[i]) <= b.len() && bnd(b, v[i].start_index as int) && bnd(b, stop(v[i]))
    &&& v.len() > 0 ==> trivia(b, 0, v[0].start_index as int)
    &&& forall|i: int| 0 < i < v.len() ==> trivia(b, stop(v[i - 1]), (#[trigger] v[i]).start_index as int)
}
spec fn nested(v: Seq<PyTerminal>) -> bool { forall|i: int| 0 <= i <= v.len() ==> count(#[trigger] v.take(i), TerminalType::Indent) >= count(v.take(i), TerminalType::Dedent) }
spec fn run1(t: Tok, v: Seq<PyTerminal>) -> bool {
    &&& inv(t) && stream(txt(t), v) && (v.len() == 0 ==> t.index == 0) && (v.len() > 0 ==> at_ok(t, stop(v.last())))
    &&& t.ended ==> v.len() > 0 && v.last().type_ == TerminalType::Endmarker && v.last().length == 0 && v.last().start_index == txt(t).len() && t.indent_stack@.len() == 1
    &&& !t.ended ==> v.len() == 0 || v.last().type_ != TerminalType::Endmarker
    &&& forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] v[i]).type_ != TerminalType::Endmarker
}
spec fn run2(t: Tok, v: Seq<PyTerminal>) -> bool { nested(v) && count(v, TerminalType::Indent) == count(v, TerminalType::Dedent) + t.indent_stack@.len() - 1 }
proof fn run1_step(o: Tok, n: Tok, w: Seq<PyTerminal>, x: PyTerminal) requires run1(o, w), tstep(o, n, x), !o.ended ensures run1(n, w.push(x))
{
    let v = w.push(x);
    let b = txt(o);
    reveal(tstep);
    rest_is(b, o.index as int, o.previous_token_was_newline);
    assert(trivia(b, x.start_index as int, x.start_index as int));
    assert(v[v.len() - 1] == x);
    if w.len() > 0 { assert(trivia(b, stop(w.last()), x.start_index as int)); assert(v[w.len() - 1] == w.last()); assert(v[0] == w[0]); assert(w.last() == w[w.len() - 1]); }
    assert forall|i: int| 0 < i < v.len() implies trivia(b, stop(v[i - 1]), (#[trigger] v[i]).start_index as int) by { if i < w.len() { assert(v[i] == w[i] && v[i - 1] == w[i - 1]); } }
    assert forall|i: int| 0 <= i < v.len() - 1 implies (#[trigger] v[i]).type_ != TerminalType::Endmarker by { assert(v[i] == w[i]); }
    assert(stream(b, v));
}
proof fn run2_step(o: Tok, n: Tok, w: Seq<PyTerminal>, x: PyTerminal) requires run2(o, w), tstep(o, n, x), inv(o), inv(n) ensures run2(n, w.push(x))
{
    reveal(tstep);
    let v = w.push(x);
    assert(v.drop_last() =~= w);
    assert(v.take(v.len() as int) =~= v);
    assert(n.indent_stack@.len() - o.indent_stack@.len() == if x.type_ == TerminalType::Indent { 1int } else if x.type_ == TerminalType::Dedent { -1int } else { 0int });
    assert forall|i: int| 0 <= i <= v.len() implies count(#[trigger] v.take(i), TerminalType::Indent) >= count(v.take(i), TerminalType::Dedent) by { if i <= w.len() { assert(v.take(i) =~= w.take(i)); } }
}
proof fn progress(o: Tok, n: Tok, x: PyTerminal) requires tstep(o, n, x) ensures n.code == o.code, inv(n), n.index >= o.index, n.index > o.index || sum(n.indent_stack@) < sum(o.indent_stack@) || (sum(n.indent_stack@) == sum(o.indent_stack@) && n.ended)
{ reveal(tstep); }
fn tokenize(code: &str) -> (r: Vec<PyTerminal>)
    requires bts(code).len() < u32::MAX,
    ensures stream(bts(code), r@), r@.len() > 0, r@.last().type_ == TerminalType::Endmarker, r@.last().length == 0, r@.last().start_index == bts(code).len(),
        forall|i: int| 0 <= i < r@.len() - 1 ==> (#[trigger] r@[i]).type_ != TerminalType::Endmarker,
        // C02: blocks balance, and never close more often than they open
        count(r@, TerminalType::Indent) == count(r@, TerminalType::Dedent), nested(r@),
{
    let mut t = PythonTokenizer::new(code);
    let mut v: Vec<PyTerminal> = Vec::new();
    proof { assert(trivia(bts(code), 0, 0)); assert(run1(t, v@)); assert(v@.take(0) =~= v@); assert(nested(v@)); }
    loop
        invariant run1(t, v@), run2(t, v@), t.code == code,
        ensures t.ended,
        decreases bts(code).len() - t.index, sum(t.indent_stack@), if t.ended { 0int } else { 1int },
    {
        let ghost o = t;
        let ghost w = v@;
        match t.next() {
            None => { break; }
            Some(x) => {
                proof { progress(o, t, x); run1_step(o, t, w, x); run2_step(o, t, w, x); }
                v.push(x);
            }
        }
    }
    v
}
}
fn main() {}
