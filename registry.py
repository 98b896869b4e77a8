"""Which units, harness and assumptions decide which property."""
STRICT = "the verifier's built-in specifications of Vec, Option, slices and integers (vstd)"
PROPS = {
 "C01": dict(units=["tokenizer"], harness="h_parse", level="proof",
   assumptions=["std's str, char and Vec functions as stated on the bytes of the text (slicing, chars, char_indices, rev, peek, nth, drain, last_mut)",
     "two consequences of UTF-8 validity: a text does not start with a continuation byte, and none follows a one-byte character",
     "the regex crate: the anchored expressions match a non-empty prefix that ends at a character boundary, and `^(\\r\\n?|\\n)` only a line break (what the expressions look like is compared with the source on every run)",
     "str::contains, ends_with, char::is_alphabetic/is_numeric and the set of statement keywords are arbitrary functions (which kind of token it is, is not specified)",
     "texts shorter than 2^32 - 1 bytes, 64-bit usize"],
   outside=["which terminal type a piece of text gets"],
   technique="Verus contracts on every function of PythonTokenizer (state invariant, what one step covers, termination measures through the mutual recursion), extracted on every run; whole-stream theorem over the contract of next; replay harness tokenizes and parses texts with the compiled crates",
   note="for all texts below 4 GiB: order, bounds, character boundaries, trivia between tokens, termination, one end marker at the end, no panic"),
 "C02": dict(units=["tokenizer"], harness="h_parse", level="proof",
   assumptions=["std's str, char and Vec functions as stated on the bytes of the text (slicing, chars, char_indices, rev, peek, nth, drain, last_mut)",
     "two consequences of UTF-8 validity: a text does not start with a continuation byte, and none follows a one-byte character",
     "the regex crate: the anchored expressions match a non-empty prefix that ends at a character boundary, and `^(\\r\\n?|\\n)` only a line break (what the expressions look like is compared with the source on every run)",
     "str::contains, ends_with, char::is_alphabetic/is_numeric and the set of statement keywords are arbitrary functions (which kind of token it is, is not specified)",
     "texts shorter than 2^32 - 1 bytes, 64-bit usize"],
   outside=["which words count as statement keywords for the recovery in brackets"],
   technique="Verus contracts on PythonTokenizer: each token's effect on the indentation stack is characterised exactly (indentation as recursive function of the text), extracted on every run; balance of the whole stream as theorem over the contract of next; replay harness compares with an independent indentation model",
   note="for all texts: exactly when blocks open and close, balance, strictly increasing levels"),
 "C03": dict(units=["grammar"], harness="h_parse", level="proof",
   assumptions=["the tokenizer hands out one fixed sequence of tokens in order, not overlapping, inside the text (C01), and stays at its end (VxStream)",
     "facts about the generated automatons, stated as contracts on the stand-in types for Plan, DFAState and Automatons (plan_facts, reuse_facts, mk_facts, vx_lookup, vx_start_state, alternative_token, reused_leaf_has_length): a plan for a token ends in the transition for that token, terminals and keywords have numbers below the first nonterminal, the nodes of an alternative are re-used or replayed consistently, no plan of a left recursion leads to a negative lookahead",
     "raw pointers to plans and states are handles to immutable values, alive while the grammar is", "fewer than 2^64 nodes and tokens; lengths below 2^32"],
   outside=["lengths of inner nodes and the offsets to the next sibling (bounded stand-in)", "panics (unwrap, index) and termination of the parser (bounded stand-in)", "which tree is built for which input (the language)", "the generation of the automatons (crates/parsa/src/automaton.rs)"],
   technique="Verus contracts on the parser's stack machine (Stack, apply_plan, apply_transition, end_of_node, error_recovery, parse, together with BacktrackingTokenizer), extracted from grammar.rs on every run: an invariant ties the node table, the stack and the backtracking points to the tokens consumed; replay harness parses texts and audits the whole node table",
   note="for all token sequences: the leaves are exactly the tokens, once and in order, every inner node but the root starts where its first leaf does (partial correctness)"),
 "C04": dict(units=["navigation"], harness="h_parse", level="proof",
   assumptions=["the node table is well formed (predicates wfe and wft: pre-order, nested subtrees, the offset of a node leads to its next sibling and is zero for a last child, spans ordered and on character boundaries, the last leaf at the end of the text); that the parser only builds such tables is C03",
     "the slice and iterator adaptors (slicing, iter, rev, enumerate, skip, last, partition_point on a partitioned slice) correspond to the versions executed and verified in the unit",
     "the generated repr(u16) node type enums stand for their discriminants; str::from_utf8_unchecked on character boundaries gives the slice", "fewer than 2^32 nodes and bytes"],
   outside=["type_, type_str, maybe_error_node, maybe_error_leaf (transmutes between repr(u16) enums) and the Debug implementation", "searching for a type that the root itself has while skipping found subtrees (precondition of SearchIterator::next)"],
   technique="Verus contracts on the node, tree, sibling and search iterator methods that __create_node! and create_grammar! define, extracted from the macro bodies on every run, over a ghost subtree-end sequence; lemmas: children listed exactly and in order, siblings and leaves inverse; replay harness walks trees of the real parser",
   note="for all well-formed node tables, nodes and positions"),
 "C05": dict(units=["backtracking"], harness="h_parse", level="proof",
   assumptions=["the wrapped tokenizer hands out one fixed sequence once, in order, and stays at its end (VxStream; that it terminates is C01)",
     "the parser calls start with the token it received last and rewinds only to handles of the current recording (these preconditions of the contracts are obligations of the parser's functions in unit grammar, C03)",
     "fewer than 2^64 tokens are read"],
   outside=["the parser's own bookkeeping (crates/parsa/src/grammar.rs), see C03"],
   technique="Verus contracts on BacktrackingTokenizer (state invariant relating buffer, cursor and token sequence), extracted from backtracking.rs on every run; replay harness drives the real type with random histories",
   note="all histories of start/next/reset/stop/reset_to_last_leaf by induction over the state invariant"),
 "C06": dict(units=["strings"], harness="h_parse", level="proof",
   assumptions=["std's str, String and char functions as stated on bytes (slicing, push, chars, char::from_u32, to_digit, len_utf8)",
     "two consequences of UTF-8 validity: a text does not start with a continuation byte, and none follows a one-byte character",
     "what the tokenizer lets through as a literal: a prefix without quotes, one or three quotes, content in which no backslash is left alone at the end, the same quotes; less than 4 GiB (predicate `literal`; the stand-in obtains its literals from the real parser)",
     "PyNode's as_code/start/is_type and the sibling iterator as stated (C04)", "64-bit usize"],
   outside=["names of \\N{...} (kept as text, which the property allows)", "f-strings (decoded as opaque)"],
   technique="Verus contracts on strings.rs (from_literal, the raw path, union, new, parse_hex, parse_python_octal, unpack), with Python's decoding as recursive specification, extracted on every run; replay harness decodes literals through the real parser",
   note="for all literals of any length: decoded value and start offset, no panic"),
 "C07": dict(units=["bytes"], harness="h_parse", level="proof",
   assumptions=["std's str, String and char functions as stated on bytes (slicing, push, chars, char::from_u32, to_digit, len_utf8, replace)",
     "two consequences of UTF-8 validity: a text does not start with a continuation byte, and none follows a one-byte character",
     "what the tokenizer lets through as a literal: a prefix without quotes, one or three quotes, content in which no backslash is left alone at the end, the same quotes; less than 4 GiB (predicate `literal`; the stand-in obtains its literals from the real parser)",
     "PyNode's as_code/start/is_type and the sibling iterator as stated (C04)", "64-bit usize"],
   outside=["that content is ASCII only, as Python demands (other bytes are passed through)"],
   technique="Verus contracts on parse_python_bytes_literal and the helpers it calls, with Python's decoding as recursive specification, extracted on every run; replay harness decodes literals through the real parser",
   note="for all bytes literals of any length: decoded value, no panic"),
 "C08": dict(units=["dedent"], harness="h_parse", level="proof",
   assumptions=["str::split('\\n'), trim, chars, char_indices, find, slicing, join, String::drain as stated on character sequences with byte offsets (one notion of whitespace, char::is_whitespace, for trim and take_while)",
     "as_python_string yields the value of the string (C06)", "Cow is the std Cow specialised to str", "a line has fewer than 2^64 - 1 characters"],
   outside=[],
   technique="Verus contracts on dedent_cow, dedent, trim_string_in_place, PythonString::into_cow_str and Strings::clean_docstring, extracted on every run, with the common indentation as recursive specification; lemmas: exactly k whitespace characters lost per line with content, dedenting twice changes nothing; replay harness on the compiled crates",
   note="for all texts: result, panic freedom, idempotence"),
 "C09": dict(units=["lines"], harness="h_lines", level="proof",
   assumptions=["std's str functions as stated on the bytes of the text (len, is_char_boundary, slicing, char_indices, chars().count(), encode_utf16().count())",
     "two consequences of UTF-8 validity: a text does not start with a continuation byte, and none follows a one-byte character",
     "the regex crate: `\\n|\\r\\n|\\r` matches exactly the line breaks, in order (the expression itself is compared with the source on every run)",
     "slice::partition_point returns the length of the prefix that satisfies a predicate", "the cache (OnceLock) is modelled as an Option filled through &mut; its reuse across edits is C10",
     "texts shorter than 2^32 - 1 bytes, 64-bit usize, not Windows (cfg!(windows) = false)"],
   outside=["numbers_with_lines and split_lines (iterator chains; bounded stand-in)", "the text of error messages"],
   technique="Verus contracts on lines.rs, extracted on every run, with the round trip proved as a lemma over the contracts; replay harness executes the same contracts on the compiled file",
   note="round trip in UTF-8, UTF-16 and code points, clamping, rejection and panic freedom for all texts and positions"),
 "C10": dict(units=["lsp_utils", "lines"], harness="h_lines", level="proof",
   assumptions=["as for C09 (unit lines proves the contract of line_column_to_safe_byte that unit lsp_utils uses)", "String::replace_range and mem::take as stated on the bytes",
     "Cow::Borrowed is modelled as a copy of the index and OnceLock as an Option filled once",
     "the changes are ordinary: every intermediate text stays below 4 GiB and no change puts an LF right behind a lone CR (there the two breaks become one and the positions inside it are not specified)",
     "the column unit is the same for all changes of a request (the closure passed in)"],
   outside=["the request handler that obtains text and changes (zubanls), reached only through this function"],
   technique="Verus contracts on apply_document_changes (fold of single splices as specification, invariant on the reused line index) and on lines.rs, extracted on every run; replay harness executes the compiled files",
   note="for all texts, change lists and the three column units: the result is the sequential application, an Err iff one change cannot be placed; index reuse proved sound"),
 "C11": dict(units=["paths"], harness="h_vfs", level="proof", budget=20,
   assumptions=["Unix (cfg!(windows) is false)", "std::path: what Path::components yields, how PathBuf::push/pop/to_str act on clean component lists, and that the text of a clean or relative list is read back as that list (four axioms)",
     "str::find, rfind, strip_prefix, strip_suffix, eq_ignore_ascii_case and slicing behave as documented", "the newtypes around str and Arc<str> are transparent (transmutes)"],
   outside=["VfsHandler::join, absolute_path, parent_of_absolute_path, AbsPath::contains_sub_file and GlobAbsPath delegate to std or globset (bounded stand-in)", "symbolic links"],
   technique="Verus contracts on normalize, NormalizedPath::normalize, normalize_rc_path, path_relative_to, split_off_*, strip_separator_*, strip_path_prefix, match_case, extracted on every run; lemmas: normalising is idempotent and keeps what is denoted, a relative path joined back gives the path; replay harness on the compiled crate",
   note="for all paths; known finding: unchecked_abs_path loses the root"),
 "C12": dict(units=["invalidation"], harness="h_vfs", level="proof", budget=30,
   assumptions=["locks, OnceLock and InsertOnlyVec are read as what they hold (no poisoning, no concurrent access during a call: the functions take &mut self)",
     "Arc<FileEntry> is an index into one heap of entries, so that sharing (sub files) is kept", "FastHashSet and HashMap behave as finite sets and maps, iterated in any order",
     "a file's invalidate_references_to does what its implementor promises (trait contract)", "registered indexes name existing files",
     "Workspaces::ensure_file has, at the end of the path, the contract that is proved of Entries::ensure_file (the descent through directories is assumed)", "with_added_file is read as: append a state for the entry, give the entry its index, set the contents (no concurrent loader)",
     "distinct paths of the tree have distinct entries; the index of an entry names a file at that entry (kept by store_in_memory_file, assumed at its start)"],
   outside=["bounded stand-in only: invalidate_path except its collecting closure and matches_current_dir_entry, Entries::{unload_file, delete_directory}, ensure_file_for_*, load_panic_recovery, the file watcher",
     "close_in_memory_file, ensure_file: building a Gitignore, the .gitignore branches and Workspaces::unload_file are dropped by the extraction"],
   technique="Verus contracts on Invalidations, InvalidationDetail, InvalidationResult, FileState, Entries::{ensure_file, add_missing_entry_callback} and Vfs::{invalidate_files, invalidate_file_by_index, invalidate_and_unload_file, update_file, store_in_memory_file, close_in_memory_file, matches_current_dir_entry, the collecting closure of invalidate_path}, extracted on every run: the reached set is exactly the least set closed under registered dependents; replay harness drives the real Vfs over a scratch directory",
   note="exactly the transitive dependents are reached, for all graphs including cycles and shared entries; termination; everything iff a marked file is reached; set union and drain; a file that appears takes over who looked for it in vain; an event is dropped only if the contents are those on disk"),
 "C13": dict(units=["licensing"], harness="h_lic", level="proof",
   assumptions=["ed25519_dalek (from_bytes, verify_strict, sign, text form of signatures) and serde_json (reading a license, text of a level) as stated with uninterpreted functions; that signatures cannot be forged is cryptography, not proved",
     "to_string of an unsigned number gives its decimal digits (their injectivity is proved)", "SystemTime is not before the epoch (the code expects it)", "the ten built-in keys are valid keys (the stand-in checks them)"],
   outside=["hex_string_key_to_bytes (iterator chain; enumerated by the stand-in)", "create_license (environment variable, clock)"],
   technique="Verus contracts on verify_with_keys, verify, verify_license_in_path, to_bytes_message, sign and create with uninterpreted cryptography, and the lemma that changing one field changes the signed message; replay harness with real signatures",
   note="accepted iff signed by one of the keys and in the closed interval, for all licenses, key lists and times; known finding: moving text across a field boundary keeps the message"),
 "C14": dict(units=["already_seen"], harness="h_utils", level="proof", budget=10,
   assumptions=["the item type's == is an equivalence as its PartialEq contract says (obeys_eq_spec)"],
   outside=["Debug formatting of chains"]),
 "C15": dict(units=["point"], harness="h_point", level="proof", budget=15,
   assumptions=["mem::transmute of a u32 that is an existing discriminant of a #[repr(u32)] enum yields that variant (its precondition, that the discriminant exists, is proved)",
     "Cell<Point> behaves as a slot of the table: writes through &self are verified as &mut writes (single-threaded view; the `unsafe impl Sync` is outside)",
     "callers respect the documented preconditions (payload fits its bits, the accessor matches the stored kind), which the code itself debug_asserts"],
   outside=["Points::iter (an iterator adapter)", "Debug formatting", "the unsafe impl Sync for Points"],
   technique="Verus contracts on every constructor and accessor of Point and on the Points table, extracted from database.rs on every run; replay harness executes the same contracts",
   note="all constructors, accessors, modifiers and table operations proved for all 2^32 flag words and all table sizes"),
 "C16": dict(units=["semantic_tokens"], harness="h_sem", level="proof", budget=15,
   assumptions=["the two legend macros put their arguments into the legends in order, and the names listed are distinct LSP names (checked exhaustively on the compiled file by the stand-in)",
     "tokens are pushed in document order (the property's quantifier)"],
   outside=["ModifierSet::standard_fallback (dead code)", "the macro bodies"],
   technique="Verus contracts on SemanticTokensBuilder and ModifierSet with a decoder as specification, extracted from semantic_tokens.rs on every run; replay harness decodes the output of the compiled file",
   note="decode(push(tokens)) = tokens for all sequences of any length"),
 "C17": dict(units=["ranges"], harness="h_parse", level="proof", budget=20,
   assumptions=["the tree's nodes nest inside their parents on character boundaries, the root is a file node spanning the text and its descendants reach it in finitely many parent steps (properties C03 and C04, assumed here as contracts of the node methods start, end, parent, type_, as_code, previous_leaf and leaf_by_position)",
     "the cursor lies inside the text", "str::rfind, str::ends_with and slicing behave as documented", "nonterminals the function does not name are lumped into one variant"],
   outside=["Tree::initial_imports_end_code_index (not part of the property)", "the conversion of ranges to LSP positions (C09)"],
   technique="Verus contracts on SelectionRanges::next, Tree::selection_ranges and initial_node_for_selection_ranges with its two nested functions, extracted from ranges.rs on every run; replay harness parses real files and walks the ranges of every position",
   note="each call yields a strictly wider range around the cursor on boundaries, or ends exactly when the last range covers the file; recursion terminates"),
 "C24": dict(units=["ignores"], harness="h_parse", level="proof", budget=30,
   assumptions=["std's str functions (split, strip_prefix, strip_suffix, trim_start_matches, trim_end_matches, trim_ascii_end, find, ends_with, starts_with, slicing, format!) as stated on the bytes of the text",
     "the chain once/chain/flat_map of is_ignored is read as the concatenation of its pieces",
     "leaves are ordered with only blanks, comments, line breaks and joined lines between them (C01, C03); leaf_by_position and next_leaf as proved in C04",
     "the text is smaller than 4 GiB; an error starts at a token with text; error codes contain no blanks, commas, brackets or `#`"],
   outside=["is_ignored_and_return_non_covered_error_code lies in zuban_python, which cannot be compiled here: contract only, no stand-in",
     "that the tokens of the program are unchanged by the quick fix is decided by the bounded stand-in (the contract states where the text goes)", "unused-ignore reporting"],
   technique="Verus contracts on maybe_type_ignore, type_ignore_comment_for(_region), has_type_ignore_at_start, before_first_statement, is_ignored_and_return_non_covered_error_code, insertion_point_for_type_ignore and format_for_kind, extracted on every run, and the lemma that after the suggested change the error is ignored; replay harness reads every region and applies every fix",
   note="found comments equal what the text says for all texts and regions; fix_works: after the fix type_ignore_comment_for covers the code; known finding: `#` inside string literals"),
 "C25": dict(units=["numbers"], harness="h_parse", level="proof", budget=20,
   assumptions=["std's str functions (contains, replace by nothing, strip_prefix, starts_with, as_bytes().first(), slicing) as stated on the bytes of the text",
     "num_bigint: from_str_radix and parse yield the value of a non-empty text of digits of the base, and fail only on other texts",
     "a number token's text is a number literal of Python's grammar (the regular expression NUMBER; checked by the bounded stand-in)"],
   outside=["the regular expression NUMBER itself (a string interpreted by the regex crate): bounded stand-in", "values of floats and imaginary numbers (the checker does not read them)"],
   technique="Verus contracts on Int::parse_as_big_uint and UnpackedNumber::from_node, extracted on every run, against Python's lexical grammar of numbers as a specification on bytes; replay harness compares tokens, kinds and values with an independent reader",
   note="value and absence of panics for all integer literals of any length; the kind for all int, float and imaginary literals"),
 "C26": dict(units=["overrides"], harness="h_conf", level="proof", budget=15,
   assumptions=["std: split at a character, strip_suffix, slice::sort_by_key is stable and orders tuples and enum variants as declared",
     "vfs: a directory knows its name and the directory it is in, and the chain of directories ends (Directory::name, Parent::maybe_dir)",
     "the transmute in name_and_parent_dir only lengthens a lifetime"],
   outside=["reading override sections from ini and toml files, and applying a section to the flags (set_flag)", "maybe_affects_global_import_name (slice patterns)",
     "the stand-in compiles the items taken out of lib.rs and python_file.rs with a shim for directories: the crates cannot be built here"],
   technique="Verus contracts on OverridePath::{from, matches_file_path, priority}, order_overrides_for_priority and name_and_parent_dir, extracted on every run, against glob matching of dotted names as specification, with the lemma that of two well-structured patterns for a module the one with more names is the more specific; replay harness runs the compiled functions against an independent matcher",
   note="matching is exactly the glob relation for all patterns and modules; the order is the documented one for all lists"),
 "C27": dict(units=["directives"], harness="h_dir", level="proof", budget=15,
   assumptions=["std on the bytes of a str: trim (of an empty text empty, otherwise uninterpreted: both sides of the contract name the same function), split_once, strip_prefix, strip_suffix, contains, slicing, split at a newline and filter_map (each piece in order is given to the closure, which is verified)",
     "Issue::from_start_stop and Diagnostics::add record what they are given (a list that grows stands for the shared Diagnostics)",
     "a file is valid UTF-8 and shorter than 4 GiB"],
   outside=["what the settings do (set_flag), and info_from_directives, which hands each comment to the splitter", "the stand-in compiles the items taken out of python_file.rs with a shim for issues: the crate cannot be built here"],
   technique="Verus contracts on DirectiveSplitter::next, the closure split_name_value in it and Tree::mypy_inline_config_directives, extracted on every run, against a specification of the settings and faults of a text; replay harness runs the compiled functions against an independent reader",
   note="for all texts: what is delivered and reported is what the specification says; slices and arithmetic never fail"),
}
for p in PROPS.values():
    p.setdefault("level", "other")
    p.setdefault("budget", 30)
    p.setdefault("thorough_budget", 600)
NA = {
 "C18": "a property of whole edit histories of the type checker (zuban_python, about 200 kloc, not buildable here without its missing dependencies): relates two complete runs; no function contract within reach expresses it. Its foundations are claimed as C10, C12 and C15.",
 "C19": "termination and panic freedom of the whole inference engine: mutual recursion over hundreds of functions with interior mutability, trait objects and threads, outside any installed verifier's subset. The recursion guard it relies on is claimed as C14.",
 "C20": "needs a formal semantics of Python typing and of the reference checker as specification; none exists to state a contract against.",
 "C21": "schedules: Verus needs its own permission types for shared state and Kani has no threads, while the code uses RwLock, OnceLock, ArcSwap and rayon directly.",
 "C22": "a liveness and fault property of the server's message loop over channels, threads and panics, and the crate's dependencies are not available offline.",
 "C23": "the specification is the documentation of an external tool, and the parsers (ini, toml) are third-party crates behind trait-heavy code; no contract within reach decides it.",
}
for p in PROPS.values():
    p.setdefault("technique", "contracts on the real functions, bounded stand-in where the verifier does not reach")
    p.setdefault("note", "bounded stand-in only so far: the contract executed on the real code")
