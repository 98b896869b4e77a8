#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
T="crates/parsa_python/src/tokenizer.rs"
p("C01","Tokens cover the source in order, in bounds, with only trivia between them",
 "For every source text, tokenizing terminates and yields tokens that appear in source order, never overlap, and start and end on character boundaries inside the text. Between two consecutive tokens there is nothing but whitespace, comments, backslash line continuations and line breaks. The stream ends with exactly one end marker, of length zero, at the end of the text.",
 ["inputs"],"all source texts (any valid UTF-8), including malformed Python",
 "About 70 fixed snippets are tokenized by the unit tests; arbitrary mixes of f-strings, continuations, comments, multi-byte characters and dedents are not.",
 [T],[("token construction",T+": new_tok"),("whitespace skipping",T+": skip_whitespace"),("token recognition",T+": Iterator::next"),("f-string state machine",T+": handle_fstring_stack, end_f_string, maybe_fstring_string")],
 [("index","how much of the text was consumed; always a character boundary",T)],["the tokens yielded for a source text, seen through the tree's leaves or the token iterator"])
p("C02","Indentation tokens are balanced and follow Python's block rule",
 "For every source text, block-opening and block-closing tokens nest: a block opens only when a logical line is indented deeper than the enclosing block, every close ends the innermost open block, and all blocks are closed before the end marker. Blank lines, comment-only lines and lines inside brackets never open or close a block. A line whose indentation lies strictly between two open levels is reported as an inconsistent dedent and becomes the new level.",
 ["inputs"],"all source texts","Unit tests have a dozen fixed indentation snippets; the rule must hold for every sequence of line indentations, bracket nesting and continuation lines.",
 [T],[("indentation stack",T+": dedent_if_necessary, Iterator::next"),("indentation measurement",T+": skip_whitespace"),("recovery at break keywords",T+": encountered_break_token")],
 [("indent_stack","indentation widths of the open blocks, strictly increasing from 0",T)],["Indent/Dedent/ErrorDedent tokens of a source text"])
p("C03","Parsing any text yields a complete, lossless, properly nested tree",
 "For every text, parsing returns a tree without panicking, and concatenating the tree's leaves in order, each with the text between it and the previous leaf, gives back the text (with the final line break parsing adds). Every token of the text becomes exactly one leaf, so between leaves there is only whitespace, comments, continuations and line breaks. Every inner node has at least one child, its children are ordered and disjoint, it starts where its first child starts and ends where its last child ends. The root spans the whole text.",
 ["inputs","programs"],"all source texts, valid or not","Snapshot tests parse fixed files; error recovery must keep the tree well formed for every malformed input.",
 ["crates/parsa/src/grammar.rs","crates/parsa_python/src/lib.rs","crates/parsa/src/lib.rs"],
 [("stack automaton and error recovery","crates/parsa/src/grammar.rs: Grammar::parse, error_recovery, apply_plan"),("offset fix-up","crates/parsa/src/grammar.rs: update_tree_node_position, Stack::calculate_previous_next_node, Stack::pop_normal"),("missing final newline","crates/parsa_python/src/lib.rs: parse")],
 [("tree_nodes","pre-order node table with sibling offsets","crates/parsa/src/grammar.rs")],["the tree returned by the public parse entry points"])
p("C04","Tree navigation is mutually consistent",
 "For every parse tree and node: children, parent, next/previous sibling, next/previous leaf and last leaf agree with one another (a node is the parent of exactly its children, siblings are inverse steps, leaf steps visit every leaf once in source order). Looking a leaf up by text position returns the last leaf starting at or before that position, or the one after it when that leaf ends before the position. A node's text, start, end, length and the text before it are exactly the corresponding slices of the source.",
 ["inputs","programs"],"all trees and all nodes and positions in them","The tests exercise navigation indirectly on a few trees; each navigation function walks offsets and must be right for every shape of tree.",
 ["crates/parsa/src/lib.rs"],[("node navigation","crates/parsa/src/lib.rs: __create_node! Node methods"),("sibling and search iterators","crates/parsa/src/lib.rs: SiblingIterator, SearchIterator"),("position lookup","crates/parsa/src/lib.rs: leaf_by_position")],
 [("next_node_offset","distance in the pre-order table to the next sibling","crates/parsa/src/grammar.rs")],["public node methods"])
p("C05","Speculative parsing never loses, repeats or reorders tokens",
 "Whatever sequence of starting speculation, reading, rewinding and committing the parser performs, the tokens it receives after a rewind to a remembered point are the same tokens in the same order as the first time, and once everything recorded has been replayed it continues with the next unread token. Nothing is dropped or delivered twice outside the region that was rewound.",
 ["histories","inputs"],"all token streams and all histories of start/next/reset/stop/reset-to-leaf","No unit test drives the backtracking buffer directly; grammar tests reach only the histories their inputs cause.",
 ["crates/parsa/src/backtracking.rs"],[("token buffer","crates/parsa/src/backtracking.rs: BacktrackingTokenizer start/reset/stop/reset_to_last_leaf/next")],
 [("tokens,next_index,is_recording","recorded lookahead window, replay cursor, recording flag","crates/parsa/src/backtracking.rs")],["sequence of tokens returned"])
S="crates/parsa_python_cst/src/strings.rs"
p("C06","String literals decode to the value Python gives them",
 "For every string literal token the parser accepts, decoding never panics and yields the value CPython would compute: prefixes and single or triple quotes stripped, escapes (octal, \\x, \\u, \\U, named control escapes, escaped quotes/backslash/line breaks) replaced, unknown escapes kept, carriage returns normalised, raw literals left unescaped, adjacent literals concatenated in order. Malformed escapes and \\N names may be kept as text, but never swallow neighbouring characters.",
 ["inputs"],"all string literal tokens and all sequences of adjacent literals","Three unit tests; every escape, at every offset, next to every other character, including multi-byte ones, has to be right.",
 [S],[("escape decoding",S+": PythonString::from_literal"),("hex and octal",S+": parse_hex, parse_python_octal"),("prefix/quote stripping",S+": unpack_string_or_bytes_content"),("concatenation",S+": PythonString::union, new")],(),["decoded value and its start offset"])
p("C07","Bytes literals decode to the value Python gives them",
 "For every bytes literal token the parser accepts, decoding never panics and yields the bytes CPython would compute: prefix and quotes stripped, octal (modulo 256), \\x and control escapes replaced, escaped line breaks removed, \\u/\\U/\\N and unknown escapes kept as they are, raw literals unescaped, line endings normalised as in source text. A malformed \\x escape never swallows neighbouring characters or crashes.",
 ["inputs"],"all bytes literal tokens","No unit test exercises the bytes decoder directly.",
 ["crates/parsa_python_cst/src/bytes.rs",S],[("bytes decoding","crates/parsa_python_cst/src/bytes.rs: parse_python_bytes_literal"),("hex and octal",S+": parse_hex, parse_python_octal"),("prefix/quote stripping",S+": unpack_string_or_bytes_content")],(),["decoded bytes"])
p("C08","Dedenting removes exactly the common indentation and nothing else",
 "For every text, dedenting never panics, keeps the number of lines, removes the same number of leading whitespace characters from every line that has content (the largest number common to all of them), and changes no other character of those lines; lines of whitespace only may lose whitespace and nothing else. Dedenting twice gives the same result as once. Cleaned docstrings additionally lose only whitespace at the two ends.",
 ["inputs"],"all texts, including multi-byte whitespace and CRLF","Only used with ASCII fixtures in tests.",
 ["crates/utils/src/lib.rs",S],[("dedent","crates/utils/src/lib.rs: dedent, dedent_cow"),("docstring trimming",S+": Strings::clean_docstring, trim_string_in_place")],(),["returned text"])
L="crates/zuban_python/src/lines.rs"
p("C09","Byte offsets and line/column positions convert exactly and inversely",
 "For every text and every character-boundary byte offset (other than the one inside a CRLF pair), the reported line and its UTF-8, UTF-16 and code-point columns convert back to the same offset, and lines break exactly at LF, CRLF or a lone CR. Converting a client position never panics: it yields the unique matching offset, clamps a column beyond the line end to the line end and flags it, and rejects lines that do not exist and columns inside a character.",
 ["inputs"],"all texts, positions and column encodings","Four unit tests with ASCII or a-umlaut; astral characters, CR-only breaks and end-of-line columns are not reached, and this crate's tests cannot be built here.",
 [L],[("line index",L+": NewlineIndices::lines, position_infos"),("position to offset",L+": line_column_to_byte, line_column_to_safe_byte, utf16_to_utf8_byte_offset"),("line expansion",L+": expand_range_to_full_lines, numbers_with_lines")],(),["public position conversions"])
p("C10","Applying a batch of editor changes equals applying them one after another",
 "For every document and every list of changes a client may send, the resulting text is the one obtained by applying each change in turn to the then-current text, a change without a range replacing the whole document. Text outside each changed range is preserved byte for byte. A change with an invalid position is rejected and no panic occurs; changes before a full replacement have no effect and need not be valid.",
 ["inputs","histories"],"all documents and all sequences of changes, in any order of ranges","Unit tests have five short sequences; the shortcut that reuses a stale line index must be right for every order of ranges.",
 ["crates/zuban_python/src/lsp_utils.rs",L],[("change application","crates/zuban_python/src/lsp_utils.rs: apply_document_changes"),("line index reuse","crates/zuban_python/src/lsp_utils.rs: index_valid")],(),["resulting text"])
V="crates/vfs/src/"
p("C11","Lexical path operations preserve what a path denotes",
 "Normalising a path is idempotent, removes empty, '.' and resolvable '..' components and duplicate or trailing separators, and never changes which file an (unlinked) path denotes. Splitting off the first or last component and joining again gives back the path, stripping a workspace prefix succeeds exactly when the path lies inside it on a component boundary, and a path relative to a directory joined back onto it gives the path.",
 ["inputs"],"all path strings and all prefixes","A few fixed paths are tested; component-boundary and separator corner cases are open.",
 [V+"lib.rs",V+"normalized_path.rs",V+"workspaces.rs",V+"path.rs"],[("normalisation",V+"normalized_path.rs: normalize"),("split/strip/join",V+"lib.rs: VfsHandler default methods"),("workspace prefix",V+"workspaces.rs: strip_path_prefix, strip_short_path_in_workspace")],(),["public path functions"])
p("C12","A changed file invalidates its transitive dependents and nothing else",
 "When a file or a missing path changes, appears or disappears, on disk or in an open editor, every loaded file that (transitively) registered a dependency on it is invalidated, no file that does not depend on it is, and cycles of dependencies end. The whole database is invalidated if and only if a file marked as doing so is reached. Dependencies registered later are not lost, and a changed file never keeps serving its old contents. Merging, adding and taking invalidation sets behaves like set union and drain, and 'everything' absorbs all else.",
 ["histories"],"all histories of registrations, invalidations and merges","Tests run short scripted edits; order and duplication of registrations vary without bound.",
 [V+"tree.rs",V+"vfs.rs"],[("invalidation sets",V+"tree.rs: Invalidations add/extend/take/iter"),("propagation",V+"vfs.rs: invalidate_files, invalidate_file_by_index"),("result merging",V+"vfs.rs: InvalidationResult BitOrAssign")],(),["set of file indices to re-check"])
p("C13","A license is accepted exactly when signed, well formed and currently valid",
 "A license is accepted if and only if its signature verifies, under one of the trusted keys, for exactly the fields it carries, and the current time lies in its closed validity interval. Changing any single field, the signature or the time to outside the interval makes it rejected, and malformed input is reported as an error, never a panic.",
 ["inputs","configurations"],"all licenses, keys and times","Unit tests try a few dates and one broken signature.",
 ["crates/licensing/src/lib.rs"],[("verification","crates/licensing/src/lib.rs: License::verify_with_keys, is_valid"),("signed message","crates/licensing/src/lib.rs: to_bytes_message"),("key parsing","crates/licensing/src/lib.rs: hex_string_key_to_bytes")],(),["accept/reject"])
p("C14","The recursion guard reports a cycle exactly when the item is on the chain",
 "For every chain of nested work items, the guard reports a cycle if and only if the newest item equals one of its ancestors; extending a chain never alters the existing one, and enumerating ancestors yields each exactly once from newest to oldest.",
 ["inputs","histories"],"all chains","No direct test.",
 ["crates/utils/src/lib.rs"],[("guard","crates/utils/src/lib.rs: AlreadySeen::is_cycle, append, new, iter_ancestors, AlreadySeenIterator::next")],(),["is_cycle result, ancestor order"])
D="crates/zuban_python/src/database.rs"
p("C15","Packed per-node analysis results read back exactly what was stored",
 "For every combination of kind, locality, flags and payload that can be stored for a syntax node, reading the packed record returns exactly the stored fields, changing one field leaves all others unchanged (flags set one after another accumulate), and records of different kinds or in different calculation states are never confused. A node that was never written reads as not calculated. In the table of records, writing one node leaves all others as they are, restoring a backup gives back exactly the saved range, and invalidating references to a file drops every record that points into that file or whose locality says it may hold foreign data, and no other.",
 ["inputs","histories"],"all field values and all sequences of updates","No unit test covers the bit layout; the crate cannot be built here at all.",
 [D],[("bit layout",D+": Point constructors and accessors"),("point storage",D+": Points get/set")],(),["values returned by the accessors"])
p("C16","Semantic-token deltas decode to the tokens that were reported",
 "For every sequence of tokens reported in document order, decoding the relative positions the server sends gives back exactly the absolute line, column, length, type and modifiers of each token, in order. Modifier sets contain exactly the modifiers that were added, and every token type and modifier has its own position in the legend the client is given.",
 ["inputs"],"all position-ordered token sequences","No test reaches the encoder in isolation; the crate cannot be built here.",
 ["crates/zubanls/src/semantic_tokens.rs"],[("delta encoder","crates/zubanls/src/semantic_tokens.rs: SemanticTokensBuilder::push, build"),("modifier bits","crates/zubanls/src/semantic_tokens.rs: ModifierSet")],(),["encoded token list"])
p("C17","Selection ranges strictly grow around the cursor up to the whole file",
 "For every file and every cursor position, the offered selection ranges all contain the cursor (or touch it), each is strictly contained in the next, every range starts and ends on character boundaries inside the file, and the last one covers all statements of the file. Computing them never panics.",
 ["inputs","programs"],"all texts and cursor positions","Snapshot tests at a few positions.",
 ["crates/parsa_python_cst/src/ranges.rs"],[("range iteration","crates/parsa_python_cst/src/ranges.rs: selection_ranges")],(),["returned ranges"])
p("C24","Ignore comments suppress exactly what they say, and the suggested one works",
 "For every text and every region of it, the ignore comment found is exactly what the text says: a comment `# type: ignore` or `# zuban: ignore` on a line of the region (blanks in between allowed) suppresses everything, one with `[codes]` suppresses those codes and is found with their exact place, several comments combine, and nothing else counts as one. A comment before the first statement applies to the file. An error is suppressed if and only if everything is, or its code or the group it belongs to is listed. The quick fix inserts its text on the line of the error, behind a token and never where a string goes on; afterwards the error is suppressed, and the tokens of a program without syntax errors are unchanged. It is offered unless everything is ignored already, the line is joined with the next one, or a string goes on there.",
 ["inputs","programs"],"all texts, regions and positions of errors","Fixtures with a few comments; blanks, tabs, several comments, f-strings and joined lines vary without bound.",
 ["crates/parsa_python_cst/src/lib.rs","crates/parsa_python_cst/src/code_actions.rs","crates/zuban_python/src/diagnostics.rs"],[("reading comments","crates/parsa_python_cst/src/lib.rs: maybe_type_ignore, Tree::type_ignore_comment_for, type_ignore_comment_for_region, has_type_ignore_at_start, before_first_statement"),("suppression","crates/zuban_python/src/diagnostics.rs: Diagnostics::is_ignored_and_return_non_covered_error_code"),("quick fix","crates/parsa_python_cst/src/code_actions.rs: insertion_point_for_type_ignore, format_for_kind")],(),["comment found, diagnostics suppressed, text after the quick fix"])
p("C25","Number literals have the kind and the value Python gives them",
 "For every text, a number token is the longest number literal of Python's grammar at its place (decimal, hexadecimal, octal and binary integers, floats and imaginary numbers, with underscores between digits). It is taken for an int, a float or a complex number exactly as its form says, and reading an integer literal of any size yields the integer it denotes and never panics.",
 ["inputs"],"all number literals of any length","A handful of literals occur in fixtures.",
 ["crates/parsa_python_cst/src/lib.rs","crates/parsa_python/src/tokenizer.rs"],[("integer value","crates/parsa_python_cst/src/lib.rs: Int::parse_as_big_uint"),("kind of number","crates/parsa_python_cst/src/lib.rs: UnpackedNumber::from_node"),("number tokens","crates/parsa_python/src/tokenizer.rs: NUMBER")],(),["kind and value of literals"])
p("C26","Per-module settings apply to exactly the modules their pattern names, the more specific ones last",
 "For every list of override sections and every module, the sections that apply are exactly those whose pattern matches the module's dotted name, where a name stands for itself and a star for any number of names (for at least one at the beginning). They take effect in the documented order, each overwriting the ones before: well-structured patterns (`foo.bar.*`) from the more general to the more specific, then patterns with a name behind a star (`foo.*.baz`), then plain module names, and otherwise in the order of the file. A file is the module of its name without extension, an `__init__` file the package of its directory.",
 ["configurations","inputs"],"all lists of patterns and all modules","A few patterns in fixtures; the crate cannot be built here.",
 ["crates/config/src/lib.rs","crates/zuban_python/src/file/python_file.rs"],[("patterns","crates/config/src/lib.rs: OverridePath::from, OverridePath::matches_file_path"),("precedence","crates/config/src/lib.rs: order_overrides_for_priority"),("module of a file","crates/zuban_python/src/file/python_file.rs: name_and_parent_dir")],(),["which settings a module gets"])
p("C27","Configuration comments are read as written, and no text in one crashes the checker",
 "For every file, the configuration comments are the lines that begin with `# mypy: `. Each is read as the settings between commas that are outside quotation marks, in order: the name before the first equals sign and the value behind it, without surrounding blanks, and where the setting has quotation marks, without those around its value; an empty last setting is ignored. No text makes this crash. An unterminated quotation mark, text outside the quotation marks of a value, and quotation marks in a name are reported, and nothing else is; each report covers the text of that setting in the file, a range of whole characters.",
 ["inputs","configurations"],"all texts","Four comments in fixtures; the crate cannot be built here.",
 ["crates/zuban_python/src/file/python_file.rs","crates/parsa_python_cst/src/lib.rs"],[("splitting","crates/zuban_python/src/file/python_file.rs: DirectiveSplitter::next"),("finding","crates/parsa_python_cst/src/lib.rs: Tree::mypy_inline_config_directives")],(),["what a configuration comment says"])
# not claimed
p("C18","Incremental re-checking reports the same diagnostics as a fresh check",
 "After any history of edits, file creations and deletions, the diagnostics reported for the workspace equal those of a freshly started checker on the same final contents.",
 ["histories"],"all edit histories","Only scripted histories in the blackbox tests.",
 ["crates/zuban_python/src/database.rs","crates/vfs/src/vfs.rs"],[("invalidation and reload","crates/zuban_python/src/database.rs")])
p("C19","Type checking terminates and never crashes on any program",
 "For every set of Python files the checker terminates with a list of diagnostics; it neither panics nor overflows its stack.",
 ["programs"],"all programs","Mypy's test-suite only.",["crates/zuban_python/src"],[("recursion guards","crates/zuban_python/src")])
p("C20","Accepted programs raise no type errors at run time that mypy would catch",
 "A program reported clean has no type error that the reference checker reports in the selected mode.",
 ["programs"],"all programs","Finite conformance suite.",["crates/zuban_python/src"],[("type relations","crates/zuban_python/src/matching")])
p("C21","Concurrent checking gives the same result as sequential checking",
 "Diagnostics and inferred types do not depend on how files are scheduled over threads, and no data race or deadlock occurs.",
 ["schedules"],"all schedules","Tests run whatever schedule the machine gives.",["crates/vfs/src/tree.rs","crates/utils/src/lib.rs","crates/zuban_python/src"],[("locks and atomics","crates/vfs/src/tree.rs, crates/utils/src/lib.rs")])
p("C22","The language server answers every request once and survives a panic in analysis",
 "Every request receives exactly one response in a valid state, document state reflects all notifications received before the request, and a panic during analysis is answered with an error and leaves a consistent state.",
 ["histories","fault_sequences"],"all message histories and panic points","A few scripted sessions.",["crates/zubanls/src/server.rs"],[("main loop","crates/zubanls/src/server.rs")])
p("C23","Configuration files are interpreted the same way as by the reference tool",
 "Every option in mypy.ini, setup.cfg or pyproject.toml has the documented effect, per-module overrides apply to exactly the matching modules, and malformed files are reported, not ignored.",
 ["configurations"],"all configuration files","Some dozens of fixtures.",["crates/config/src"],[("config parser","crates/config/src/lib.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
