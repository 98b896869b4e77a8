#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, registry.py, properties.jsonl, known_findings.txt, the
contract templates and seeded/*/meta.json (a documentation tool; no check reads its output)."""
import json, re, subprocess
from pathlib import Path
from registry import PROPS, NA
V = Path("/verif")
props = {json.loads(l)["id"]: json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()}

HEAD = """# Contract-based verification of zubanls/zuban

(Written by `mkdesign.py`; edit the prose there.)

## 1. What is decided, and how

27 properties are listed in `properties.jsonl`. 21 are claimed (C01–C17, C24–C27), 6 are listed as not applicable
(C18–C23, section 6). The claimed ones cover the parts of zuban whose guarantees are local enough to be
stated as contracts on real functions: tokenizer, parser and syntax tree, literal decoding, positions and
editor changes, the virtual file system (paths, invalidation), licensing, the recursion guard, the packed
analysis records, semantic tokens, selection ranges, ignore comments,
number literals, the matching of per-module settings and configuration comments. What the type checker infers (zuban_python,
about 200 kloc) is outside: see section 6.

A check (`python3 check.py Cnn [--tier thorough]`) does three things on every run, from /repo's current
working tree:

1. **Extraction** (`tools/vx`, section 3) takes the functions under contract out of /repo's source text and
   lays the contracts of `contracts/<unit>.rs` over them.
2. **Verus** (deductive, SMT, no bound on inputs or iterations) must accept every obligation of the unit. A
   second, *canary* run puts `assert(false)` first into every extracted function; each of them must be
   refuted, otherwise a precondition is contradictory and the proof is thrown away as vacuous.
3. **The replay harness** (`harness/`) executes the same contracts, written as executable oracles, against
   the compiled crates of /repo: exhaustively over small inputs, then with generated ones. It finds the
   failing input for a failed obligation, and it is the *bounded stand-in* for the functions that are not
   under contract. It is never counted as proof.

### How a check decides

| verifier | harness | outcome |
|---|---|---|
| all obligations discharged | no failing input | exit 0 |
| an obligation fails | failing input | exit 1, `VIOLATION … replay=out/Cnn.replay.json` with the input |
| an obligation fails | none (with doubled budget) | exit 1, `VIOLATION … no-failing-input-found`; the replay file names the obligation and carries the verifier's output |
| undecided: function renamed or reshaped so that extraction loses an anchor, text not in the verifier's dialect, resource limit, vacuity | failing input | exit 1 with the input |
| undecided | none (doubled budget) | exit 0; the evidence file says `undecided` for the unit, so the run is not counted as proved |
| undecided | does not build | exit 2, no answer |

An edit that keeps the behaviour but moves the code out of the verifier's reach (a helper extracted, a loop
rewritten into an iterator chain) thus ends in the third or fourth line and stays quiet. Contracts are stated on
observable behaviour, loops are named by their order and hints by the text next to them; when one of these is
gone, that is a lost anchor, not an alarm.

Findings listed as `known:` in `known_findings.txt` are matched by a regular expression on the failing input
*and* on what fails; anything else is reported. No `known:` entry concerns an obligation: where the code has a
known defect, the contract is stated with that case excluded (section 5).

## 2. Properties

"""

PROSE = {
"C01": """Unit `tokenizer`: every function of `PythonTokenizer` and `FStringNode`. The state invariant says that `index` is a
character boundary inside the text, that the indentation stack is strictly increasing, and what the f-string
stack may hold. Each function's contract says what part of the text it consumed and that this part is trivia
(a recursive predicate on bytes: blanks, comments up to the line end, continuations, line breaks) or the token
returned. Termination of the mutual recursion next → next_token → handle_fstring_stack → next is proved with
lexicographic measures (text left, f-strings open, blocks open, end marker still due). The theorem over a whole
stream (tokens in order, disjoint, trivia between, one end marker) is an induction over the contract of `next`.
Tests cannot reach this: they tokenize about 70 snippets.""",
"C02": """Same unit. The indentation of a line is a recursive function of the text (blank and comment-only lines do not
count, a continuation ends it). `next` and `dedent_if_necessary` are specified exactly: which token comes
out and how the stack of levels changes, as a function of that indentation; the balance of a whole stream is a
lemma (opens minus closes equals the stack height minus one; it is zero at the end marker). The harness compares
with an indentation model written independently.""",
"C03": """Unit `grammar`: the parser's stack machine (`Stack`, `apply_plan`, `apply_transition`, `end_of_node`,
`error_recovery`, `parse`) together with the backtracking tokenizer it drives. The invariant ties the node table, the
stack of open nodes (with their positions in the table, and the plans of the left recursions and alternatives still
open) and the remembered backtracking points to the tokens consumed so far: the leaves of the table are exactly those
tokens, once and in order, inner nodes start where the next node starts, and a rewound or re-used alternative leaves
the table as it was when the alternative was tried. `parse` ensures this for the finished table and the whole token
sequence. The automaton is an assumption (what the tables of plans may contain), as are panics and termination; the
harness parses texts with the compiled crates and audits lengths, sibling offsets and text reconstruction.""",
"C04": """Unit `navigation`: the methods are defined by the macros `__create_node!` and `create_grammar!`; vx reads the macro
bodies with the metavariables substituted. A table of nodes is related to a ghost sequence `e` of subtree ends
(predicate `wfe`): pre-order, nested, `next_node_offset` leads to the next sibling and is 0 for a last child.
Contracts: parent is the innermost enclosing node, children are exactly the nodes whose parent it is in order,
siblings and leaf steps are inverse, position lookup as in the property, text slices exact. That the parser only
builds such tables is C03.""",
"C05": """Unit `backtracking`: the tokenizer below is a ghost sequence; the invariant ties buffer, cursor and recording flag to
the number of tokens delivered. Each operation's contract states the cursor after it, so that any history is
covered by induction. Preconditions (rewind only to a live handle, start with the last token) are obligations of the
parser's functions in unit `grammar`.""",
"C06": """Unit `strings`. Python's decoding is a recursive specification on the bytes of the literal's content
(`strings_spec.inc`), written from the language reference, not from the code. `from_literal` returns exactly that,
the loop invariant relating what has been copied and what remains to be decoded; `new`/`union` concatenate in order.""",
"C07": """Unit `bytes`, the same with the bytes rules (octal modulo 256, no \\u, \\N).""",
"C08": """Unit `dedent`. The common indentation k is a recursive specification; the contract says each line loses exactly its
first k whitespace characters (blank lines at most whitespace). Idempotence is a lemma over the contract.""",
"C09": """Unit `lines`. Line starts, columns in three units and their inverses are specifications on bytes; the round trip is
a lemma over the contracts of `position_infos` and `line_column_to_byte`.""",
"C10": """Units `lsp_utils` and `lines`. The specification is a fold of single splices over the change list. The function itself
keeps an outdated line index while it is still good enough; the invariant says up to which line it agrees with the
index of the current text, which is what makes its reuse sound.""",
"C11": """Unit `paths`. A path is its list of components (std's `Components` as specification); normalising is a fold with `..`
as pop. Lemmas: idempotence, same denotation, relative path joined back.""",
"C12": """Unit `invalidation`. Entries live in a heap indexed by `EntryRef` (sharing between a file and its sub files is kept).
`reached` is the least set closed under registered dependents; `invalidate_files`/`invalidate_file_by_index` (mutually
recursive, draining as they go) are proved to call `invalidate_references_to` on exactly that set, to terminate on
cycles, and to report 'everything' exactly if a marked file is reached. The parts of the Vfs that talk to the
directory tree and the disk are driven by the bounded stand-in: random histories over a scratch directory against
a model of who depends on what.""",
"C13": """Unit `licensing`, with ed25519 and serde_json as uninterpreted functions. Accepted iff signed under one of the keys and
inside the closed interval; changing one field changes the signed message (lemma, with decimal digits injective).""",
"C14": """Unit `already_seen`: the chain is a recursive ghost sequence; cycle iff the newest item occurs further up.""",
"C15": """Unit `point`: bit-vector proofs for the constructors and accessors, sequence contracts for the table.""",
"C16": """Unit `semantic_tokens`: a decoder is the specification; the builder's invariant is decode(data) = tokens pushed.""",
"C17": """Unit `ranges`: the tree below is used through the contracts of the node methods that unit `navigation` proves.""",
"C25": """Unit `numbers`: Python's lexical grammar of numbers as predicates on bytes (`is_int`, `is_float`, `is_imag`) and `int_value` as a
fold over the digits. `parse_as_big_uint` reaches neither `unreachable!` nor a failing `unwrap` and yields `int_value`; lemmas on
which characters occur in which form decide `from_node`.""",
"C26": """Unit `overrides`: `globs(pattern, module)` is a recursive specification; the two mutually recursive functions that walk up the
directories are proved to compute it (and to terminate). `from` is proved to split at dots and to classify; `priority` and the
stable sort give the documented order, and `more_specific` shows that the number of names is the right measure of specificity.""",
"C27": """Unit `directives`: `settings(text)` and `faults(place, text)` are recursive specifications; `next` is proved to take off their
head, so that the iterator delivers and reports all of them, and never slices outside of a text or inside a character. `comments_are`
shows that what `mypy_inline_config_directives` gives is at the place it says, which is what `next` requires.""",
"C24": """Unit `ignores`. `says(text, at)` is the list of ignore comments of a text as a recursive specification on bytes: split at line
breaks, then at `#`, then `said` per comment. Lemmas give it meaning independent of the splitting (`says_has`, `says_only`: a
comment is in the list iff it stands between a `#` and the next `#` or line break; `says_at`: its codes are where stated).
The readers are proved to return exactly that list (merged); `insertion_point_for_type_ignore` returns a `place`, and
`fix_works` proves from both contracts that the text after the change is read as covering the code.""",
}

MID_EXTRACT = """
## 3. The extractor (tools/vx)

`vx REPO TEMPLATE OUT` parses the source files with `syn`, finds the named functions (also nested functions, trait
methods and functions inside `macro_rules!` bodies with metavariables substituted), normalises them, and prints them
with the contract's clauses inserted. It works on syntax trees, so formatting, comments and attributes do not matter.
What is verified is the extracted text; every rule below is a place where it could differ from what runs.

**Generic normalisation** (the same for all units; intended to preserve meaning):
`let … else`, `if let` chains, `matches!`, `assert!/debug_assert!` (become proof obligations), `?`, `&x` sub-patterns, `|=`-style
operators where the verifier lacks them, `for` loops over ranges, vectors and iterators (become `loop` with an explicit
iterator value; the iterator's contract is stated in the template), `x.iter().map(|p| b).collect()`, `Option::map/and_then/
is_some_and/unwrap_or_else/then/…` with closures that do not return (become `match`), `partition_point(|p| b)` (linear search with
the same result on a partitioned slice), `cfg!(windows)` = false, constants folded, shadowed names kept apart.
Unfolding is syntactic and refuses (exit 3, lost anchor) what it cannot do.

**Dropped**: attributes, doc comments, visibility, `unsafe` markers, `tracing::…!` calls and message texts of panics
(the panic itself is an obligation: unreachable), generic bounds the verifier has no use for, `Debug` implementations.

**Unit rules** (`//@rw PATTERN ==> REPLACEMENT`, `//@tyrw`): calls into std or other crates are redirected to `vx_…` functions
with a contract in the template (`external_body`, i.e. assumed). They are the assumptions listed per property; the evidence
file lists every assumed item that occurs in the generated file (`trusted_base`), collected from its text.

Mutation through `&self` (Cell, RwLock, OnceLock) is verified as mutation through `&mut self`: sequential view.

## 4. Trusted base

Verus 0.2026.09.13 with its Z3; rustc; `vx`; the contracts assumed for std, regex, ed25519_dalek and serde_json; UTF-8
facts about `str`; 64-bit `usize`; Linux. Machine arithmetic is *not* idealised: overflow of every `+ - * as` is an obligation.
Stack depth is not modelled by the verifier (deep recursion of the tokenizer was found and repaired through the harness).

Cost: one check takes 15–60 s (quick; half of it the harness's time budget), setup about 50 s for the first build of
harness and extractor. Thorough runs give the harness 600 s and the verifier four times the resource limit.

"""

OBS = """
## 5.1 Observed, not claimed as violations

Things read in the code that touch no listed property, or only a case the property leaves open: `is_case_sensitive()` is
`cfg!(windows)` (inverted); `path.rs` transmutes an `Rc`-like pointer; `Tree::delete_directory("a/b")` with `a` unloaded removes
`a`; `Node`'s `Debug` slices `code[..40]`; `!stack.stack_nodes.len() != i + 1` in grammar.rs negates bitwise; f-strings with a
space before the format specifier; `SystemTime` before the epoch panics (`expect`); `create_license` overflows for absurd day
counts; the Vfs has `unimplemented!` when a directory that contains an open file is replaced by a file; a dependency on a missing
entry whose path is an existing directory is only logged; `store_in_memory_file` marks a file as invalidating everything when a
*dependent* did (over-approximation); joining a lone CR with a following LF by an edit makes positions inside the CRLF
unspecified; `from_literal` on a literal ending in a lone backslash (which the tokenizer does not produce) would repeat text;
`SearchIterator` with `avoid_found_subtrees` reaches `unreachable!()` on the call after it found the root itself.

"""
out = [HEAD]
for pid, p in props.items():
    if pid in NA:
        continue
    P = PROPS[pid]
    out.append(f"### {pid} — {p['title']}\n\n{p['statement']}\n\n")
    out.append(f"*Decided by*: {P['technique']}. Level: **{P['level']}**. {P['note'].capitalize()}.\n\n")
    if pid in PROSE:
        out.append(PROSE[pid].strip() + "\n\n")
    fns = []
    for u in P["units"]:
        r = subprocess.run([V / "tools/vx/target/debug/vx", "/repo", V / f"contracts/{u}.rs", "/tmp/mkdesign.rs"], capture_output=True, text=True)
        f = [l[3:] for l in r.stdout.splitlines() if l.startswith("FN ")]
        fns.append(f"`{u}` ({len(f)}): " + ", ".join(x.replace(":Iterator", "").replace(":Tokenizer", "") for x in f))
    if fns:
        out.append("Functions under contract: " + "; ".join(fns) + ".\n\n")
    if P.get("assumptions"):
        out.append("Assumed:\n" + "".join(f"- {a}\n" for a in P["assumptions"]) + "\n")
    if P.get("outside"):
        out.append("Not under contract:\n" + "".join(f"- {a}\n" for a in P["outside"]) + "\n")
    out.append(f"Stand-in and replay: `harness/{P['harness']}`, {P['budget']} s (quick) / {P['thorough_budget']} s (thorough) per process, bounded.\n\n")
out.append(MID_EXTRACT)
out.append("## 5. Defects found\n\nRepaired in /repo (one `fix:` commit each; the checks report them again if they return):\n\n| property | commit | what failed |\n|---|---|---|\n")
for l in (V / "known_findings.txt").read_text().splitlines():
    x = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if x:
        w = x.group(3).replace("|", "\\|")
        out.append(f"| {x.group(1)} | {x.group(2)} | {w} |\n")
out.append("\nRecorded, not repaired (`KNOWN-FINDING` lines):\n\n")
for l in (V / "known_findings.txt").read_text().splitlines():
    x = re.match(r"known: property=(\S+) match=/.*/ (.*)", l)
    if x:
        out.append(f"- {x.group(1)}: {x.group(2)}\n")
out.append(OBS)
out.append("## 6. Not applicable\n\n")
for k, v in NA.items():
    out.append(f"- **{k}** ({props[k]['title']}): {v}\n")
out.append("\n## 7. Planted bugs\n\nEach lies in `seeded/<id>/` (patch, demonstration, description); each was confirmed to compile, to pass the 172 stable tests and to fail its demonstration.\n\n| id | property | needs | breaks | caught |\n|---|---|---|---|---|\n")
caught = json.loads((V / "seeded_results.json").read_text()) if (V / "seeded_results.json").exists() else {}
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    esc = lambda s: s.replace("|", "\\|")
    out.append(f"| {d.name} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} | {esc(caught.get(d.name, '?'))} |\n")
(V / "DESIGN.md").write_text("".join(out))
