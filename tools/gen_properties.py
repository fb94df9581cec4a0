#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
GEN = ["src/common.rs", "src/macros.rs", "src/types.rs"]
ALL = ["src/lib.rs", "src/common.rs", "src/macros.rs", "src/whitespace.rs", "src/term.rs", "src/literal.rs",
       "src/types.rs", "src/argument.rs", "src/attribute.rs", "src/dictionary.rs", "src/interface.rs",
       "src/mixin.rs", "src/namespace.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PUREMECH = ("every parser is a plain function of the &str it is given; the crate has no statics, thread-locals, locks, caches or I/O",
            "src/lib.rs parse, trait Parse; src/macros.rs parser!, __ast_struct!, __ast_enum!, __ast_tuple_struct!")

p("C01", "Concurrent parses do not interfere",
  "When several threads parse at the same time, each call, through the top-level function or through any construct's own entry point, ends exactly as the same call on the same text ends when nothing else is running: the same tree, the same unconsumed remainder, the same error or the same panic. This holds for every interleaving, for equal, similar and unrelated texts, and from the very first parse in the process.",
  ["schedules", "inputs"], "every interleaving (down to single memory accesses) of any number of threads, each making any sequence of parse calls",
  "The tests each parse one text on one thread and look at a few fields; they never compare a concurrent result with an isolated one and the OS scheduler picks the interleavings.",
  ALL, [PUREMECH], ["outcome of parse() and of <T as Parse>::parse on each simulated thread"])
p("C02", "The outcome does not depend on what was parsed before",
  "The outcome of parsing a text is the same whether it is the first parse of the process or follows any history of earlier parses: successful, rejected, panicked, cut short by a failed allocation or a failing component, or abandoned half-way, on the same thread or on others, few or very many. Reusing the memory of an old text for a new one, or parsing the same text again, changes nothing.",
  ["histories", "crash_points", "inputs"], "every finite history of parse calls, including ones that unwound or never finished, and every placement of text buffers in reused memory",
  "The tests are single parses with hand-picked text, at most a few per process; none repeats a parse after a failed, panicked or abandoned one, none reuses a buffer, and none runs a long history.",
  ALL, [PUREMECH], ["outcome of each parse call in a history, against the same call made first in a fresh process"])
p("C03", "A stalled or dead parse never holds up another",
  "If a thread is suspended for good, or unwinds, at any point inside a parse, every other thread's parses still run to completion with their usual outcomes. They never wait for the stalled thread, and each needs only a bounded multiple of the work it needs when it runs alone.",
  ["schedules", "crash_points", "fault_sequences"], "every choice of stalled or dying threads and of the instants (down to single memory accesses) at which they stop",
  "No test suspends a thread inside a parse; under the OS scheduler a lock that is held too long only costs time and goes unseen.",
  ALL, [PUREMECH], ["completion and step count of the surviving threads' parse calls"])
p("C04", "A parsed tree is a stable snapshot that threads can share",
  "A returned tree refers only to the text it was parsed from and keeps the same contents for as long as the caller holds it, whatever other parses start, finish, fail or are abandoned and whichever other texts and trees are freed. It can be sent to and shared between threads, and printing, hashing, comparing and cloning it concurrently gives the same answers as doing so alone.",
  ["schedules", "histories"], "every interleaving of reads, clones, comparisons and drops of trees with other parses and with the release of other texts",
  "The tests look at a tree once, right after the parse, on the thread that made it, with no other parse or release in between.",
  ALL, [("AST types are plain values borrowing from the input, with derived Clone, Debug, Eq, Ord and Hash", "src/macros.rs __ast_struct!, __ast_enum!, __ast_tuple_struct!"),
        ("leaf values are slices of the input", "src/common.rs Identifier; src/literal.rs DecLit, HexLit, OctLit, StringLit, FloatValueLit")],
  ["Debug, Hash, PartialEq, Ord, Clone of the returned values; addresses of the text they hold"])
p("C05", "Parses leave no memory behind",
  "Once the caller has dropped what a parse returned, all memory obtained by that parse has been released, also when the text was rejected, when the parse panicked, and when a failing allocation or component cut it short. The live memory of a process therefore does not grow with the number or the contents of the parses it has made.",
  ["histories", "fault_sequences", "inputs"], "every history of parses, outcomes and faults, on any threads, with ever new names in the texts",
  "The tests do not measure memory, and a leak on an error or unwinding path passes every assertion.",
  ALL, [("ownership: partial results are held in local Vec/Box/struct values and dropped on early return or unwinding", "src/macros.rs __ast_struct! @build_parser; src/common.rs impl Parse for Vec, Box, Option, tuples, Punctuated")],
  ["live bytes and blocks of the global allocator"])
p("C06", "A failed allocation never produces a wrong result",
  "If any memory allocation fails during a parse, the call either does not return normally (it aborts or unwinds) or returns exactly the outcome it has without the failure; it never returns a truncated or altered tree, another remainder or another error. Once memory is available again, parsing the same text gives the usual outcome.",
  ["fault_sequences", "crash_points", "inputs"], "every allocation of every parse failing once, from some point on, or above some size, and any retry afterwards",
  "No test makes an allocation fail.",
  ["src/common.rs", "src/macros.rs", "src/types.rs", "src/lib.rs"],
  [("infallible collection APIs (Vec growth, Box::new) that call the allocation-error handler", "src/common.rs impl Parse for Vec and Box, Punctuated, PunctuatedNonEmpty"), PUREMECH],
  ["outcome of parse calls under an allocator that refuses requests"])
p("C07", "A component's recoverable failure backtracks exactly",
  "A caller's own component parser, used inside the library's generic constructs (optional, boxed, repeated, tuple, bracketed, nullable and separated lists), may report a recoverable error at any point. A construct that can do without the failing part then succeeds with exactly the parts completed before it, in order, none lost, repeated or invented, and hands back the input at the end of the last part it kept, so that nothing is consumed by the abandoned attempt; a construct that needs the part reports a recoverable error.",
  ["fault_sequences", "programs", "inputs"], "every composition of the generic constructs, every input and every set of places where components fail",
  "The tests instantiate each generic construct once, with identifiers that parse; no component ever fails in the middle of a list, an option or a delimiter pair.",
  GEN, [("opt!, many0!, separated_list!, separated_nonempty_list! with a trailing separator, do_parse! sequencing", "src/common.rs"),
        ("fields parsed in order, error returned at the first failing one", "src/macros.rs __ast_struct! @build_parser"),
        ("nullable suffix", "src/types.rs MayBeNull")],
  ["value and remaining input returned by <Construct<Component> as Parse>::parse"])
p("C08", "Fatal and need-more-input signals surface unchanged",
  "The first unrecoverable failure or need-more-input signal that a component raises, at any depth of generic constructs and after any earlier events, becomes the outcome of the whole parse, with the same kind of signal, position and code or size. No construct turns it into a recoverable error, an absent option or a shorter list, and no component is asked to parse anything after it.",
  ["fault_sequences", "programs", "inputs"], "every composition of the generic constructs and every component call at which the signal is raised",
  "Nothing in the tests ever raises such a signal.",
  GEN, [("only recoverable errors are absorbed by opt!, many0! and the separated lists", "src/common.rs"),
        ("Err(e) => Err(e)", "src/macros.rs __ast_struct! @build_parser")],
  ["Err value of <Construct<Component> as Parse>::parse; the component call log"])
p("C09", "A component's panic unwinds cleanly",
  "A panic raised inside a component reaches the caller with its original payload. Every component value produced during a parse, whether it ends in success, error, backtracking or panic, is destroyed exactly once, and values that are part of the returned tree not before the tree is; parsing the same text again on the same thread then gives the fault-free result.",
  ["crash_points", "fault_sequences", "programs"], "every composition of the generic constructs and every component call at which a panic or failure strikes",
  "The tests use components without destructors that never panic.",
  GEN, [("partial results are owned by local values and dropped by unwinding", "src/macros.rs __ast_struct! @build_parser; src/common.rs")],
  ["panic payload; drop log of component values"])
p("C10", "Parsing with misbehaving components always ends",
  "Whatever components do (fail, recover, or succeed without consuming anything, as often and wherever they like), a parse through the library's generic constructs ends after a number of component calls bounded in proportion to the length of the input. A repeated or separated construct never spins on a component that makes no progress and never grows a list without consuming input.",
  ["fault_sequences", "programs", "inputs"], "every composition of the generic constructs and every behaviour of the components, including zero-length successes",
  "All components in the tests consume input whenever they succeed.",
  GEN, [("no-progress guards of many0! and of the separated lists", "src/common.rs impl Parse for Vec, Punctuated, PunctuatedNonEmpty")],
  ["number of component calls; return of <Construct<Component> as Parse>::parse"])
p("C11", "The outcome is independent of the environment",
  "Parsing the same text gives the same outcome, lists in the same order included, in every process: whatever the clock shows or however it jumps, whatever random numbers the system hands out, whatever the environment variables, the addresses of heap, stack and text, the thread and process ids and the state of the standard streams. A parse itself reads and writes no file, stream, clock or environment variable.",
  ["configurations", "fault_sequences", "inputs"], "every environment a process can meet: clocks, random sources, environment variables, memory layout, closed or full standard streams",
  "Each test runs in one environment and never compares two runs.",
  ALL, [PUREMECH, ("lists are Vecs in source order", "src/common.rs")],
  ["outcome of parse calls; system calls made during a parse"])

NA = [
 ("C12", "Every valid document is accepted and faithfully represented",
  "Every text that follows the supported WebIDL grammar is accepted, and the returned tree states exactly its definitions, members, modifiers, types and values, in source order.",
  "every text of the grammar", "The tests sample six documents and check definition counts and a few fields.", ALL,
  [("one struct or enum per grammar production, ordered alternatives", "all of src/")]),
 ("C13", "Text outside the grammar is not accepted",
  "The top-level function never returns a tree for a text that, read as a whole, does not follow the supported grammar; in particular it never silently ignores a trailing or malformed part.",
  "every text", "One test expects an error; no test feeds malformed documents.", ["src/lib.rs"],
  [("remaining-input assertion", "src/lib.rs parse")]),
 ("C14", "Whitespace and comments between tokens do not matter",
  "Inserting, removing or changing whitespace, line comments or block comments between tokens, where tokens stay separated, never changes the tree apart from where its slices lie.",
  "every text and every re-spacing of it", "The tests try a handful of spacings per token.", ["src/whitespace.rs", "src/term.rs"],
  [("sp around every token", "src/whitespace.rs ws!")]),
 ("C15", "Keywords match whole words only",
  "A name that merely begins with, ends with or contains a keyword is never read as that keyword, and a leading underscore always makes a name an identifier, without the underscore.",
  "every identifier", "One test covers one such name.", ["src/term.rs", "src/common.rs"],
  [("boundary test after a keyword", "src/term.rs ident_tag!"), ("optional underscore", "src/common.rs Identifier")]),
 ("C16", "Literals keep their exact spelling and class",
  "Integer, floating-point, string and boolean literals are classified by their lexical form and keep their exact source spelling.",
  "every literal", "About twenty literals are tried.", ["src/literal.rs"], [("literal parsers", "src/literal.rs")]),
 ("C17", "Parsing never crashes the process",
  "For every text, however malformed or deeply nested, parsing returns or panics in a way the caller can catch; it never overflows the stack.",
  "every text and stack size", "No test uses malformed or deeply nested text.", ALL, [("recursive descent", "src/types.rs, src/attribute.rs, src/argument.rs")]),
 ("C18", "Parsing time is reasonable in the size of the text",
  "The time to accept or reject a text grows polynomially with its length.",
  "every text", "No test measures time.", ALL, [("ordered alternatives with re-parsing of common prefixes", "src/macros.rs __ast_enum!")]),
 ("C19", "Remainders and text slices are true parts of the input",
  "Every remainder returned is a suffix of the input, every piece of text in a tree is a slice of the input, and slices appear in the tree in source order.",
  "every text", "Tests compare a few remainders.", ALL, [("recognize!, take_while!, tag!", "src/common.rs, src/literal.rs")]),
 ("C20", "Equality, ordering, hashing and cloning of trees agree",
  "Trees are equal exactly when they have the same structure and text, equal trees hash alike, ordering is total and agrees with equality, and a clone equals its original.",
  "every pair of trees", "Tests compare a few leaf values.", ["src/macros.rs"], [("derives", "src/macros.rs")]),
 ("C21", "All entry points agree",
  "Parsing a text through the top-level function, through the list of definitions or definition by definition gives the same definitions.",
  "every text", "Tests use either one or the other entry point.", ["src/lib.rs"], [("parse delegates to Definitions::parse", "src/lib.rs")]),
]
for id, title, st, text, why, files, mech in NA:
    p(id, title, st, ["inputs"], text, why, files, mech)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
