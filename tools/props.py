"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "base/components/"; D = "base/dependencies/"; A = "base/auxiliary/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, check=None, na=None, technique=None, note=None, level="other", state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state: anchors["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if observe: anchors["observe_at"] = observe
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=anchors),
                  na=na, technique=technique, note=note, level=level))

SMOKE = "The three tests only check that the generators build, run and exit 0 on the repository's own inputs; "

prop("P01", "Parsing leaves the parser's scope stack as it found it",
  "Every public parse function and every internal parsing routine leaves the parser's stack of active scopes exactly as it found it on every return path, successful or failed. No path pops a scope that the same call did not push.",
  ["inputs", "programs"], "all return paths of all parsing routines, for every source text (well-formed or not)",
  SMOKE + "an unbalanced error path only shows when a malformed text is parsed with failures non-fatal and another parse follows.",
  [B+"parser.cpp", B+"interface.parsing.cpp"], [("parser_push / parser_pop", B+"parser.cpp"), ("parser_parse_* and parse_*", B+"parser.cpp")],
  technique="interprocedural stack-depth dataflow over every parsing function's control flow (push/pop effect summaries)",
  note="Sound for depth per path up to the abstraction: conditions are taken both ways unless the same local flag decides them; calls are applied through computed summaries. Aborting paths (fatal failures) are exempt.")

prop("P02", "Strings built from literals carry the literal's true length",
  "Every counted string the library builds from a string literal (keyword and name tables, token texts, separators, constants) has a length equal to the literal's character count. So no emitted keyword is truncated and no read runs past the literal.",
  ["programs", "configurations"], "every counted-string construction from a literal in every translation unit the build covers",
  SMOKE + "most table entries (e.g. protected inheritance, invalid markers) are never reached by those inputs.",
  [B+"types.hpp", B+"parser_types.hpp", B+"gen/ecodetypes.hpp", B+"gen/eoperator.hpp", B+"gen/especifier.hpp", B+"gen/etoktype.hpp", B+"constants.hpp", B+"static_data.cpp"],
  [("txt() and brace-initialised Str tables", D+"strings.hpp")],
  technique="constant evaluation of every Str construction in the type-checked program (all five generator translation units)",
  note="Exact for constructions whose pointer is a literal and whose length is a constant expression, in initialisers, tables, arguments and member-wise assignments; lengths computed at run time from the same pointer are accepted.")

prop("P03", "Formatted output consumes exactly the arguments it is given",
  "Every call to the library's formatting functions (diagnostics, string-builder formatting, file and console printing) supplies exactly the arguments its format string consumes, in number, order and type, under the formatter's own conversions. So no diagnostic or generated text is built from a misread or missing argument.",
  ["programs", "inputs"], "every formatting call site and every conversion in its format",
  SMOKE + "almost all formatting calls sit on failure paths or on rarely combined optional parts that those inputs never take.",
  [D+"printing.cpp", D+"strings.hpp", B+"interface.upfront.cpp", B+"code_serialization.cpp", B+"parser.cpp", B+"ast.cpp"],
  [("c_str_fmt_va and its wrappers", D+"printing.cpp"), ("log_failure / log_fmt", B+"types.hpp"), ("strbuilder_append_fmt / strbuilder_fmt_buf", D+"strings.hpp")],
  technique="format-string checking lint on resolved call sites; conversion grammar and argument types derived from the formatter's own source",
  note="Every call with a literal format is decided (including forwarded formats of wrapper functions discovered from the call graph); non-literal formats are reported unless they are a forwarded parameter.")

prop("P04", "Name tables agree with their enumerations",
  "For every node kind, operator, specifier, token kind and other enumeration that has a textual form, looking up any valid member yields the text its definition assigns to it, and looking a text up yields the member that owns it. Lookup tables have exactly one entry per member, in order, and are never indexed beyond their end.",
  ["inputs", "configurations"], "every member of every enumeration with a lookup table, in the committed sources and the definition tables they are generated from",
  SMOKE + "a swapped pair of rarely used keywords changes generated text that no test compares.",
  [B+"gen/ecodetypes.hpp", B+"gen/eoperator.hpp", B+"gen/especifier.hpp", B+"gen/etoktype.hpp", "base/enums/ECodeTypes.csv", "base/enums/EOperator.csv", "base/enums/ESpecifier.csv", "base/enums/ETokType.csv", "base/enums/AttributeTokens.csv", B+"types.hpp", B+"parser_types.hpp"],
  [("codetype_to_str, codetype_to_keyword_str, operator_to_str, spec_to_str, toktype_to_str", B+"gen/"), ("str_to_specifier, str_to_toktype", B+"gen/")],
  technique="cross-check of evaluated lookup tables against enumerators and the CSV definitions; abstract evaluation of the lookup functions per enumerator",
  note="Complete over the finite enumerations. The CSV files are the oracle for text; enumerators for position.")

prop("P05", "Typed node views alias the generic node field for field",
  "Every typed view of a syntax node has the size of the generic node and places each field it names at the offset, with the size, of the same-named field of the generic node. So data written through one view is read back through any other.",
  ["programs", "configurations"], "every typed node structure and each of its fields, on every supported target ABI",
  SMOKE + "a field shifted in a rarely used view corrupts only nodes of that kind.",
  [B+"ast.hpp", B+"ast_types.hpp", B+"code_types.hpp"], [("AST and AST_* overlay structs", B+"ast_types.hpp")],
  technique="record-layout comparison in the type-checked program plus generated static_assert(offsetof) witnesses compiled for each target",
  note="Exact: layouts are the compiler's own, for x86-64 Windows and Linux ABIs.")

prop("P06", "Text stored in nodes is interned",
  "Every string stored into a node's name or content, or into a registered macro's name, is the result of the context's string cache or a copy of a string that already lives in a node. So nodes never refer to caller-owned or temporary text.",
  ["inputs", "histories"], "every store to a cached-string field in every function of the library",
  SMOKE + "a dangling reference stays readable while the caller's buffer lives, which is always the case in the tests.",
  [B+"interface.upfront.cpp", B+"interface.untyped.cpp", B+"parser.cpp", B+"interface.parsing.cpp", B+"ast.cpp", B+"interface.cpp"],
  [("cache_str", B+"interface.cpp")], 
  technique="interprocedural provenance (taint) dataflow into cached-string fields",
  note="All stores in the analysed units are enumerated; values are traced through locals, returns and parameters of internal helpers. Text of string literals is accepted for static-storage constants.")

prop("P07", "Serialization emits every present component once, in C++ order",
  "For every node kind and every combination of its optional components, serializing the node emits each component that is present exactly once, in the order C++ syntax requires, with its punctuation, and emits nothing for absent ones.",
  ["inputs", "programs"], "every serializable node kind x every presence/absence combination of its optional components",
  SMOKE + "the optional-component combinations grow exponentially and only a few occur in those inputs; output is not compared.",
  [B+"code_serialization.cpp", B+"inlines.hpp"], [("*_to_strbuilder_ref / _def / _fwd", B+"code_serialization.cpp")],
  technique="abstract interpretation of each serializer over the presence lattice of node fields, comparing emitted component sequences with a per-kind grammar",
  note="Exhaustive over field-presence combinations per kind; list-valued components are explored up to two entries; component text itself is opaque.")

prop("P08", "Every node kind serializes through its own serializer",
  "Serializing a node of any kind dispatches to the serializer of that kind (declaration or forward form as its tag says), and no kind falls into another's output or is silently dropped. Kinds that cannot be emitted are reported.",
  ["inputs"], "every node kind (all tags)",
  SMOKE + "kinds not used by the generators (modules, friends, conversions, execution blocks) are never dispatched.",
  [B+"ast.cpp", B+"code_serialization.cpp"], [("code_to_strbuilder_ref", B+"ast.cpp"), ("per-kind *_to_strbuilder", B+"code_serialization.cpp")],
  technique="exhaustive dispatch-table extraction by abstract interpretation per tag",
  note="Complete over the finite set of tags.")

prop("P09", "Upfront constructors reject invalid arguments and accept valid ones",
  "A code-construction function given a missing required argument, or an argument node of a kind it does not allow, returns the invalid code with failures non-fatal and never dereferences a null argument; given only allowed kinds it does not refuse.",
  ["inputs"], "every construction function x each argument x {absent, every node kind}, with the remaining arguments valid",
  SMOKE + "with failures fatal a rejected argument aborts the test, so no rejection path is ever exercised.",
  [B+"interface.upfront.cpp"], [("def_* validation prologues, name_check / null_check", B+"interface.upfront.cpp")],
  technique="abstract interpretation of each constructor over the lattice of argument kinds, compared with an acceptance table",
  note="Exhaustive over node kinds per argument. The acceptance table is fixed in the checker from documentation and sibling agreement.")

prop("P10", "Upfront constructors record everything they are given",
  "A node returned by a code-construction function carries the tag of the requested construct (definition or forward form) and holds every supplied component in the place serialization reads it from.",
  ["inputs"], "every construction function x every presence combination of its optional arguments",
  SMOKE + "a dropped optional component yields well-formed but incomplete output that no test compares.",
  [B+"interface.upfront.cpp"], [("def_*", B+"interface.upfront.cpp")],
  technique="abstract interpretation of each constructor over argument presence; stored-field map compared with a per-construct table",
  note="Exhaustive over presence combinations; cross-checked against the fields the serializers read.")

prop("P11", "Body builders admit exactly the kinds their scope allows",
  "Each body-building function returns a body tagged for its own scope that contains every given entry in order, and returns the invalid code when an entry is absent or of a kind the scope does not allow. The variadic and the array form of the same builder agree.",
  ["inputs"], "every body builder (both forms) x every entry kind, including absent entries and any entry count",
  SMOKE + "the array forms and most disallowed kinds are never used by the generators.",
  [B+"interface.upfront.cpp", B+"ast_case_macros.cpp"], [("def_*_body / def_*_body_arr", B+"interface.upfront.cpp"), ("GEN_AST_BODY_*_UNALLOWED_TYPES", B+"ast_case_macros.cpp")],
  technique="abstract interpretation of each builder over the entry-kind lattice; sibling agreement",
  note="Exhaustive over entry kinds; entry counts 0..2 (the per-entry loop body does not depend on the index).")

prop("P12", "Equality of nodes depends on every component",
  "Comparing two nodes yields true for identical content and false as soon as any component that serialization shows differs or is present on only one side (comments excepted: they are documented as not compared), for every node kind, whichever of the two is the first operand.",
  ["inputs"], "every node kind x every component, differing or one-sided, in both operand orders",
  SMOKE + "equality is only reached through operator validation there.",
  [B+"ast.cpp"], [("code_is_equal", B+"ast.cpp")],
  technique="abstract interpretation of the comparison (with its recursion) over a heap of two nodes that differ in exactly one component",
  note="Exhaustive per kind and field, one field perturbed at a time.")

prop("P13", "Operator tokens map to the operator they spell",
  "Every overloadable operator is accepted by the parser, and the operator recorded is the one whose spelling is the parsed token sequence, with unary and binary forms told apart by parameters, so re-emitting it yields the same operator.",
  ["inputs"], "every overloadable operator spelling",
  SMOKE + "few operators are parsed there and the result is not compared.",
  [B+"parser.cpp", B+"gen/eoperator.hpp", "base/enums/EOperator.csv"], [("parser_parse_operator_after_ret_type", B+"parser.cpp")],
  technique="abstract interpretation of the token-to-operator switch, compared with the operator text table",
  note="Every branch of the mapping is enumerated.")

prop("P14", "Fixed-capacity arrays are never indexed past their end",
  "Every write or read through a variable index into an array of fixed capacity (specifier lists, lookup tables, format and path buffers) is bounded by that capacity for every input.",
  ["inputs"], "every array access with a non-constant index into a fixed-size array",
  SMOKE + "overflow needs unusually long specifier lists or out-of-range enumerators.",
  [B+"parser.cpp", B+"inlines.hpp", B+"interface.upfront.cpp", D+"printing.cpp", D+"filesystem.cpp", D+"strings.cpp"],
  [("specs_found[16], AST_Specifiers::ArrSpecs, lookup tables", B+"parser.cpp")],
  technique="interval dataflow with guard conditions over every fixed-array subscript",
  note="Sound interval reasoning within a function plus entry facts of internal callers; every access is an obligation.")

prop("P15", "The lexer never reads beyond its input",
  "For every input text, including one cut off inside a comment, literal, directive or macro, tokenisation and formatting removal read no character past the text and its terminator, never advance past its end, hand on no token text that reaches past it, and every scanning loop consumes a character or is left.",
  ["inputs"], "every input text, every truncation point",
  SMOKE + "reading one character past a buffer is invisible without instrumentation, and no truncated text is lexed.",
  [B+"lexer.cpp", B+"parser.cpp"], [("left counter, move_forward, skip_whitespace", B+"lexer.cpp"), ("parser_strip_formatting", B+"parser.cpp")],
  technique="abstract interpretation of the scanning routines to a loop fixpoint: scanner position against a lower bound on the remaining count",
  note="All character reads, advances, token texts and loops of lex (helpers inline) and parser_strip_formatting are obligations. Assumes a NUL after the text given to lex.")

prop("P16", "Parsing loops always make progress",
  "Every loop of the parsing routines consumes a token, or otherwise leaves the loop, on every iteration; at the end of the tokens it is left. So no token sequence makes the parser loop for ever.",
  ["inputs"], "every loop iteration path of every parsing routine, in every context it is reached from",
  SMOKE + "a non-advancing path needs a particular malformed or unusual token sequence.",
  [B+"parser.cpp", B+"lexer.cpp", A+"scanner.cpp"], [("parser_eat / lex_next loops", B+"parser.cpp")],
  technique="abstract interpretation of every parsing loop with consumption marks; least-fixpoint consumption summaries per calling context",
  note="Every loop is an obligation; progress means a token or character is definitely consumed or the loop is left.")

prop("P17", "Every parsed component reaches the resulting node",
  "A component of a construct that a parsing routine has successfully parsed (attributes, specifiers, types, parameters, values, bodies, inline comments) is stored in the returned node on every successful path.",
  ["inputs"], "every successful path of every parsing routine x every component it parsed",
  SMOKE + "a dropped component yields plausible output that no test compares.",
  [B+"parser.cpp"], [("parser_parse_*", B+"parser.cpp")],
  technique="def-use (lost-value) dataflow from sub-parse results to the returned node",
  note="Every local that receives a sub-parse result is an obligation.")

prop("P18", "Parsing yields a node of the kind that was asked for",
  "Each parse function returns either no/invalid code or a completely tagged node of the construct it is named after: a definition tag exactly when a body was parsed, the forward tag otherwise.",
  ["inputs"], "every return path of every parsing routine",
  SMOKE + "a wrong tag on a forward form changes dispatch only for that form.",
  [B+"parser.cpp", B+"interface.parsing.cpp"], [("result->Type assignments", B+"parser.cpp")],
  technique="tag-flow dataflow to each return",
  note="Every assignment and return of a node is covered; untagged returns are violations.")

prop("P19", "Allocators stay within their backing and honour the request protocol",
  "Every allocator handles each request kind (allocate, free, free-all, resize), never hands out memory reaching beyond its backing storage, and returns no memory rather than overlapping memory when it cannot satisfy a request.",
  ["inputs", "histories"], "every allocation size/alignment and request sequence for each allocator",
  SMOKE + "exhaustion and odd alignments do not occur there.",
  [D+"memory.cpp", D+"memory.hpp", B+"interface.cpp", "gen_c_library/components/memory.fixed_arena.hpp"], [("*_allocator_proc", D+"memory.cpp")],
  technique="abstract interpretation of each allocator procedure per request kind with order facts between used, size and capacity",
  note="Every request kind of every allocator procedure is enumerated.")

prop("P20", "Growable containers reserve room before writing",
  "Every append, insert, removal, fill, resize or creation of a growable array or string builder reads and writes only inside its current storage (never storage released by growing), for every prior count and capacity, and leaves the count and the elements the operation denotes, with the storage acquired kept and the old released once.",
  ["inputs", "histories"], "every mutating array and string builder operation, for every prior count, capacity, index and length",
  SMOKE + "growth boundaries are crossed rarely and an overrun within slack goes unnoticed.",
  [D+"containers.hpp", D+"strings.hpp", D+"strings.cpp"], [("array_append*, array_resize, array_set_capacity, array_grow, strbuilder_make_space_for, strbuilder_append*", D+"containers.hpp")],
  technique="relational (linear inequality) abstract interpretation with symbolic capacity, count, index and length; block-content logs",
  note="No bound on sizes; integer overflow of sizes is assumed away. Hash tables are outside this check (their array operations are inside).")

prop("P21", "Context start-up, reset and shut-down are symmetric",
  "Everything a context acquires while it starts up or runs is released exactly once when it shuts down, nothing is used after its backing allocator is gone, and a reset leaves the context as usable as a fresh one.",
  ["histories"], "every acquire/release pair over start, reset, shut-down sequences, with default or user-provided allocators",
  SMOKE + "each run starts one context, never resets it, and ends the process.",
  [B+"interface.cpp", B+"parser.cpp"], [("init / deinit / reset, parser_init / parser_deinit", B+"interface.cpp")],
  technique="resource pairing (typestate) dataflow over initialisation, reset and shutdown",
  note="Resources are the context's fields initialised in start-up; each is an obligation.")

prop("P22", "File and builder operations fail cleanly",
  "Reading, writing, scanning or building a file that cannot be opened, is empty, or fails midway yields a defined empty or error result, never uninitialised data, and releases the handle and temporary storage it took exactly once.",
  ["inputs", "fault_sequences"], "every failure point of every file, scanner and builder operation",
  SMOKE + "every file they open exists and is writable.",
  [D+"filesystem.cpp", D+"filesystem.hpp", A+"builder.cpp", A+"scanner.cpp", A+"scanner.hpp"], [("file_read_contents, file_open*, file_close, builder_open / builder_write", D+"filesystem.cpp")],
  technique="definite-initialisation and resource-pairing dataflow on file, scanner and builder functions with every callee outcome taken",
  note="Each operation is explored with each callee failing; loops up to two iterations.")

prop("P23", "The library compiles in every supported configuration",
  "The library's sources type-check for every combination of supported platform and documented build option (failure handling, debug, strong or weak code types, C-like or member interface, rolled-own dependencies).",
  ["configurations"], "the matrix of platform targets x documented preprocessor options",
  SMOKE + "they build one platform and one option set.",
  [D+"platform.hpp", D+"memory.cpp", D+"filesystem.cpp", D+"timing.cpp", B+"types.hpp", "base/gen.cpp", "base/gen.hpp"], [("platform and option conditionals", D+"platform.hpp")],
  technique="compile-time witnesses: front-end type checking of each configuration",
  note="Exact for the front end's view of the configurations enumerated.")

prop("P24", "Formatting into a bounded buffer never overruns it",
  "Formatting into a caller-sized buffer, including token-substitution formatting, writes no byte past the given size and terminates for every format and argument, reporting truncation instead.",
  ["inputs"], "every format text, argument and buffer size",
  SMOKE + "no text there comes near the buffer size.",
  [D+"printing.cpp", B+"interface.untyped.cpp", D+"strings.cpp"], [("c_str_fmt_va and its _print_* helpers", D+"printing.cpp"), ("token_fmt_va", B+"interface.untyped.cpp")],
  technique="cursor/remaining invariant dataflow: every write through an output cursor needs a dominating remaining-space guard",
  note="Every write through an output cursor is an obligation.")

prop("P25", "Lists of entries stay consistently linked",
  "Appending an entry to a body, parameter list or specifier list links it as the new last entry, keeps forward and backward links mutually inverse, sets its parent and raises the entry count by exactly the number of entries added. An entry that already belongs elsewhere is copied, never stolen.",
  ["histories", "inputs"], "every append/remove operation from every list state (empty, one, many)",
  SMOKE + "backward links, counts and parents are not observed by the emitted text.",
  [B+"inlines.hpp", B+"ast.cpp", B+"interface.upfront.cpp"], [("code_append, params_append, define_params_append, specifiers_append/remove, *_add_interface", B+"inlines.hpp")],
  technique="shape analysis by abstract interpretation on the list states empty / singleton / many",
  note="Three abstract list states per operation; link invariants checked on the resulting heap.")

prop("P26", "Serialization and diagnostics tolerate absent components",
  "Serializing or describing (for diagnostics) any node whose optional components are absent never dereferences an absent component.",
  ["inputs"], "every node kind x every presence combination, for serialization and diagnostic description",
  SMOKE + "descriptions are only produced on failure and sparse nodes are rare.",
  [B+"ast.cpp", B+"code_serialization.cpp", B+"inlines.hpp"], [("code_debug_str", B+"ast.cpp"), ("*_to_strbuilder*", B+"code_serialization.cpp")],
  technique="nullness abstract interpretation with optional fields null or non-null",
  note="Every dereference reached is an obligation; required components (those construction guarantees) are listed as assumptions.")

prop("P27", "Member wrappers forward to their own operation",
  "Every convenience member of a code wrapper, string, container or allocator type forwards to the free operation of the same name for that type, with the same object and arguments in the same order.",
  ["programs", "configurations"], "every forwarding member in the C++ interface",
  SMOKE + "most members are never called.",
  [B+"code_types.hpp", B+"ast.hpp", B+"gen/ast_inlines.hpp", D+"strings.hpp", D+"containers.hpp", D+"memory.hpp"], [("Using_Code and forwarding members", B+"code_types.hpp")],
  technique="delegation lint over resolved member bodies",
  note="Each forwarding member is an obligation.")

prop("P28", "Distinct strings never share a cache entry",
  "The string cache, macro registry and token-substitution map return an entry only for the text it was stored under: two different texts are never treated as the same one.",
  ["inputs"], "all pairs of distinct texts, including those with equal hash keys",
  SMOKE + "32-bit key collisions do not occur in the small inputs used.",
  [B+"interface.cpp", B+"interface.untyped.cpp"], [("cache_str, lookup_macro, token_fmt_va lookup", B+"interface.cpp")],
  technique="must-compare dataflow: a hash hit may only be returned after the stored text was compared",
  note="Every keyed lookup whose key derives from a text hash is an obligation.")

prop("P29", "The C-library generator's rewrites all hit",
  "Every declaration the C-library generator selects by name in order to rewrite or omit it exists in the sources it scans, so no customisation silently stops applying.",
  ["programs"], "every name-keyed rewrite in the C-library generator",
  SMOKE + "a missed rewrite often still compiles (a C overload macro or an omitted helper).",
  ["gen_c_library/c_library.cpp", "gen_c_library/c_library.refactor"], [("case-by-name rewrite loops", "gen_c_library/c_library.cpp")],
  technique="cross-reference of name-keyed rewrites with declarations in the scanned sources",
  note="Every literal compared with an entry name is an obligation.")

NA = {
 "N01": ("Parse-emit round trip preserves meaning", "Parsing supported C++ text and emitting the result yields text with the same meaning.", ["inputs"], "all supported C++ texts", "Equality of two texts' meaning quantifies over run-time token sequences; P07, P13, P17 and P18 decide the structural clauses (components kept, ordered and tagged), the equality itself has no sound static argument in reach.", [B+"parser.cpp", B+"code_serialization.cpp"]),
 "N02": ("Generated C library behaves like the C++ library", "The generated C library computes the same results as the C++ library it is derived from.", ["programs"], "all programs using either library", "Semantic equivalence of two programs; no structural clause beyond P29 (rewrites hit) and the build itself.", ["gen_c_library/c_library.cpp"]),
 "N03": ("Memory use is proportional to input size", "Memory taken while parsing grows linearly with the size of the text parsed.", ["inputs"], "all input sizes", "Quantifies over run-time allocation volume; arenas and caches grow with content that no static bound in reach captures.", [B+"interface.cpp", B+"lexer.cpp"]),
 "N04": ("Generation is deterministic", "Running the same generator on the same inputs yields byte-identical output.", ["histories"], "all runs", "Depends on the values of hashes, pointers and files at run time; iteration over hash tables is absent from serialization but output formatting is delegated to an external formatter.", [B+"code_serialization.cpp", A+"builder.cpp"]),
}
for k, (t, s, over, q, r, files) in NA.items():
    prop(k, t, s, over, q, SMOKE + "they compare no output.", files, [("whole pipeline", files[0])], na=r)

def main():
    import importlib.util, sys
    sys.path.insert(0, os.path.join(V, "checks"))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p["p"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["p"]["id"]
        if p["na"]: na.append({"property": i, "reason": p["na"]}); continue
        if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            na.append({"property": i, "reason": p.get("pending") or "no check yet"}); continue
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s" % i, "thorough_cmd": "python3 checks/run.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + p["technique"], "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "All checks re-extract the resolved program from /repo's working tree on every run (extractor/extract.cpp) and decide by static analysis only."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
if __name__ == "__main__": main()
