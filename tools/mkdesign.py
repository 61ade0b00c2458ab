#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, plus tables taken from the plans, the known findings and the planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plans import PLANS
PROPS = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
KNOWN = json.load(open(V + "/known_findings.json"))
RES = {}
try:
    RES = json.load(open(V + "/tools/seed_results.json"))
except OSError:
    pass

# property -> (oracle, why it reaches what the tests can't, what it does not cover)
P = {
"C01": ("The sanitizers and the accounting of the runner. Every workload of every other property is executed with AddressSanitizer and UndefinedBehaviorSanitizer (every report ends the case), with the checked containers of libstdc++, and with allocator hooks that keep the number of live bytes: after a case has destroyed what it made, it must be what it was before it (the case is repeated, so that what is allocated once per process doesn't count). A part of the workloads is executed again under valgrind memcheck, which also sees decisions taken on memory that was never written.",
        "The existing tests run without sanitizers, on small fixed histories. The library manages its own raw memory (placement construction in byte blocks, manual growth, moves), where errors only appear for some combination of type, size and operation.",
        "Exception safety for `std::bad_alloc` thrown inside of an operation (only the requests that can never be satisfied are made, by C03's `huge_*`). The alignment sanitizer is off: the packed layout is by design (known finding F-C01-3)."),
"C02": ("A reference value tree (harness/model.cpp: plain C++ variants that never call the library). After each operation of a random history *every* live object is read back completely, through all the access paths the library has for the node (name, index, iterator, alias, reference taken earlier), and compared leaf by leaf.",
        "An offset, stride or size error damages a *neighbour*: only a whole-state comparison after each write sees it, and only for the types whose layout exposes it.", None),
"C03": ("The same reference model with a vector per sequence; `large_sequence` computes what every element must be from its position, up to 131072+ elements; `huge_*` make requests over 4 GB under an allocator that refuses and records what was asked (a request that wraps around 32 bits shows as a small allocation).",
        "Growth, bounds and 32-bit arithmetic depend on the number and the type of the elements, not on the API call.", None),
"C04": ("The reference model with an association list per map, compared with lookups by every stored key, absent keys, iteration and size. `map_collide` constructs different keys with *equal hashes* (it learns the combination function by asking hash() and solves for the collision) so that identity by value is observed.",
        "Colliding hashes do not happen by chance; the order of the storage depends on hashes.", "Which pair order iteration uses (unspecified)."),
"C05": ("The reference model keeps each text as code units and cuts it at the bound when it arrives; every path by which a text can arrive is in the histories and in `conv_text`.", "The bound must be applied in every path, for each width of character.", None),
"C06": ("The reference model keeps selected member, discriminator and value, with the rule of the library (README, comments of UnionType.hpp) for the implicit default label. Every discriminator kind (bool, 8 to 64 bits, chars, enumerations of 3 widths, aliases) with labels over the whole range.", "The label goes through a switch of 15 kinds, several times; each can be wrong alone.", "Labels reserved by the library (INT8_MAX for 8 bits and so on) are not used; a union whose bool discriminator has a default is F-C06-1."),
"C07": ("Pools of live objects with the model; copies, moves, assignments, self-assignments, assignments of a part of itself, pushes of own elements; all live objects re-read after each step; ASan for what a wrong ownership does.", "Sharing shows only when the other object changes or dies later.", "F-C07-1..3 (EQUALS between int32 and float)."),
"C08": ("Pairs with the same content by construction but built through different histories and capacities, and pairs with exactly one different leaf, size, key, selection or discriminator; the equality of the *reference* contents decides; equal contents must hash equally; stored keys must be found.", "A comparison that ignores one kind of leaf or one half of a pair passes any test that doesn't differ exactly there.", "NaN. Data of unrelated types with the same layout that mix unions, or bool with int8, are not compared."),
"C09": ("A reference comparison of the *declarations* (descriptors kept by the harness), written from the documentation of TypeConsistency and of each type, on pairs derived from each other by random edits, in both directions, through aliases, copies and containers.", "Flags must be united through all the nesting; each pair of kinds has its own code.", "The labels of unions are not part of the comparison (as in the library)."),
"C10": ("A reference conversion on model values; the target is read completely, the source must be unchanged, then both are modified and destroyed.", "Conversions work on raw memory of two layouts.", "Which pairs survive a smaller map bound; floats out of the range of integers."),
"C11": ("The declaration at the time of use is kept; the original is then renamed, extended, assigned or destroyed, and every introspection answer of what used it, and existing data, are compared.", "Sharing shows only after a later change, and its damage only with sanitizers or a complete re-reading.", None),
"C12": ("The log of the events of the visitor (node, type, value, depth, parent, index, member) against a reference walk; every stopping point; iterators compared with the same list; values written by visitors land where the model says.", "Order and metadata depend on the whole tree.", None),
"C13": ("Operations that must be refused are derived from the model (wrong kinds, names, indexes, bounds, labels, keys, types...), executed in random states; they must throw std::runtime_error and *nothing* may have changed: data are re-read, types asked every question (`type_misuse`, also while they are being built), modules compared with their reference.", "A check that comes after the first modification only shows if the state is compared afterwards.", "Preconditions that only documented as such in comments and have no assert are not used."),
"C14": ("The same operation by the C++ compiler on native values of the same type; the operands are compared afterwards.", "15 kinds x 30 operators x boundary values.", "Operations that are undefined in C++ (overflow of signed, shifts out of range, division by zero); `~` of unsigned is pinned as unavailable by the tests."),
"C15": ("An independent codec (harness/utf.hpp) checked against itself by round trips; all code points; all texts of 1 and 2 bytes; random damage.", "The conversion works in blocks, so position matters.", None),
"C16": ("The text is split in lines and compared with a reference walk of the model and an independent formatting; casts against C++ conversions.", "Each kind has its own code.", None),
"C17": ("A reference module tree with its own name resolution (written from IDL scoping rules as far as the tests pin them), every name from every scope.", "Lookups walk scopes in several directions; wrong answers need equal names in several scopes.", None),
"C18": ("An independent IDL reader (w_idl.cpp) which resolves names in *what is declared so far*, so that order errors are seen, and compares every declaration with the types that were put in the module.", "Order depends on the graph of dependencies.", "Mutually dependent modules (F-C18-1); enumerations with gaps lose their values in IDL (documented limitation of the grammar: only the order is compared); the per-structure map of idl::generate()."),
"C19": ("ThreadSanitizer, and every answer of every thread compared with what the sequential execution gave. 2 to 4 threads, random pauses, the order of steps recorded (distinct interleavings are counted as evidence).", "Hidden shared state (caches, statics) needs two threads.", "The singleton Parser, which is documented to be used from one thread at a time."),
"C20": ("The allocator hooks log size and address of every allocation; the block of the data must be exactly what the reference size function says; reads and writes must allocate nothing.", "Sizes depend on the type.", None),
"C21": ("A reference enumeration; every value of the small widths is tried, boundaries for the others.", "Depends on the history of the declaration and on the path of the write.", "F-C21-1..5 (other enumerations of the same width are EQUALS)."),
"C22": ("The declaration as the harness made it (typecheck.cpp asks everything there is to ask).", "Depends on copies, nesting and inheritance.", None),
"C23": ("The generator of documents knows what it describes (types, constants with their values computed by 128-bit arithmetic, scopes) and asks the parsed module everything, with the same checker as C22 and C17. The layout, comments, annotations, the ways to refer to names, the pieces in which the text is given and the use of the preprocessor (`cpp`) are random.", "The parser tests need cpp-peglib, which isn't available here; the grammar accepts many equivalent forms and each is decoded by hand-written code over an AST whose shape depends on the form (single children are collapsed).", "bitset, bitmask, annotation declarations, fixed, any, native, forward-declared unions; `E::V` constants; labels reserved by the library."),
"C24": ("What the second text describes, against the first document.", "Two components (parser and generator) must agree on names, scopes, escapes and literals.", "Mutually dependent modules (F-C18-1)."),
"C26": ("The log is monitored against the outcome of the parsing (returned, thrown, reported) and against itself at the most detailed level; for the options, the generator of documents knows which texts need which option and what they then describe.", "Options are combinations with all of the grammar; the log isn't tested at all.", "F-C26-1 and F-C26-2 (`clear` and `ignore_case` do less than the README says). The wording of the messages, except that the exception and the log agree."),
"C25": ("ASan/UBSan, the hang detector, the exit status of the process, the accounting of memory, and a valid document parsed afterwards whose contents are compared.", "Hostile texts are not in the tests.", "Texts nested so deeply that recursion exhausts the stack are limited to moderate depths (the stand-in of peglib is recursive, as the original is)."),
}

out = []
w = out.append
w("""# Runtime monitoring of eProsima/xtypes

Generated by `tools/mkdesign.py` (edit there). The technique is runtime monitoring and sanitizers only: the real headers of
`/repo/include` are compiled into workload programs (`harness/`) and executed under sanitizers, while monitors compare
every observation with independent reference models and account for every byte of memory. xtypes is a header-only
library, so every check compiles the headers of the working tree; nothing of the repository's own build is used.

## Machinery

* `check.py <id> quick|thorough` compiles the units of the property (clang++, C++17, `-O1`, `-D_GLIBCXX_ASSERTIONS`,
  ASan+UBSan; TSan for C19; plain for memcheck) with a cache keyed by the content of the headers and of the harness,
  runs the plan in 8 shards, gathers events, decides and writes `evidence/<id>.json`. Units are built in parallel
  (about 45 s from nothing, shared by all the checks).
* `harness/runner.cpp`: a case is a function of (workload, index, seed). A crash is recorded with its sanitizer report,
  a case that takes more than 45 s is a hang, and the shard continues with the next case. It hooks the allocator: live
  bytes must be the same before and after each case. Exceptions which aren't expected are violations.
* `harness/model.cpp`: descriptors of types (*declarations*) and values as plain C++ trees, random generators of both, and
  the builders that make the library's types and data from them. The models never call the library.
* `harness/typecheck.cpp` asks every introspection question of a type and compares with its declaration.
* `harness/w_*.cpp`: the workloads. `w_probe.cpp` and `MON_PROBE`: one execution each, for the known findings.
* Evidence: what the monitors observed (`observed_events`), the number of cases with at least one non-trivial observation
  and different structure (64-bit signatures of types and operations), and samples. A check *fails* (with no VIOLATION)
  if some event listed in `must_see` was not observed, or fewer distinct cases than `min_distinct`, so that
  a workload that silently stops doing its work can't pass.
* `quick` is one round with the numbers of cases below; `thorough` is 6 rounds with other seeds, each with 4 times as many.
  Everything derives from `VERIF_SEED`.
* A violation is minimised by nothing but its replay: `check.py replay <file>` executes the case again, with its trace.
* `harness/peg/peglib.h` is a stand-in for cpp-peglib, which xtypes downloads when it is configured and isn't available here (the
  parser and its tests are not built in this sandbox). It is a PEG interpreter written from the documentation of the
  library: ordered choice, predicates, token boundaries, whitespace rule, AST and its optimisation. `tools/pegcheck.sh`
  validates it with the repository's own parser, round trip and dependency tests, which pass with it under ASan. The
  code being checked by C23-C26 is `idl/parser.hpp`, `idl/grammar.hpp`, `idl/generator*.hpp`, not peglib.
* Build of xtypes with exceptions (`XTYPES_EXCEPTIONS`) as in its tests; without them misuse ends the process.

No property is listed under not_applicable: each is decided by observation of executions. What observation can't give is
a guarantee for the inputs which were not generated; the level of every check is `exploration`.

## Properties
""")
for p in sorted(P):
    o, why, no = P[p]
    plan = PLANS[p]
    w("### %s - %s" % (p, PROPS[p]["title"]))
    w("*Oracle.* " + o + "\n")
    w("*Workload.* " + plan["rule"] + "\n")
    w("*Cases per quick run:* " + ", ".join("%s %d" % kv for kv in plan["plan"].items()) + "".join(
        "; under %s: " % e["flavor"] + ", ".join("%s %d" % kv for kv in e["plan"].items()) for e in plan.get("extra", [])) + ".\n")
    w("*Must be observed:* " + ", ".join(plan["must_see"]) + ".\n")
    w("*Why the tests can't settle it.* " + why + "\n")
    if no:
        w("*Not covered.* " + no + "\n")
w("""## What the existing behaviour pins

These are not findings; the reference models follow them, because the tests or the documentation pin them: resize to
a smaller size does nothing; types must outlive what refers to them when the user passes references (README); the default
case of a union without labels has a discriminator reserved by the library; selecting a member takes its lowest label;
a discriminator which labels another member is refused; keys of maps can't be modified by iteration; char, int8 and bool are mutually
EQUALS, as are enumerations of the same size; string kinds are mutually NONE; visiting or rendering a union without
selection asserts; the structures of a module are renamed with their scope; explicit values of enumerators must not
decrease; postfix ++ returns the new value; `~` isn't available for unsigned; a member named as a visible symbol is refused by
the parser; lines that begin with the digraph `%:` are directives of the preprocessor.

## False alarms that were corrected

* Selecting a member of a union was expected to write the first label declared: it writes the lowest.
* NaN as key and in comparisons, texts that aren't well formed in rendering, pairs that survive a smaller map bound, and
  floats out of the range of an integer: unspecified or undefined, so out of the properties (C08, C16, C10, C14).
* `eq_types` with bool against int8, and unions of the same layout: reading them is F-C01-1 and F-C01-2, not a
  different defect.
* The generator of documents used a name declared by an earlier declarator of the same typedef as if it were visible
  before it; and put `%:` at the beginning of a line, which is a digraph.
* Member named as a visible symbol: refused by design; the generator avoids it.
* A loaded machine made slow cases look like hangs: the limit is 45 s for cases that take milliseconds.
""")
w("## Known findings (%d)\n\nGenuine defects which are recorded and not repaired, because a repair would change the layout of the data, the grammar or a documented relation (EQUALS) on which the tests depend. Each has a probe of its own; the workloads avoid the input.\n" % len(KNOWN["findings"]))
for f in KNOWN["findings"]:
    w("* **%s** (%s, `%s`): %s" % (f["id"], f["property"], f["workload"], f["what"]))
w("\n## Defects repaired (%d)\n\nEach is a `fix:` commit in /repo, found by the check of the property (the input was reduced to a small program first).\n" % len(KNOWN["fixed"]))
for f in KNOWN["fixed"]:
    w("* " + f.replace("fixed: ", ""))
seeds = sorted(os.listdir(V + "/seeded"))
w("\n## Planted bugs (%d)\n\nEach was written from a property and the code, and confirmed: it compiles, passes the 98 tests, its demonstration fails with it and passes without it. `tools/mkseed.py` confirms, `tools/seedrun.py` runs the checks.\n\n| bug | needs | breaks | quick check |\n|---|---|---|---|" % len(seeds))
for i in seeds:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    w("| %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], RES.get(i, "")))
w("""
Missed when they were planted, and what was added: C08-struct-cut (structures of more than 256 members in C08: `large_struct`),
C13-enum-state and C13-member-index (the state of *types* after a refused declaration: `type_misuse`).

Changes that were planted and dropped, because they didn't break the property (or nothing could be observed):
C04-bound-last, C05-wide-bound, C10-int64, C03-resize-capacity, C04-key-memmove, C09-missing-members, C20-pad-longdouble,
C06-same-type-switch, C10-u64-float, C04-overlap, C20-union-block, C09-array-flags, C09-text-bounds, C09-names-flags,
C21-allowed-range, C21-copy-next, C07-copy-capacity, C06-char16-disc.

## Bounds and limits

* Types up to 3-4 levels of random nesting (60 in `large_depth`), collections of a few elements (131072+ in `w_large`).
* Coverage of the headers by all the workloads: about 92% of the lines (clang source coverage); what's left are the
  branches for other compilers, log messages, and what is listed as not covered.
* Exhaustion of memory in the middle of operations isn't injected.
* Only this platform: 64 bits, little endian, 32-bit wchar_t, clang and gcc.
""")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
