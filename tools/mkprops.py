#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable in one place)."""
import json, os
I = "include/xtypes/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook,
            **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))

prop("C01", "Every valid API history is free of memory errors, UB and leaks",
 "Any sequence of API calls that respects the documented preconditions - building types, creating, filling, copying, moving, converting, comparing, hashing, traversing, printing and destroying data of any nested type, using modules, the IDL generator and string conversion - performs no out-of-bounds, use-after-free, double-free or otherwise undefined memory access. When every type and data object of the history has been destroyed, every byte it allocated has been released exactly once. Calls that are rejected with an exception, and requests for more memory than there is, leak nothing and overflow nothing either. (Members are packed without padding by design, so alignment is not part of this.)",
 ["histories","inputs"], "all API histories over all types and values, including histories with rejected calls",
 "The tests execute a few dozen fixed histories without a sanitizer and never account for allocations; lifetime errors depend on element type, capacity and history.",
 ["DynamicData.hpp","SequenceInstance.hpp","MapInstance.hpp","UnionType.hpp","ArrayType.hpp","StructType.hpp","StringType.hpp","StringConversion.hpp","DynamicType.hpp","idl/Module.hpp","idl/generator_deptree.hpp"],
 [("manual construct/copy/move/destroy of instances inside raw byte buffers","Instanceable.hpp and its overrides in every *Type.hpp"),("owning buffer of DynamicData","DynamicData.hpp: DynamicData constructors/destructor"),("slot management of sequences and maps","SequenceInstance.hpp, MapInstance.hpp")],
 ["ASan/UBSan reports","live heap bytes before/after each case"])

prop("C02", "Writing a leaf stores exactly that value and disturbs nothing else",
 "After a value is written through any access path (member name, member index, element index, alias, inherited member, or a reference taken earlier), reading the same location through any path returns exactly that value. Every other leaf of the same data keeps the value it had, and freshly created data reads as zero, false, empty or the default everywhere.",
 ["inputs","histories"], "all nested struct/array/alias/inheritance types, all leaf paths, all values, all write orders",
 "Tests check a few hand-written structs; layout errors show up only for particular member orders, sizes, nestings and boundary values.",
 ["StructType.hpp","ArrayType.hpp","AliasType.hpp","AggregationType.hpp","PrimitiveType.hpp","DynamicData.hpp","Member.hpp"],
 [("member offsets","StructType::add_member"),("array addressing","ArrayType::get_instance_at"),("alias resolution","ReadableDynamicDataRef constructor"),("inheritance flattening","AggregationType::parent")],
 ["value<T>(), operator[], iterators"])

prop("C03", "A sequence behaves as a bounded vector",
 "A sequence holds exactly the elements pushed, in order, whatever their type and however often its storage grew; growing with resize keeps the existing elements and appends default elements, and shrinking requests change nothing. Its size never exceeds its bound: a push or resize beyond the bound, or an index outside the size, is rejected and leaves the content unchanged. bounds(), size(), indexing, iteration and the bulk vector view all agree with each other.",
 ["histories","inputs"], "all element types, bounds, and histories of push/resize/index/copy/assign",
 "Tests use a handful of element types and growth patterns; slot reuse, reallocation and bound handling depend on element kind, capacity and history.",
 ["SequenceType.hpp","SequenceInstance.hpp","DynamicData.hpp"],
 [("capacity doubling clipped at the bound","SequenceInstance::push/realloc"),("grow-only resize","SequenceInstance::resize"),("bound checks","SequenceType::push_instance, WritableDynamicDataRef::resize")],
 ["size(), operator[], as_vector(), begin()/end(), for_each"])

prop("C04", "A map behaves as a bounded associative container with unique keys",
 "After any history of keyed accesses and insertions, a map contains each key at most once and lookups by an equal key return the value last stored under it, for every key type (including strings, enumerations, structs, arrays, sequences and unions). Iteration yields exactly the stored pairs; a key that was never inserted is reported absent and reading it is rejected. A bounded map never exceeds its bound and inserting into a full one fails without changing it.",
 ["histories","inputs"], "all key and value types, bounds, key sets and insertion orders",
 "Keys are ordered by hash, so a misplaced key appears only for particular key sets, sizes and insertion orders; tests insert a few integers and strings.",
 ["MapType.hpp","MapInstance.hpp","PairType.hpp","DynamicData.hpp","Instanceable.hpp"],
 [("hash-ordered slots with binary search","MapInstance::find_place/create_place"),("shifting of later pairs","MapInstance::move_content"),("bound check","MapType::insert_instance")],
 ["operator[](key), at(), has_key(), insert(), size(), iteration"])

prop("C05", "Strings keep their content and never exceed their bound",
 "String, wide-string and 16-bit-string data returns exactly the text assigned, including embedded NULs and non-ASCII units, when it fits the bound, and otherwise exactly the longest prefix the bound allows. This holds for every way a string can arrive (assignment, push, copy, conversion, as struct member, element, key or union member). size(), bounds() and character indexing are consistent with the content.",
 ["inputs","histories"], "all three string types, all bounds and texts, all ways of storing one",
 "Truncation is implemented separately per storing path and tests exercise one or two lengths.",
 ["StringType.hpp","DynamicData.hpp","SequenceInstance.hpp"],
 [("bound truncation","TStringType::copy_instance, copy_instance_from_type"),("move","TStringType::move_instance")],
 ["value<std::string>() etc., size(), operator[](i)"])

prop("C06", "A union exposes exactly one selected member consistent with its discriminator",
 "At any moment a union either has no member selected or exactly one, the discriminator is then a label of that member (or the implicit default value for a default member), and only that member can be read. Selecting a member through a writable access default-initialises it if it was not selected and keeps its value otherwise; setting the discriminator never switches the selected member and values that do not label it are not stored. Reading never changes the discriminator or the value, and copying, moving, comparing and storing unions inside other types preserve both; traversals of a union visit the selected member only.",
 ["histories","inputs"], "all discriminator types (including signed, char, bool, 8/16/32-bit enumerations and aliases), label sets, defaults, member types and selection histories",
 "Tests cover a few discriminator types and labels; correctness depends on width, signedness, label order and selection history.",
 ["UnionType.hpp","DynamicData.hpp"],
 [("label map and label shrinking","UnionType::add_case_member, shrink_label"),("activate/destroy of case members","UnionType::activate_member"),("guarded discriminator update","UnionType::select_disc"),("checked read access","ReadableDynamicDataRef::operator_at_impl")],
 ["d(), current_case(), get_member(), operator[](name)"])

prop("C07", "Copies are equal, independent values; moves transfer; assignment replaces",
 "Copy construction, construction from a reference, and assignment produce data that reads identically to the source at that moment; afterwards neither is affected by any modification or destruction of the other. Move construction yields the source's former content. Assigning data to itself (directly, through a reference, or from a value it contains) leaves the content unchanged.",
 ["histories","inputs"], "all types and contents, all interleavings of copy, move, assign, mutate and destroy",
 "Sharing or slicing bugs need a particular nested content and a later mutation or destruction to show; tests copy few shapes and rarely mutate afterwards.",
 ["DynamicData.hpp","StructType.hpp","ArrayType.hpp","UnionType.hpp","SequenceInstance.hpp","MapInstance.hpp","StringType.hpp"],
 [("copy_instance / move_instance overrides","every *Type.hpp"),("owning constructors and assignment operators","DynamicData.hpp")],
 ["whole-tree reads of both objects"])

prop("C08", "Equality is deep and exact, and equal data hash equally",
 "Two data of the same type compare equal exactly when every leaf, size, key and selected member is the same, whatever the history, capacity or assignment order through which they were built; != is its negation, and equality is symmetric. The content includes the discriminator of unions; floating point leaves are compared by value (0.0 equals -0.0, NaN is out of scope). Data with identical content always have identical hashes, and changing a leaf that the key of a map depends on makes it a different key.",
 ["inputs","histories"], "all types; all pairs of contents differing in nothing, or in one leaf at any depth; different build histories",
 "A missed member, a pointer compared instead of content or a stale capacity only matters for particular shapes and histories.",
 ["DynamicData.hpp","Instanceable.hpp","StructType.hpp","ArrayType.hpp","SequenceInstance.hpp","SequenceType.hpp","MapInstance.hpp","PairType.hpp","UnionType.hpp","StringType.hpp","PrimitiveType.hpp"],
 [("compare_instance overrides","every *Type.hpp"),("hash overrides and hash_combine","Instanceable.hpp, StructType/ArrayType/SequenceType/UnionType/PairType::hash")],
 ["==, !=, hash(), map key behaviour"])

prop("C09", "Type consistency reports exactly the differences between two types",
 "is_compatible returns EQUALS for any type against itself, a copy of itself or an alias of it, and otherwise exactly the union of the documented IGNORE_* flags (sign, width, sequence/array/string/map bounds, member names, members) that a position-by-position comparison of the two types needs. It returns NONE as soon as any compared pair of constituents is of unrelated kinds. Aliases are transparent, a structure with a single member is also consistent with whatever that member is consistent with, and the relation is symmetric.",
 ["inputs","programs"], "all pairs of nested types, in particular types derived from one another by small edits",
 "The flags combine across nesting; tests check a list of hand-picked pairs.",
 ["TypeConsistency.hpp","PrimitiveType.hpp","EnumeratedType.hpp","StringType.hpp","SequenceType.hpp","ArrayType.hpp","MapType.hpp","PairType.hpp","StructType.hpp","UnionType.hpp","AliasType.hpp"],
 [("is_compatible overrides","every *Type.hpp"),("flag union","TypeConsistency operator|")],
 ["DynamicType::is_compatible"])

prop("C10", "Compatible conversion keeps every value the target type can represent",
 "Constructing data of a type from data of a compatible type gives each leaf present in both the numerically converted value of its source; strings, sequences and maps keep their elements up to the smaller bound, arrays their common prefix, structures their positionally common members, and unions their selected member. (Maps are converted when their keys and values have the same types up to bounds of the map; which pairs of a map survive a smaller bound, and floats out of the range of an integer target, are unspecified.) Everything the source does not provide is default-initialised, the source is unchanged, and the result is a fully usable, independent value of the target type. Converting between incompatible types is rejected.",
 ["inputs","programs"], "all compatible pairs of nested types and all source values; all incompatible pairs",
 "The conversion code differs per source and target kind, width and bound; tests convert a few fixed pairs.",
 ["DynamicData.hpp","PrimitiveType.hpp","StringType.hpp","ArrayType.hpp","SequenceType.hpp","SequenceInstance.hpp","MapType.hpp","MapInstance.hpp","StructType.hpp","UnionType.hpp","AliasType.hpp"],
 [("copy_instance_from_type overrides","every *Type.hpp"),("compatibility precondition","DynamicData(const ReadableDynamicDataRef&, const DynamicType&)")],
 ["whole-tree read of the converted data"])

prop("C11", "Types are values: later changes never affect what already uses them",
 "Once a type has been used as a member, element, key, alias target, parent or module entry, or to create data, later modification, renaming or destruction of the original object does not change the composed type, the module entry or the behaviour of the existing data. Copies of a type are independent of the original in both directions.",
 ["histories","programs"], "all type-building histories with later mutations and destructions of the constituent types, at every nesting depth",
 "Aliasing through shared pointers shows only when the original is changed or destroyed afterwards; tests rarely do that.",
 ["DynamicType.hpp","Member.hpp","StructType.hpp","UnionType.hpp","EnumeratedType.hpp","AliasType.hpp","CollectionType.hpp","PairType.hpp","idl/Module.hpp"],
 [("clone-on-store pointer","DynamicType::Ptr"),("clone overrides","every *Type.hpp")],
 ["introspection of the composed type, reads of existing data"])

prop("C12", "Traversals visit every node exactly once, in order, with correct metadata",
 "Visiting a data tree calls the visitor once per node in depth-first declaration/index order, with the node's type, value, depth, parent, index and member describing its true position; visiting a type does the same for its constituents. Throwing a bool from the visitor stops immediately and that value is returned, otherwise true. Element and member iterators visit the same children, and modifications made through writable visitors and iterators land in the visited leaf.",
 ["inputs","histories"], "all types and contents; every stopping point",
 "Node metadata and ordering depend on nesting of every kind inside every other kind; tests count nodes on a few shapes.",
 ["Instanceable.hpp","DynamicType.hpp","DynamicData.hpp","StructType.hpp","UnionType.hpp","ArrayType.hpp","SequenceType.hpp","MapType.hpp","PairType.hpp","AliasType.hpp"],
 [("for_each_instance / for_each_type overrides","every *Type.hpp"),("Iterator, MemberIterator","DynamicData.hpp")],
 ["visitor calls, iterator dereferences"])

prop("C13", "Misuse is rejected with an exception and leaves the data unchanged",
 "With exceptions enabled, an access or modification that violates a documented precondition - wrong value type, unknown member, index out of range, bound exceeded, inactive union member, missing key, undeclared enumerator, operation on the wrong kind of type, incompatible assignment or conversion, duplicate member, label, enumerator or parent - throws std::runtime_error. The data, types and modules involved keep exactly the state they had before the call and remain usable.",
 ["inputs","histories","fault_sequences"], "all misuses at all positions of all types, at any point of a history",
 "Tests provoke a few rejections and almost never look at the state afterwards.",
 ["Assert.hpp","DynamicData.hpp","AggregationType.hpp","UnionType.hpp","EnumeratedType.hpp","EnumerationType.hpp","MapInstance.hpp","SequenceInstance.hpp"],
 [("xtypes_assert preconditions","Assert.hpp and all public methods")],
 ["exception type, whole-tree read before/after"])

prop("C14", "DynamicData operators compute what C++ computes on the same values",
 "For every primitive type and pair of operand values for which the C++ operation is defined, each unary, binary, comparison, logical and compound-assignment operator yields the value and result type obtained by applying the C++ operator to values of that type and converting back to it. Operands are unchanged except the left side of assignments and increments, and operators that make no sense for the type are rejected. (As the existing tests pin, the postfix increment and decrement return the new value.)",
 ["inputs"], "all operators, all primitive operand types, all operand values",
 "The operators are macro-generated per kind; tests try one or two values per type.",
 ["DynamicDataImpl.hpp","DynamicData.hpp"],
 [("kind switches","DYNAMIC_DATA_*_SWITCH macros in DynamicDataImpl.hpp")],
 ["result value and type, operand values after"])

prop("C15", "UTF-8/UTF-16 conversion is lossless, total and terminates",
 "Converting well-formed UTF-8 to UTF-16 or back yields exactly the standard encoding of the same code points, for every length and for every code point including supplementary ones, and converting there and back is the identity. Input that is not well formed, wherever the defect lies including truncation at the end, is rejected with an exception; conversion never loops or produces text that is not the encoding of its input.",
 ["inputs"], "all strings, in particular lengths around internal buffer sizes with multi-unit characters at every offset, and all truncations/corruptions",
 "Tests convert a few short samples; buffer-boundary and truncation behaviour depends on length and offset.",
 ["StringConversion.hpp","DynamicDataImpl.hpp"],
 [("chunked codecvt loop","code_conversion_tool")],
 ["returned string or exception, within a bounded output size"])

prop("C16", "Rendering and casting data reproduce its values",
 "The textual rendering of any data whose texts are well formed contains one line per node of its tree, in traversal order, indented by depth and labelled with the member name or index and type, and each leaf line shows its value (text as UTF-8, collections their size, floating point numbers with the default precision of streams). Casting a primitive or enumeration leaf to another arithmetic type equals the C++ conversion of its value, and casting to string equals its standard decimal rendering, or the text itself for strings.",
 ["inputs"], "all data trees renderable by the printer; all source kinds, target types and values of casts",
 "Tests print a few structures and compare nothing; casts are sampled once per type.",
 ["DynamicDataImpl.hpp","DynamicData.hpp"],
 [("to_string visitor","ReadableDynamicDataRef::to_string"),("_cast kind switch","ReadableDynamicDataRef::_cast, cast<std::string>")],
 ["to_string(), operator<<, cast<T>()"])

prop("C17", "Module lookups resolve scoped names as declared",
 "A definition added to a module is found under its name from that module and under every qualified path (relative or starting with ::) that leads to it, and has_X and X agree. A name resolves to the innermost declaration visible from the scope of the lookup, a name that denotes nothing is reported absent and never changes the module, and a second definition of the same kind with the same name in the same module is refused without altering the first. Every definition reports its true scope. An enumerator is visible as a constant of the module of its enumeration until another constant replaces it.",
 ["inputs","histories"], "all module trees, definition kinds, and lookup names from every scope, including same names in different scopes and absent names",
 "Scope resolution depends on the tree and the name's shape; tests use two or three fixed trees.",
 ["idl/Module.hpp","idl/Type.hpp"],
 [("scope resolution","Module::resolve_scope/PairResolve in idl/Module.hpp"),("definition maps","Module: structure/union_switch/enum_32/create_alias/create_constant/create_submodule")],
 ["has_*(), lookups, type(), scope(), iteration"])

prop("C18", "Generated IDL declares every type completely and before its first use",
 "IDL text generated from a structure or from the module tree that contains all the named types it uses declares every one of them, each exactly once per scope, with a declaration that precedes every use. Reading the text under IDL rules yields the same structures (members, order, types, bounds, dimensions, inheritance), unions (discriminator, labels, default), enumerations (enumerators in the order of their values), aliases, constants (value and type; literals are escaped and floating point values read back exactly) and module nesting as the original.",
 ["inputs","programs"], "all module contents and nested types, including dependencies across modules and declaration orders unrelated to the dependency order",
 "Ordering and completeness depend on the dependency graph; the generator tests cover few graphs and no test compares the text with the types.",
 ["idl/generator.hpp","idl/generator_deptree.hpp","idl/Module.hpp"],
 [("dependency tree and topological ordering","generator_deptree.hpp"),("textual templates","generator.hpp")],
 ["the generated text, read back by an independent IDL reader"])

prop("C19", "Distinct data are independent across threads; shared const access is safe",
 "Threads that each create, modify and destroy their own data of shared types, and threads that concurrently only read the same data (values, members, elements, keys, traversal, comparison, hash, printing, copying), never race and observe exactly the values a sequential execution observes. No library call on one object has hidden shared mutable state that makes calls on unrelated objects interfere.",
 ["schedules","histories"], "all interleavings of per-thread histories and concurrent readers over shared types, modules and data",
 "The tests are single threaded; races depend on schedules.",
 ["DynamicData.hpp","UnionType.hpp","PrimitiveType.hpp","DynamicType.hpp","MapInstance.hpp","StringConversion.hpp","idl/Module.hpp"],
 [("value-type design without shared state","DynamicType::Ptr, DynamicData.hpp"),("const access paths","ReadableDynamicDataRef")],
 ["ThreadSanitizer reports, per-thread results"])

prop("C20", "Data memory is one block of the type's size and is fully released",
 "The memory size of a structure is the sum of its members' sizes including inherited ones, of an array its dimension times its element's size, of a union its discriminator plus its largest member, of an alias its target's size. Creating data of a type built only from primitives, enumerations, structures, arrays and aliases performs exactly one data allocation of exactly that size, reads and writes to existing locations allocate nothing for such types, and destroying the data releases it.",
 ["inputs","programs"], "all types and histories of creation, access and destruction",
 "Allocation behaviour is not observed by any test.",
 ["DynamicData.hpp","StructType.hpp","ArrayType.hpp","UnionType.hpp","AliasType.hpp","PairType.hpp"],
 [("memory_size overrides","every *Type.hpp"),("single buffer","DynamicData(const DynamicType&)")],
 ["memory_size(), allocation hooks"])

prop("C21", "Enumerations hold only declared values, with stable name/value mapping",
 "Enumerators added without a value get the successor of the last one added (0 for the first), explicit values must be greater than the last one, and a name is never redefined; the mapping between names and values is exactly the declared one in every copy of the type. Enumeration data of any width accepts exactly the declared values, by any writing path, keeps its former value when an undeclared one is refused, and reads back the value stored.",
 ["inputs","histories"], "all widths, enumerator lists (implicit and explicit), values to write, and copies of enumeration types at any point",
 "Tests add three enumerators to a 32-bit enumeration.",
 ["EnumerationType.hpp","EnumeratedType.hpp","DynamicData.hpp"],
 [("auto-increment and ordering","EnumerationType::add_enumerator"),("allowed-value check","WritableDynamicDataRef::value")],
 ["enumerators(), value(), enumerator(), has_enumerator(), data reads"])

prop("C22", "Type introspection reports exactly what was declared",
 "A structure or union reports its members in declaration order, inherited ones first, each with the declared name, type, id, key and optional marks, and lookups by name and by position agree; has_parent/parent, bounds, dimensions, element, key and alias targets, labels and default are as declared. Kind predicates and names are consistent, and all of this also holds for copies of the type and for the same type nested in others.",
 ["programs","inputs"], "all type-building programs and all copies and nestings of the resulting types",
 "Introspection is checked by tests for one struct and one union; copies and nestings are not.",
 ["AggregationType.hpp","StructType.hpp","UnionType.hpp","Member.hpp","ArrayType.hpp","CollectionType.hpp","MutableCollectionType.hpp","AliasType.hpp","TypeKind.hpp"],
 [("member table and index","AggregationType::insert_member"),("label table","UnionType::add_case_member"),("type kinds","TypeKind.hpp")],
 ["members(), member(), has_member(), get_labels(), bounds(), dimension(), kind predicates"])

prop("C23", "Parsing IDL yields exactly the declared modules, types and constants",
 "Parsing any text of the supported IDL yields the modules, structures (members in order with their types and dimensions, inheritance), unions (discriminator, labels, default), enumerations, aliases (every declarator) and constants that the text declares, in the scopes where it declares them and with every name resolved by the rules of IDL (also when a structure or union is declared before its definition), and nothing is lost or altered. The values of constant expressions, literals (escape sequences, any base, wide and narrow), labels and sizes are those of the text. The result does not depend on the layout, comments or annotations, nor on whether the text is given at once, in several calls with the same context, from a file, or through the preprocessor with included files of any name.",
 ["inputs","programs"], "all documents of the grammar the parser supports, all layouts, all ways to give them to the parser",
 "The meaning of a document depends on the combination of its constructs and on scopes; the parser tests use a few fixed documents and are not built where its dependency is missing.",
 ["idl/parser.hpp","idl/grammar.hpp","idl/idl.hpp","idl/Module.hpp"],
 [("grammar","idl/grammar.hpp"),("construction of types from the syntax tree","Parser::build_on_ast and *_dcl in idl/parser.hpp"),("constant expressions","Parser::solve_expr, get_literal_value"),("preprocessor","Preprocessor in idl/parser.hpp")],
 ["Context::module(), get_all_types(), Module lookups, type introspection, constants"])

prop("C24", "What is parsed, generated and parsed again describes the same",
 "IDL generated from the module of a parsed document (whose modules do not need definitions of each other in turn) is itself accepted by the parser and yields the same modules, types and constants, in the same scopes, as the document. Generating IDL from that result gives the same text again.",
 ["inputs","programs"], "all documents of the supported grammar whose modules can be written in one piece each",
 "Whether the text is complete, ordered and resolves to the same definitions depends on names and dependencies; the round trip test has one document.",
 ["idl/parser.hpp","idl/grammar.hpp","idl/generator.hpp","idl/generator_deptree.hpp","idl/Module.hpp"],
 [("parser","idl/parser.hpp"),("generator and its dependency tree","idl/generator.hpp, idl/generator_deptree.hpp")],
 ["the generated text; the module parsed from it"])

prop("C25", "Hostile or invalid IDL is refused without damage",
 "No text makes the parser read or write memory out of place, overflow, loop forever or end the process. A text that is not valid IDL, refers to something unknown, has sizes, labels or integer literals that don't fit where they are used, or gives a type or constant a name that its scope already has is reported by an exception or by the context, and never affects what other contexts have or how later texts are parsed. Contexts, their copies and their modules stay usable in any order of parsing and destruction, and the text given to the preprocessor is never interpreted by the shell.",
 ["inputs","histories"], "all texts, valid or not, and all orders in which contexts are used, copied and destroyed",
 "The space of invalid texts is unbounded; the tests contain some ten refused definitions.",
 ["idl/parser.hpp","idl/grammar.hpp","idl/idl.hpp"],
 [("error handling","Parser::parse, exceptions and Context::log in idl/parser.hpp"),("shared parser instance","Parser::instance, Context"),("preprocessor command","Preprocessor::exec in idl/parser.hpp")],
 ["ASan/UBSan reports, exceptions, Context::success and log, the module parsed afterwards"])

prop("C26", "The options of the IDL parser and its log mean what is documented",
 "Each option of a parsing context changes what it is documented to change and nothing else: keywords are accepted as names only with allow_keyword_identifiers and, in other letter case, refused as names when the case is ignored; with ignore_redefinition the first definition remains and everything else is as if the others were not there; the selected preprocessor is the one that is executed; a file and its preprocessed text give the same module. The log of a context has what happened, whatever the level: a text accepted without complaints leaves no error in it, each exception of the parser is in it as an error, each syntax error is told, a level keeps exactly the entries of that severity or a worse one, in their order, log(level, strict) selects exactly those, and print_log prints exactly what is kept.",
 ["inputs","configurations"], "all texts and all combinations of the options of the context",
 "Options interact with the whole grammar and the tests use each of them with one text; no test looks at the log at all.",
 ["idl/parser.hpp","idl/idl.hpp"],
 [("options","Context in idl/parser.hpp: ignore_case, allow_keyword_identifiers, ignore_redefinition, clear, preprocessor_exec, strategy"),("names that are keywords","Parser::is_token, Parser::resolve_identifier"),("log","log::LogContext in idl/parser.hpp")],
 ["Context::module, Context::success, Context::log, std::cout while print_log is enabled"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
