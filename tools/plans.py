"""Which units and workloads decide which property."""
H = ["model", "w_hist"]
RULE_HIST = "Random types (up to 3 levels of nesting, every kind) and random histories of operations on a pool of live objects; after every operation every live object is read back completely and compared with the reference model."

LARGE = " Collections, texts, maps and declarations of more than 256, 32768, 65536 and 131072 elements, and types nested up to 60 deep, whose content is a function of the place."

COLLIDE = " Maps whose keys are made to share their hashes."

ALL_UNITS = ["model", "typecheck", "w_hist", "w_type", "w_mem", "w_eq", "w_conv", "w_trav", "w_op", "w_utf", "w_str", "w_mod", "w_idl", "w_parse", "w_huge", "w_large", "w_collide", "w_probe"]

PLANS = {
    "C01": {"units": ALL_UNITS, "kinds": ["crash", "leak", "hang"], "probes": ["c01_"],
            "plan": {"hist_mixed": 12000, "hist_seq": 4000, "hist_map": 4000, "hist_union": 4000, "hist_value": 6000, "hist_misuse": 6000, "hist_text": 4000,
                     "conv_values": 16000, "conv_rejected": 16000, "conv_text": 2666, "compat_pairs": 4000, "eq_types": 4000, "type_values": 4000, "type_intro": 2000, "type_labels": 2000, "enum_prog": 2000,
                     "trav_data": 4000, "trav_types": 2000, "trav_iter": 3000, "op_program": 8000, "op_others": 2000, "utf_texts": 6000, "utf_damaged": 12000, "utf_data": 2000,
                     "str_render": 4000, "str_casts": 4000, "str_refused": 2000, "mod_program": 1200, "idl_modules": 6000, "idl_struct": 2000,
                     "mem_sizes": 2000, "mem_flat": 2000, "eq_pairs": 4000, "eq_keys": 4000, "huge_resize": 2000, "huge_bounded": 2000, "large_sequence": 60, "large_array": 60, "large_map": 40, "large_text": 100, "large_struct": 40, "large_enum": 40, "large_depth": 600, "map_collide": 2000},
            "extra": [{"flavor": "memcheck", "units": ["model", "typecheck", "w_hist", "w_conv", "w_trav", "w_type", "w_str", "w_eq"],
                       "plan": {"hist_mixed": 960, "hist_value": 960, "hist_misuse": 640, "conv_values": 1920, "conv_rejected": 640, "trav_data": 640, "type_values": 640, "eq_pairs": 960, "str_render": 640}}],
            "rule": "The workloads of every other property, executed under AddressSanitizer (heap, stack and global overflows, use after free, double free, use after return), UndefinedBehaviorSanitizer and with the bytes in use compared before and after every case; a part of them again under memcheck, which also sees reads of memory never written.",
            "must_see": ["reads.trees", "conversions.checked", "nodes.visited", "rejections", "texts.refused", "declarations.compared", "memcheck.reads.trees"]},
    "C19": {"units": ["model", "typecheck", "w_hist", "w_conc"], "flavor": "tsan",
            "plan": {"conc_own": 4000, "conc_read": 16000, "conc_types": 12000, "conc_modules": 12000, "conc_strings": 4000},
            "rule": "Two to four threads that own their data of shared types (random histories against the model), or read the same data, types and modules, with random pauses; every answer is compared with the sequential one and ThreadSanitizer watches every access. Distinct: generated structure and the order in which the threads took their steps.",
            "must_see": ["cases.interleaved", "thread.switches", "conc.read-tree", "conc.hash", "conc.render", "conc.copy", "conc.convert", "conc.compose", "conc.compatible", "conc.lookup", "conc.text", "reads.trees"]},
    "C02": {"units": H + ["w_large"], "plan": {"hist_leaf": 12000, "hist_mixed": 4000, "large_struct": 120, "large_array": 80, "large_depth": 1000}, "rule": RULE_HIST + LARGE, "must_see": ["writes.leaf", "writes.iterator", "reads.trees", "large.members", "large.elements"]},
    "C03": {"units": H + ["w_huge", "w_large"], "plan": {"hist_seq": 12000, "hist_mixed": 4000, "large_sequence": 240, "large_array": 80, "huge_resize": 4000, "huge_bounded": 2000}, "rule": RULE_HIST + " Requests of more memory than 32 bits can count, under an allocator that refuses them and notes what was asked." + LARGE, "must_see": ["seq.ops", "reads.trees", "huge.refused", "large.elements", "large.vectors"]},
    "C04": {"units": H + ["w_large", "w_collide"], "plan": {"hist_map": 12000, "hist_mixed": 4000, "large_map": 160, "map_collide": 12000}, "rule": RULE_HIST + LARGE + COLLIDE, "must_see": ["map.ops", "reads.trees", "large.keys", "collide.lookups"]},
    "C05": {"units": H + ["w_conv", "w_large"], "plan": {"hist_text": 12000, "hist_mixed": 4000, "conv_text": 8000, "large_text": 400}, "rule": RULE_HIST + " Conversions between types that differ in the bounds of their texts." + LARGE, "must_see": ["writes.leaf", "reads.trees", "conversions.checked", "large.texts"]},
    "C06": {"units": H + ["w_probe"], "plan": {"hist_union": 12000, "hist_mixed": 4000}, "rule": RULE_HIST, "must_see": ["union.ops", "reads.trees"]},
    "C07": {"units": H + ["w_probe", "w_large"], "plan": {"hist_value": 12000, "hist_mixed": 4000, "large_sequence": 80, "large_map": 30, "large_depth": 1000}, "rule": RULE_HIST + LARGE, "must_see": ["op.copy", "op.move", "op.assign", "op.self-assign", "reads.trees"]},
    "C08": {"units": ["model", "w_eq", "w_conv", "w_hist", "w_collide", "w_large"], "plan": {"map_collide": 6000, "large_struct": 40, "eq_pairs": 24000, "eq_keys": 16000, "eq_parts": 24000, "eq_types": 12000, "hist_mixed": 2000},
            "rule": "Pairs of data whose contents are equal by construction (reached through different histories) or differ in one random place, and pairs of data of different types (perhaps with the same name); ==, != and hash() are compared with the equality of the reference contents, and every stored key is looked up." + COLLIDE,
            "must_see": ["pairs.equal", "pairs.different", "types.other-layout", "types.same-layout", "hashes.compared", "keys.probed", "keys.looked-up"]},
    "C09": {"units": ["model", "w_conv", "w_hist"], "plan": {"compat_pairs": 40000},
            "rule": "Random types and types derived from them by random edits (primitives, bounds, names, members, labels, aliases, one-member structures, inheritance); is_compatible is read in both directions, through copies, aliases and containers, and compared with a reference comparison of the declarations.",
            "must_see": ["consistencies.read"]},
    "C10": {"units": ["model", "w_conv", "w_hist"], "plan": {"conv_values": 40000, "conv_rejected": 8000},
            "rule": "Random data converted to types derived from theirs by random edits; the converted data is read back completely and compared with a reference conversion, the source must be unchanged, the result independent and usable; incompatible types must be refused.",
            "must_see": ["conversions.checked", "conversions.rejected"]},
    "C12": {"units": ["model", "typecheck", "w_trav", "w_large"], "plan": {"trav_data": 20000, "trav_types": 12000, "trav_iter": 10000, "large_sequence": 40, "large_map": 24, "large_struct": 40, "large_depth": 400},
            "rule": "Random types and data; every visit of for_each, for_each_type and of the iterators, const and writable, stopped anywhere or copied, is compared with a reference walk of the declaration and of the model of the data.",
            "must_see": ["nodes.visited", "visits.stopped", "visitor.writes", "types.visited", "elements.iterated", "members.iterated", "union-members.iterated", "iterator.writes"]},
    "C13": {"units": H + [u for u in ["typecheck", "w_type", "w_mod"] if u not in H], "plan": {"hist_misuse": 10000, "hist_mixed": 3000, "type_misuse": 16000, "mod_program": 600}, "rule": RULE_HIST + " Declarations that must be refused (duplicate members, labels, defaults, names and enumerators, lower values, types that cannot discriminate, taken and scoped names in modules) are tried while structures, unions, enumerations and modules are being built, and every answer of the type is compared with its declaration afterwards.", "must_see": ["rejections", "misuse.case", "misuse.data", "misuse.duplicate-member", "misuse.enumerator", "misuse.questions", "misuse.types", "definitions.refused"]},
    "C14": {"units": ["model", "w_op"], "plan": {"op_program": 60000, "op_others": 10000},
            "rule": "Random programs of operators over pools of native values of every primitive type and the data that shadow them (own data, data of alias types, members, elements, the same operand on both sides); every result, its type and every operand are compared with C++ after every step, operators that do not exist or mix types must be refused.",
            "must_see": ["operators.compared", "operators.refused", "operands.checked"]},
    "C15": {"units": ["model", "w_utf"], "plan": {"utf_points": 1088, "utf_texts": 30000, "utf_damaged": 60000, "utf_bytes": 2000, "utf_data": 10000},
            "rule": "Every code point alone and behind prefixes of 0 to 130 characters; random long texts with multi-unit characters on every offset; damaged and truncated texts; all texts of one and two bytes; compared with an independent codec.",
            "must_see": ["texts.converted", "texts.refused"]},
    "C16": {"units": ["model", "typecheck", "w_str"], "plan": {"str_render": 20000, "str_casts": 20000, "str_refused": 8000},
            "rule": "Random types and data, rendered as a whole and in part and read line by line against a reference walk of the model; every primitive and enumeration leaf cast to every arithmetic type and to string.",
            "must_see": ["lines.compared", "parts.rendered", "casts.compared", "casts.refused"]},
    "C17": {"units": ["model", "w_mod"], "plan": {"mod_program": 4000, "mod_names": 1600},
            "rule": "Random programs that grow module trees (same names in different scopes and kinds, replacements, refused and scoped definitions, changes in place); after every step lookups of real, partial, absolute, malformed and absent names from random scopes and periodically every answer of every module are compared with a reference resolver.",
            "must_see": ["lookups.found", "lookups.only-recursive", "lookups.absent", "definitions.accepted", "definitions.refused", "modules.checked"]},
    "C18": {"units": ["model", "w_idl", "w_probe"], "plan": {"idl_modules": 40000, "idl_struct": 8000},
            "rule": "Random module trees of definitions that use each other across modules (inheritance, collections, aliases, constants, equal names in different modules, several ways to refer to a type); the generated text is read back by an independent reader that resolves every name in what is declared so far and every declaration is compared with the type it comes from.",
            "must_see": ["definitions", "texts.read", "declarations.compared", "structures.read", "modules.alone", "names.shared"]},
    "C11": {"units": ["model", "typecheck", "w_type", "w_hist", "w_mod"], "plan": {"type_values": 8000, "hist_value": 2000, "mod_program": 600},
            "rule": "Random types, copied and composed, then the originals renamed, extended or destroyed; every introspection answer of the copies and compositions and the behaviour of existing data is compared with the declaration at the time of use.",
            "must_see": ["types.read", "reads.trees", "pointer.operations", "history.pair-retyped", "modules.checked"]},
    "C20": {"units": ["model", "typecheck", "w_mem", "w_large"], "plan": {"mem_sizes": 24000, "mem_flat": 24000, "large_types": 20000, "large_struct": 40},
            "rule": "Random types; the size of every constructed block as the allocator knows it and the log of every allocation and release are compared with the sizes computed from the declaration.",
            "must_see": ["blocks.checked", "allocations.logged", "accesses.monitored", "large.types"]},
    "C21": {"units": ["model", "typecheck", "w_type", "w_hist", "w_large"], "plan": {"enum_prog": 16000, "large_enum": 200, "hist_leaf": 3000, "hist_mixed": 2000},
            "rule": "Random programs of declarations, refusals, copies and writes over enumerations of every width against a reference mapping.",
            "must_see": ["enum.reads", "enum.accepted", "enum.refused", "rejections", "large.enumerators"]},
    "C23": {"units": ["model", "w_parse"], "plan": {"idl_parse": 40000, "idl_preprocess": 1600},
            "rule": "Random IDL documents (nested and reopened modules, structures, inheritance, unions, enumerations, aliases with several declarators, constants and their expressions, annotations, forward declarations, comments, escaped and awkward identifiers, every way to refer to a name), given at once, in several calls, from files, or through the preprocessor with includes; every type, constant and module found afterwards is compared with what the document describes.",
            "must_see": ["parse.documents", "parse.compared", "parse.module", "parse.module.reopened", "parse.struct", "parse.inherit", "parse.union", "parse.enum", "parse.alias", "parse.const.int", "parse.expr.chain", "parse.expr.minimum", "parse.label.expr", "parse.size.name", "parse.escape", "parse.escape.unicode", "parse.escape.high", "parse.incremental", "parse.ref.escaped", "parse.forward", "parse.forward.union", "preprocess.text", "preprocess.include", "preprocess.file", "preprocess.file_include", "preprocess.temporary", "preprocess.line", "preprocess.leftovers", "parse.size.large", "parse.size.name.uint8_t", "parse.size.name.int16_t", "parse.size.name.uint16_t", "parse.size.name.int32_t", "parse.size.name.uint32_t", "preprocess.include_order", "preprocess.include_other", "preprocess.alone", "preprocess.returned"]},
    "C24": {"units": ["model", "w_parse"], "plan": {"idl_roundtrip": 24000},
            "rule": "Random IDL documents (as in C23, with each module in one piece) are parsed, generated and parsed again; what the second text describes is compared with what the first document describes, and generating once more must give the same text.",
            "must_see": ["roundtrip.documents", "roundtrip.compared", "parse.module", "parse.struct", "parse.union", "parse.enum", "parse.alias", "parse.inherit"]},
    "C25": {"units": ["model", "w_parse"], "plan": {"idl_fuzz": 40000, "idl_reject": 10000, "idl_lifetime": 8000},
            "rule": "Valid documents with their tokens or bytes damaged, soups of tokens, constant expressions of extreme values, documents with one definition that must be refused, and parsings whose contexts are copied, moved, kept and destroyed in any order; nothing may be read or written out of place, the text must be refused by an exception or reported by the context, and a valid document parsed afterwards must give what it describes.",
            "must_see": ["fuzz.tokens", "fuzz.bytes", "fuzz.soup", "fuzz.expressions", "fuzz.accepted", "fuzz.syntax", "fuzz.rejected", "reject.refused", "reject.used", "reject.semicolon", "reject.bracket", "reject.unknown-type", "reject.unknown-inner-type", "reject.repeated-member", "reject.unknown-parent", "reject.unknown-constant", "reject.unknown-size", "reject.repeated-struct", "reject.repeated-label", "reject.negative-size", "reject.unknown-label", "reject.label-range", "reject.constant-range", "reject.keyword-name", "reject.too-big-size", "reject.not-a-size", "reject.repeated-name", "reject.bad-discriminator", "reject.bad-parent", "reject.repeated-union-member", "reject.two-defaults", "reject.repeated-enumerator", "reject.division-by-zero", "reject.keyword.0", "reject.keyword.1", "reject.keyword.2", "reject.keyword.3", "reject.keyword.4", "reject.keyword.5", "reject.keyword.6", "reject.keyword.7", "reject.keyword.8", "reject.keyword.9", "reject.keyword.10", "lifetime.after", "lifetime.copy", "lifetime.destroyed", "lifetime.kept"]},
    "C26": {"units": ["model", "w_parse"], "plan": {"idl_log": 16000, "idl_options": 16000, "idl_failed": 1600},
            "rule": "Valid documents, and documents with an error, are parsed with every level of log: what is kept, selected and printed is compared with what the whole log has, and with how the parsing ended; and documents that need an option (or none) are parsed with and without it: the module must be what the document describes, and texts that need the option are refused without it.",
            "must_see": ["log.entries", "log.valid", "log.errors", "log.syntax", "log.printed", "log.filtered", "log.failed", "log.preprocessed", "log.level0", "log.level1", "log.level2", "log.level3", "options.redefinition", "options.redefinition.kind", "options.keyword", "options.keyword.0", "options.keyword.1", "options.keyword.2", "options.keyword.3", "options.keyword.4", "options.keyword.5", "options.keyword.6", "log.identifier", "options.case", "options.nothing", "options.preprocessor", "options.file", "options.refused"]},
    "C22": {"units": ["model", "typecheck", "w_type", "w_large"], "plan": {"type_intro": 12000, "type_labels": 8000, "type_values": 3000, "large_struct": 60, "large_enum": 100},
            "rule": "Random types (every kind, inheritance, aliases, unions with labels and default); every introspection answer of the type, of its copies and of the type nested in others is compared with the declaration.",
            "must_see": ["types.read", "labels.refused", "labels.malformed", "labels.undeclared", "history.pair-retyped"]},
}
PROPS_META = {}
