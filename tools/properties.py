#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one place to keep the two in step."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "src/demangler.rs"
N = "src/nodes/mod.rs"
def m(name, where): return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=""):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, state=state or [], observe_at=observe or ["the result of undname::demangle and undname::demangle_into"], hook_needed=None),
        _note=note))

prop("C01", "Every input is answered: no panic, abort, overflow, hang or undefined behaviour",
 "For every string and every set of flags a call returns either valid UTF-8 text or an error; it never panics, overflows the stack (2 MiB in an optimised build, 8 MiB in an unoptimised one), trips an arithmetic or unsafe-precondition check, aborts or hangs.",
 ["inputs", "configurations"], "every string, however long or deeply nested, under every set of flags, on the default stack sizes",
 "The tests try about 1300 well-formed names and a few dozen malformed ones; totality is a claim about every string, including truncations, splices and arbitrary nesting.",
 [D, "src/mangled_string.rs", "src/cache.rs", "src/alloc.rs", "src/nodes"],
 [m("nesting limit", f"{D}: nested(), MAX_NESTING"), m("checked arithmetic on numbers and offsets", f"{D}: demangle_number, demangle_signed"), m("bounded tables for names and parameters", f"{D}: Backrefs"), m("unchecked table look-ups guarded by matches", f"{D}: demangle_char_literal, translate_intrinsic_function_code")],
 note="Decides totality over every text of bounded length, every bounded continuation of 44 grammar prefixes, every single edit, truncation and splice of the catalogued names, and nesting/repetition towers; run with overflow checks, debug assertions and the standard library's unsafe-precondition checks on, in a supervised process that pins crashes and hangs on an input.")

prop("C02", "The type of a variable is written exactly as declared",
 "For every well-formed encoding of a variable, of any storage class, the text is the C++ declaration of that variable: every base type, qualifier, pointer, reference, member pointer, array, function type and user-defined type it was declared with, correctly nested and parenthesised, and with tokens never run together.",
 ["inputs"], "every variable whose type is built from the type grammar, of any depth",
 "The tests sample some types; declarators compose without bound, and the parentheses, spaces and qualifiers depend on neighbours at every level.",
 [D, N, "src/nodes"], [m("types", f"{D}: demangle_type, demangle_pointer_type, demangle_array_type, demangle_member_pointer_type, demangle_custom_type"), m("declarator printing before and after the name", f"{N}: output_pre, output_post of the type nodes")],
 note="Every declarator chain to a depth of 4 (thorough 5) over a complete set of layers, and every derivation of the type grammar within a bounded number of deviations, spelled by the model's mangler and compared byte for byte with the model's printer.")

prop("C03", "Function signatures and thunks are written exactly as declared",
 "For every well-formed encoding of a function the text gives its access, static, virtual, extern \"C\" and thunk-ness, calling convention, return type, parameters, variadic ellipsis, this-qualifiers, ref-qualifier and exception specification, all as encoded and in C++ order, with thunk adjustments as encoded.",
 ["inputs"], "every function class, convention, qualifier set, result and parameter list, of any length and nesting",
 "The product of classes, conventions, qualifiers, and parameter lists has millions of members; the tests try some hundred.",
 [D, N], [m("function classes and conventions", f"{D}: demangle_function_class, demangle_calling_convention"), m("signatures", f"{D}: demangle_function_type, demangle_function_parameter_list, demangle_function_encoding"), m("printing", f"{N}: FunctionSignatureNode, ThunkSignatureNode, FunctionSymbolNode")],
 note="The full product of classes, thunks, conventions, qualifiers, results and parameters (312 thousand functions), every derivation of signatures and thunks within bounds, and lists of 0 to 64 parameters.")

prop("C04", "Qualified, nested, local, anonymous and template names are written in full",
 "For every well-formed qualified name the text lists every enclosing scope, outermost first, joined by '::', writing namespaces, classes, template instantiations, anonymous namespaces and numbered local scopes (with the whole enclosing symbol) each in its own way, no part lost, repeated or reordered.",
 ["inputs"], "every chain of scopes of any kinds, around symbols and around types, to any depth",
 "Scopes nest and mix without bound and interact with the memory of names; tests try only a few chains.",
 [D, N], [m("scope chains", f"{D}: demangle_name_scope_chain, demangle_name_scope_piece"), m("local scopes", f"{D}: demangle_locally_scoped_name_piece"), m("anonymous namespaces", f"{D}: demangle_anonymous_namespace_name"), m("template instantiations", f"{D}: demangle_template_instantiation_name")],
 note="Every chain of up to 4 (5) scopes of nine kinds around six kinds of symbol, every derivation of names within bounds, long chains and nested templates.")

prop("C05", "Back-references always mean what was first written",
 "Within one symbol, a digit in place of a name means the n-th distinct name so far and a digit in place of a parameter the n-th remembered parameter type; each list holds the first ten, template argument lists have lists of names of their own, and a digit that refers to nothing is an error. So a name spelled with back-references reads exactly as the same name spelled out.",
 ["inputs", "histories"], "every sequence of names and types, every way of abbreviating it, every digit",
 "The meaning of a digit depends on everything before it; tests cover few histories, and hardly the tenth entry, re-entry of contexts, or wrong digits.",
 [D], [m("memory of names", f"{D}: memorize_string, memorize_name, demangle_back_ref_name"), m("memory of parameters", f"{D}: demangle_function_parameter_list"), m("contexts of templates", f"{D}: demangle_unguarded_template_instantiation_name")],
 state=[{"name": "backrefs", "meaning": "names and parameter types remembered so far, at most ten of each", "where": f"{D}: Backrefs"}],
 note="Every history of up to 13 names (parameters) followed by any three more, every combination of contexts that see or don't see each other's names, every subset of references spelled out within bounds, every digit replaced by every other.")

prop("C06", "Operators, structors, conversions and literal operators are named correctly",
 "Every operator code yields its own C++ operator and no other; constructors and destructors take the name of the class around them, template arguments and all; conversion operators are named by the type they return, and literal operators by their suffix; what can't be a code is refused.",
 ["inputs"], "every code of every length, alone, as template, in any scope, of any type",
 "Of a table of some 90 codes times its uses, tests try each code in a place or two.",
 [D, N], [m("operator codes", f"{D}: demangle_function_identifier_code, translate_intrinsic_function_code"), m("structors", f"{D}: demangle_structor_identifier, demangle_fully_qualified_symbol_name"), m("conversions", f"{D}: demangle_conversion_operator_identifier"), m("literal operators", f"{D}: demangle_literal_operator_identifier")],
 note="All operators in all forms, all codes of one to three characters (known and unknown), and every derivation of structors, conversions and literal operators within bounds.")

prop("C07", "Compiler-generated symbols are recognised and described correctly",
 "Virtual function and base tables, RTTI descriptors, type descriptors and their names, virtual-call thunks, static guards, dynamic initialisers and atexit destructors, string-hash and MD5 names are each described as what they are, with the class, target, offsets, qualifiers and variable that are encoded.",
 ["inputs"], "every kind of compiler-generated symbol, for every name, type and number that can be part of it",
 "Each kind has its own grammar; tests have a handful of each.",
 [D, N], [m("special intrinsics", f"{D}: demangle_special_intrinsic, demangle_special_table_symbol_node, demangle_untyped_variable, demangle_rtti_base_class_descriptor_node, demangle_local_static_guard, demangle_init_fini_stub, demangle_vcall_thunk_node"), m("type descriptors", f"{D}: demangle_typeinfo_name"), m("MD5 names", f"{D}: demangle_md5_name")],
 note="Every derivation of thirteen kinds of symbol within bounds, and every short text over the grammar's letters after each prefix.")

prop("C08", "Template arguments are written exactly as encoded",
 "Type, array-type, alias, integer, pointer, reference, member-pointer, auto and pack arguments each read as encoded, in order, separated by ', ' with empty packs adding nothing, each list within its own pair of angle brackets.",
 ["inputs"], "every sequence of template arguments of any kinds, nested to any depth",
 "Arguments of some twenty kinds combine in sequence and by nesting; tests cover few pairs.",
 [D, N], [m("argument lists", f"{D}: demangle_template_parameter_list"), m("references to symbols", f"{N}: TemplateParameterReferenceNode"), m("lists", f"{N}: NodeArrayNode")],
 note="Every sequence of up to 3 (4) arguments of 21 kinds, every derivation within bounds, every short text around the codes.")

prop("C09", "Every encoded number reads as its value",
 "Wherever a number can stand (array bounds, template arguments, offsets in thunks, descriptors and member pointers, discriminators of scopes and guards) its decimal, hexadecimal-letter, zero-padded and negative forms read as exactly the value encoded, up to 64 bits (offsets in thunks: as the 32 bits they have), and larger ones, numbers out of the range of their place or not terminated are refused.",
 ["inputs"], "every 64-bit value and sign in every spelling and place",
 "Tests use small numbers; limits, wrap-around, negative zero and the largest magnitudes go untried in most places.",
 [D], [m("numbers", f"{D}: demangle_number, demangle_unsigned, demangle_signed"), m("places", f"{D}: demangle_array_type, demangle_template_parameter_list, demangle_rtti_base_class_descriptor_node, demangle_function_encoding")],
 note="Every number below 5000 (70000) and some thousand around every power of two and one-digit pattern of 64 bits, of both signs, in five spellings, in some thirty places, and every short spelling over the letters of numbers.")

prop("C10", "String literals are decoded, escaped and classified correctly",
 "The symbol of a string literal shows its characters decoded from every escape form, of 1, 2 or 4 bytes each, with the prefix (none, L, u, U) its bytes call for, C escapes for control and special characters, hexadecimal for the rest, the terminator dropped and '...' exactly if it was cut short.",
 ["inputs"], "every content and length of all four character widths, and every spelling of every byte",
 "256 bytes times escape forms times widths times lengths: tests try some ten strings.",
 [D], [m("string literals", f"{D}: demangle_string_literal, guess_char_byte_size, decode_multi_byte_char, output_escaped_char"), m("characters", f"{D}: demangle_char_literal, demangle_wchar_literal")],
 note="Every byte at every position near the interesting lengths, every 16-bit unit, every length to 300 (3000), every amount and several arrangements of zeros, every short spelling of characters.")

prop("C11", "Flags remove exactly their part of the text, and nothing else",
 "Each flag removes (or, for the name-only flag, keeps) exactly the part of the text it documents, at every level of nesting, and leaves tidy text behind; flags combine independently, aliases are equal, and no flag changes whether a name is accepted or what its back-references mean.",
 ["inputs", "configurations"], "every well-formed name under all 1024 sets of flags",
 "The tests check one or two names per flag and hardly any combination; there are 1024 sets.",
 ["src/lib.rs", D, N], [m("flags", "src/lib.rs: Flags"), m("printing by flags", f"{N}: output_pre, output_post"), m("keys of the memory of names", f"{D}: memorize_identifier")],
 note="All 1024 sets on every symbol within 2 (3) deviations, all single flags, pairs and complements within 3 (4), and acceptance under 14 sets over every short text.")

prop("C12", "A text is accepted if and only if it is a well-formed name",
 "Texts that the grammar does not derive are refused, texts that it does are accepted and read as the grammar says: a wrong, missing or superfluous character is never read over or made up for, and never changes the meaning of what precedes it.",
 ["inputs"], "every string; in particular every string near a well-formed name",
 "The tests have 30-odd malformed names; there are infinitely many, and the nearest ones matter most.",
 [D, "src/mangled_string.rs"], [m("the parser's alternatives and their errors", f"{D}: all of demangle_*"), m("consuming input", "src/mangled_string.rs")],
 note="Every text of up to 3 (4) characters after 52 prefixes with all endings, and every single edit of 3000 generated and 1286 real names, each judged by an independently written reader of the grammar; texts whose reading is left open by the grammar (counted as unspecified) are only required not to panic.")

prop("C13", "The buffer handed in holds the result, or nothing, and keeps its memory",
 "Writing into a caller's buffer gives the same as returning a string, whatever the buffer held and had been used for; it is emptied when there is an error, and its allocation is never given up.",
 ["histories", "inputs"], "every sequence of successful and failing calls on one buffer, of any initial content and capacity",
 "It is a claim about histories: what a call leaves behind for the next, in particular on errors at any point; tests use fresh buffers.",
 ["src/lib.rs", D], [m("hand-over of the buffer", f"{D}: Demangler::parse_into / output into the caller's String"), m("wrapper", "src/lib.rs: demangle, demangle_into")],
 note="Every history of up to 3 (4) calls out of 15 from 5 initial buffers, and every prefix of every catalogued name by both ways of calling.")

prop("C14", "Resources are bounded, and reasonable names are not refused",
 "Whatever the input, the text stays below 1 MiB (what would be longer is an error), memory below 2 GiB (or, for inputs above 64 MiB, 32 bytes for each of theirs) and a call below 10 s of processor time, which grows no faster than the input's length does where what repeats isn't nested; names of reasonable size (hundreds of parameters, scopes or arguments, 64 levels of nesting) are read in full.",
 ["inputs"], "every input, in particular ones made to expand exponentially, and every length around the limits",
 "The tests have two malicious names; a bound is a claim about all of them, and its exactness about every length.",
 [D, "src/cache.rs"], [m("limit on what is written", f"{D}: the writer's length check"), m("limit on nodes", "src/cache.rs: NodeCache::intern"), m("constant-time last_char", f"{D}: last_char")],
 note="Output lengths around the limit reached in six ways, over 400 constructions of exponential or large growth with metered memory and processor time, the time of everything that can be repeated as it doubles in length, and every size up to 300 of what must be accepted.")

prop("C15", "A call's result depends on nothing but its input and flags",
 "The result of a call is a function of its arguments alone: no other call, earlier or at the same time, successful or not, on the same thread or another, changes it, and neither does being the first of its thread or process.",
 ["histories", "schedules"], "every sequence of calls, and every interleaving of calls on several threads",
 "Tests make each call once, in any order; a dependence shows only in particular pairs or longer histories, or when a thread is stopped at a particular instruction while another one goes on.",
 ["src/lib.rs", D, "src/cache.rs"], [m("all state is created per call", f"{D}: Demangler::new"), m("no statics", "src")],
 note="Every ordered pair of about 780 names under 4 x 4 flags and two ways to call, every ordered triple and quadruple of parts of them, every triple of 13 sets of flags on each, each after calls that strain the limits, 300 times over, and as the first and second call of a new thread; schedules of two calls on two threads, switched between at single machine instructions: a whole call between every two instructions of another, the two in step, every switch point of some, and two switches; each answer compared with that of the first call of a new process.")

prop("C16", "Names in any script pass through unchanged",
 "Identifiers made of any Unicode characters come out exactly as they went in, in every place a name can be and through back-references, and never unbalance, truncate, glue or otherwise disturb the text around them.",
 ["inputs"], "every Unicode scalar value in every place, and runs of them of every length",
 "There are 1.1 million characters; tests have one or two names that aren't ASCII.",
 [D, "src/mangled_string.rs"], [m("text by characters, not bytes", "src/mangled_string.rs"), m("separation of words", f"{D}: last_char and {N}")],
 note="Every scalar value but '@' in up to a dozen places, the catalogue renamed in eleven scripts, long names at every alignment.")

prop("C17", "The command-line tool maps each option to its flag and reports errors",
 "The example tool prints the name it was given and, below it, the text the library gives under exactly the flags its options name, or an error line if it is refused, for every combination and order of options.",
 ["inputs", "configurations"], "all 1024 sets of options",
 "The tool has no tests.",
 ["examples/undecorate_name.rs"], [m("options to flags", "examples/undecorate_name.rs: main")],
 observe=["standard output and exit status of the built tool"],
 note="All 1024 sets of options with the name at varying places, and every catalogued name; compared with the model's text.")

prop("C18", "What follows a symbol is ignored, but a type's name must end where it ends",
 "Once a symbol is complete, what follows changes neither acceptance nor text; names of types and type descriptors, on the contrary, must be read to the end, and nothing short of the end of a symbol is taken for complete.",
 ["inputs"], "every well-formed symbol followed by every text",
 "The tests hardly ever append anything.",
 [D], [m("consumption", f"{D}: demangle_symbol, demangle_typeinfo_name, demangle_special_intrinsic")],
 note="Every catalogued name followed by every one and two characters and by every other name, and every prefix of every real name.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")

TECH = "explicit-state model checking: exhaustive bounded exploration of a model of the name grammar, every trace replayed against the code"
tech = {
 "C01": "stateless model checking: exhaustive bounded exploration of inputs on the real code under a crash and hang monitor",
 "C13": "model checking: exhaustive enumeration of call histories on one buffer, each step compared with the model",
 "C14": "model checking: exhaustive enumeration of sizes and growth patterns, with the model as oracle and metered resources",
 "C15": "model checking: exhaustive enumeration of call histories (all pairs; triples and quadruples of a part) and of schedules of two concurrent calls under a controlled scheduler that switches threads at machine instructions; each answer compared with that of the first call of a new process",
 "C17": "model checking: exhaustive enumeration of option sets on the built tool, with the model as oracle",
}
man = dict(version=1, setup_cmd="sh build.sh debug cli", checks=[], not_applicable=[],
    notes="One checker (harness/, built by build.sh against /repo's working tree) decides all properties; see DESIGN.md. No hooks in /repo. known-findings.txt lists the defects found, all repaired.")
for p in P:
    i = p["id"]
    man["checks"].append(dict(property=i, quick_cmd=f"sh check.sh {i} quick", thorough_cmd=f"sh check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=tech.get(i, TECH), level="model_checking",
        level_note=p["_note"] + " Nothing is claimed beyond the bounds, which the evidence file states for each space; trusted: the model (written from the grammar, cross-checked against llvm-undname at development time) and the harness."))
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
