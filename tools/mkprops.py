#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["generated header", "cbindgen CLI"], hook_needed=None)))
B = "src/bindgen/"
p("C01", "Emitted type bodies have exactly the memory layout rustc gives the Rust type",
  "For every Rust type that is emitted with a body (repr(C)/packed/align/transparent structs, unions, fieldless enums, and data-carrying enums under any C or primitive repr, including instantiations of generic ones), the C and the C++ declaration have the same size and alignment as the Rust type and every field, variant payload field and tag sits at the same byte offset as in Rust. "
  "This is independent of the C declaration style, cpp_compat, the enum/struct body options and the order of declarations.",
  ["programs", "configurations"], "all programs built from supported layouts x {C type/tag/both, cpp_compat, C++} x layout/enum options",
  "The test suite compares headers of ~150 hand-written inputs textually with stored expectations; only a handful contain a static_assert on an offset, and none compares with rustc.",
  [B+"ir/structure.rs", B+"ir/union.rs", B+"ir/enumeration.rs", B+"ir/repr.rs", B+"ir/ty.rs", B+"ir/field.rs"],
  [("Struct/Union/Enum::load and their writers", B+"ir/structure.rs, union.rs, enumeration.rs"), ("ReprAlign handling and layout macros", B+"ir/repr.rs, language_backend/clike.rs"), ("zero-sized field skipping", B+"ir/ty.rs Type::load")])
p("C02", "Signatures and field types translate to the corresponding C/C++ type",
  "Every exported function, static, struct/union field and type alias is declared with the C/C++ type corresponding to its Rust type: same primitive kind, width and signedness, same nesting of pointers, arrays (with lengths) and function pointers, const on exactly the pointees that are *const/& in Rust, same number, order and kind of parameters, same return type and variadic-ness. "
  "Wrappers with guaranteed representation (Option of reference/fn pointer/NonNull/NonZero, NonNull, Box in C, Cell/UnsafeCell, ManuallyDrop/MaybeUninit/Pin in C) translate as the type they wrap, and usize/isize follow usize_is_size_t.",
  ["programs", "configurations"], "all type expressions over the supported grammar, to arbitrary nesting depth, in every declaration position and language",
  "Declarators compose without bound; tests hold a few fixed shapes (cdecl.rs, fns.rs) and compare text only.",
  [B+"cdecl.rs", B+"ir/ty.rs", B+"ir/function.rs", B+"ir/global.rs", B+"ir/typedef.rs", B+"ir/field.rs"],
  [("CDecl::from_type/build/write", B+"cdecl.rs"), ("Type::load and simplify_standard_types", B+"ir/ty.rs"), ("PrimitiveType::to_repr_c", B+"ir/ty.rs")])
p("C03", "Every generated header is a self-contained, valid translation unit",
  "For every supported program and configuration, the generated header compiles on its own without errors in each language it is generated for (C with every style, C with cpp_compat compiled both as C and as C++, C++): every type is declared before use, complete where it is used by value and defined once, and with an include guard or pragma once it may be included repeatedly. "
  "Source order of items, their distribution over modules and self references through pointers never affect this.",
  ["programs", "configurations"], "all item dependency graphs (by value and through pointers/fn pointers/typedefs/generics), source orders, module splits and formatting/style configurations",
  "Dependency ordering is a graph property; tests compile one fixed graph per file.",
  [B+"dependencies.rs", B+"declarationtyperesolver.rs", B+"library.rs", B+"bindings.rs", B+"language_backend/clike.rs"],
  [("Dependencies::add/sort topological ordering", B+"dependencies.rs"), ("DeclarationTypeResolver picks struct/enum/union tags", B+"declarationtyperesolver.rs"), ("include guard / extern \"C\" framing", B+"bindings.rs, language_backend")])
p("C04", "The header exports exactly the public C API of the crate, and nothing else",
  "Exactly the functions that carry a C-visible symbol (no_mangle or export_name in plain or unsafe(...) form, non-Rust ABI, in a module or an impl block, and functions in extern blocks), the statics with such a symbol, the pub constants of supported form and the types reachable from these are declared, each once and under its linkage name; private, cfg(test), `cbindgen:ignore`d, excluded or item_types-filtered items never appear. "
  "export.include forces otherwise unreachable types in, and the symbol file lists exactly the exported function and static symbols.",
  ["programs", "configurations"], "all combinations of visibility, ABI, linkage attributes, nesting, ignore annotations, include/exclude lists and item_types",
  "Each test fixes one combination; completeness and soundness quantify over all attribute combinations together with reachability.",
  [B+"parser.rs", B+"utilities.rs", B+"library.rs", B+"bindings.rs", B+"ir/function.rs"],
  [("Parse::load_syn_* item dispatch and exported_name/is_no_mangle", B+"parser.rs, utilities.rs"), ("dependency walk from functions/globals/constants + include list", B+"library.rs"), ("generate_symfile / dynamic_symbols_names", B+"bindings.rs")],
  ["generated header", "symbol file (--symfile)"])
p("C05", "Every exported constant has the same value and type kind in C and C++ as in Rust",
  "Each exported constant or associated constant (integer in any base and width, bool, char, float, unary/binary/parenthesised/cast expressions, references to other constants and enum variants, struct literals including nested ones) evaluates in the header — as macro, const or constexpr — to exactly the value rustc computes for it, whatever expression context a macro is expanded in. "
  "Typed constants have the C/C++ type corresponding to the Rust type.",
  ["programs", "configurations"], "all constant expressions in the supported grammar over all widths and boundary values x {C define, C const, C++ const, constexpr, static member}",
  "Tests compare the printed text of fixed constants; no test evaluates a constant, and operator precedence / boundary values are an infinite domain.",
  [B+"ir/constant.rs"],
  [("Literal::load / Literal::write / Constant::write", B+"ir/constant.rs"), ("enum variant references & struct literal ordering", B+"ir/constant.rs, language_backend")])
p("C06", "Enum variants keep their discriminants; tags agree with Rust",
  "For every emitted enum, every variant that exists in Rust exists in the header with exactly the discriminant rustc assigns (explicit literals, negative values, constant expressions, implicit successors, mixtures), in source order, also for the tag of a data-carrying enum, under every rename/prefix/enum_class/variant-renaming option. "
  "A sentinel, when requested, is one additional variant whose value differs from all others by following the last one.",
  ["programs", "configurations"], "all discriminant sequences representable in the repr x reprs x naming options x languages",
  "Tests have a few explicit discriminants compared textually; agreement with rustc over all sequences is not tested.",
  [B+"ir/enumeration.rs", B+"ir/constant.rs", B+"language_backend/clike.rs"],
  [("EnumVariant::load discriminant literal", B+"ir/enumeration.rs"), ("write_enum_variant", B+"language_backend/clike.rs")])
p("C07", "Generic types are instantiated completely, correctly and without collisions",
  "In C every distinct instantiation of a generic struct, union, enum or alias reachable from the API is emitted once under its own name with all type and const parameters (defaults included) substituted everywhere, so that the header is equivalent to that of the hand-expanded, non-generic program. "
  "In C++ the emitted templates instantiate to the same layouts and field types, and function signatures name the same instantiation in both languages.",
  ["programs"], "all generic definitions (types, consts, defaults, nesting, recursion through pointers) and all argument tuples",
  "monomorph_*.rs and mangle.rs fix a dozen instantiations; substitution and name-mangling injectivity quantify over all argument tuples.",
  [B+"monomorph.rs", B+"mangle.rs", B+"ir/generic_path.rs", B+"ir/structure.rs", B+"ir/typedef.rs", B+"ir/enumeration.rs"],
  [("Monomorphs::insert_*, mangle_path", B+"monomorph.rs"), ("Mangler", B+"mangle.rs"), ("Type::specialize / GenericParams::call", B+"ir")])
p("C08", "cfg attributes become equivalent preprocessor conditions",
  "For every assignment of the configured defines, preprocessing the header leaves exactly the items, fields and variants whose (nested, inherited) cfg predicate is true under the corresponding cfg assignment, where all/any/not are interpreted as in Rust and predicates without a configured define are dropped (treated as unconditional) with the rest kept. "
  "This holds for functions, statics, constants, structs, unions, enums, aliases, opaque types, fields, variants and whole modules.",
  ["programs", "configurations"], "all cfg expressions over mapped and unmapped predicates x item kinds x nesting x all define assignments",
  "cfg.rs tests fix a handful of predicates; equivalence is over all boolean formulas and all define valuations.",
  [B+"ir/cfg.rs", B+"ir/item.rs", B+"parser.rs", B+"ir/enumeration.rs", B+"ir/structure.rs"],
  [("Cfg::load/append/to_condition, ConditionWrite", B+"ir/cfg.rs"), ("mod_cfg propagation", B+"parser.rs")])
p("C09", "Output is deterministic and ordered as configured",
  "Running cbindgen on the same sources and configuration yields byte-identical output in every process and directory, regardless of hashing, environment or previous runs. "
  "Functions, statics and constants appear in the order the sort_by settings promise (source order for None, ascending by exported name for Name), and reordering independent items in the source with sort_by = Name does not change the set of declarations.",
  ["programs", "configurations", "histories"], "all programs, repeated runs, hash seeds and sort settings",
  "Tests run each input once per configuration; non-determinism needs repeated runs over inputs with many unordered items.",
  [B+"library.rs", B+"dependencies.rs", B+"monomorph.rs", B+"ir/item.rs"],
  [("IndexMap-based ItemMap, BTreeMap monomorphs", B+"ir/item.rs, monomorph.rs"), ("sort_by handling", B+"library.rs, config.rs")])
p("C10", "Renaming is exact and consistent between definitions and uses",
  "Prefixes, explicit export.rename entries, rename annotations and every documented rename rule produce exactly the documented name for items, fields, arguments, variants and associated constants, identically at the definition and at every use, so the renamed header still compiles and names the same types. "
  "Linkage names of functions and statics never change, explicit renames win over prefixes, and fields, arguments and variants that are reserved words in the target language are escaped consistently.",
  ["programs", "configurations"], "all identifiers x rename rules x prefixes x rename tables x reserved words x positions",
  "rename_case.rs etc. fix a few identifiers; correctness quantifies over identifiers (digits, underscores, capitals, keywords) and option combinations.",
  [B+"rename.rs", B+"reserved.rs", B+"config.rs", B+"ir/structure.rs", B+"ir/enumeration.rs", B+"ir/function.rs", B+"ir/generic_path.rs"],
  [("RenameRule::apply", B+"rename.rs"), ("ExportConfig::rename, rename_for_config on every item", B+"config.rs, ir/*"), ("reserved::escape", B+"reserved.rs")])
p("C11", "Formatting options change only white space, never the declared program",
  "braces, line_length, tab_width, function argument layout and line_endings change nothing but white space: the token sequence of the header (comments included) is identical under all of them, and each header compiles whenever one does. "
  "Every line terminator cbindgen itself writes is exactly the configured one, and the chosen layout is honoured (horizontal keeps a signature on one line, vertical puts one argument per line, auto breaks lines only where line_length requires it, brace placement and indentation follow the options).",
  ["programs", "configurations"], "all programs x all combinations of formatting options",
  "Tests exercise one layout option at a time on one input.",
  [B+"writer.rs", B+"language_backend/clike.rs", B+"ir/function.rs", B+"ir/enumeration.rs", B+"config.rs"],
  [("SourceWriter (tabs, try_write, new_line)", B+"writer.rs"), ("write_horizontal_source_list / write_vertical_source_list", B+"writer.rs")])
p("C12", "Writing a header is idempotent, change-detecting and verifiable",
  "Over every history of source edits, output-file edits and runs: writing to a file leaves the file byte-equal to what is printed to stdout for the same input, leaves an already up-to-date file untouched (same mtime) and reports whether it changed; a failed run never modifies or creates the output. "
  "--verify succeeds exactly when the file was already up to date and otherwise fails with its own exit status.",
  ["histories", "inputs"], "all histories of write / verify / edit / delete / fail operations on one output path",
  "Tests write each output once into a fresh file; histories, truncation and no-op detection are never exercised.",
  [B+"bindings.rs", "src/main.rs"],
  [("Bindings::write_to_file content comparison", B+"bindings.rs"), ("--verify branch and exit codes", "src/main.rs")],
  ["output file bytes and mtime", "exit status", "Bindings::write_to_file return value"])
p("C13", "Module files are resolved as rustc does, and the depfile lists exactly them",
  "For every tree of modules (inline, mod.rs, 2018-style, nested, #[path]) cbindgen reads exactly the files rustc would read, and the API of all of them is in the header. "
  "The dependency file has one rule whose target is the output and whose prerequisites are exactly the source files read plus the configuration file, each once and with spaces, # and $ escaped so that make reads the same names.",
  ["programs", "configurations"], "all module trees x file layouts x path names x depfile requests",
  "depfile.rs fixes one crate; module resolution depends on the whole tree shape and file layout.",
  [B+"parser.rs", B+"bindings.rs", "src/main.rs"],
  [("Parser::parse_mod path search", B+"parser.rs"), ("Bindings::generate_depfile", B+"bindings.rs")],
  ["generated header", "depfile"])
p("C14", "Any input is either translated or rejected cleanly",
  "On any syntactically valid Rust source and valid configuration cbindgen terminates without panicking, skipping (with a warning) what it does not support rather than aborting, and an unsupported item never affects the declarations emitted for unrelated items. "
  "On invalid Rust, an unreadable input file or an invalid configuration it exits with a non-zero status and an error message, again without panicking and without producing output.",
  ["inputs", "programs", "configurations"], "all syntactically valid files (including unsupported constructs), corrupted files and configurations",
  "Tests contain only inputs known to work; panics hide in untested combinations of constructs.",
  [B+"parser.rs", B+"ir/ty.rs", B+"ir/constant.rs", B+"ir/generic_path.rs", B+"config.rs", B+"error.rs", "src/main.rs"],
  [("Result-based item loading with warn! fallbacks", B+"parser.rs, ir/*"), ("Error type and exit status", B+"error.rs, main.rs")],
  ["exit status", "stderr", "generated header"])
p("C15", "Types without a C-compatible layout are only ever opaque",
  "A struct, enum or union that lacks a C-compatible representation, is marked opaque, or contains a field of a kind cbindgen cannot translate is emitted at most as a forward declaration without a body, while every type with a supported representation and translatable fields is emitted with its complete body. "
  "It can therefore never be instantiated or passed by value with a guessed layout; references to it through pointers still work.",
  ["programs", "configurations"], "all repr attribute combinations, unsupported field types, opaque annotations and languages",
  "Tests fix some opaque types; the decision depends on every repr x field combination.",
  [B+"ir/repr.rs", B+"ir/structure.rs", B+"ir/union.rs", B+"ir/enumeration.rs", B+"ir/opaque.rs", B+"parser.rs"],
  [("Repr::load and OpaqueItem fallback", B+"ir/repr.rs, parser.rs"), ("layout config: packed/aligned opaque fallback", B+"ir/structure.rs")])
p("C16", "Generated C++ helper functions behave as documented at run time",
  "Every C++ helper requested by config or annotation — comparison operators, constructors, tagged-enum constructors, Is/As accessors, copy construction/assignment, destructors, stream output — compiles and computes what its name says for every value: operators agree with field-wise comparison, a constructed variant satisfies exactly its own Is predicate and As returns the stored payload, copies equal the original, streaming prints name and fields. "
  "Helpers appear exactly for the types they were requested for.",
  ["programs", "configurations", "inputs"], "all struct/enum shapes x derive options x field values",
  "Tests only compile the helpers; none is ever executed.",
  [B+"ir/structure.rs", B+"ir/enumeration.rs", B+"config.rs", B+"language_backend/clike.rs"],
  [("derive_* writers", B+"ir/structure.rs, ir/enumeration.rs")], ["compiled C++ program behaviour"])
p("C17", "Documentation reaches the header unchanged and cannot alter the declarations",
  "The documentation of every emitted item, field and variant is reproduced in the header next to that item, every line in order, in the configured comment style and length (full, first line only, or none), and annotations (cbindgen:...) are not printed. "
  "No documentation text changes the declarations: the header with documentation has the same token sequence as without.",
  ["programs", "configurations"], "all doc texts (line, block, attribute form) x styles x lengths x languages x item kinds",
  "Tests fix a few comments; doc text is arbitrary.",
  [B+"ir/documentation.rs", B+"utilities.rs", B+"language_backend/clike.rs", B+"language_backend/cython.rs", B+"ir/annotation.rs"],
  [("Documentation::load", B+"ir/documentation.rs"), ("write_documentation", B+"language_backend/*")])
p("C18", "C, C++ and Cython outputs declare the same API",
  "For the same sources the three back ends declare the same functions with the same parameters, the same types with the same fields in the same order, the same enum variants and values and the same exported constants. "
  "The Cython output is accepted by Cython and a module cimporting it compiles against the C header and sees rustc's sizes, enum values and constants.",
  ["programs", "configurations"], "all supported programs x back ends",
  "Tests check each back end against its own stored text; no test relates the back ends with each other.",
  [B+"language_backend/clike.rs", B+"language_backend/cython.rs", B+"cdecl.rs"],
  [("LanguageBackend implementations", B+"language_backend")])
p("C19", "All ways of giving the same setting are equivalent",
  "An item-level cbindgen annotation has the same effect on that item as the corresponding global option and overrides it, the command-line flags have the same effect as the corresponding configuration keys and take precedence, and the Builder API produces the same bytes as the command line with the equivalent configuration. "
  "Unknown keys, unknown enum values and ill-typed values in a configuration are rejected, and an empty configuration is the documented default.",
  ["configurations", "programs"], "all options that exist in more than one form x programs x values",
  "Tests use each option in one form only.",
  [B+"config.rs", B+"builder.rs", B+"ir/annotation.rs", "src/main.rs"],
  [("Config serde definitions, FromStr impls", B+"config.rs"), ("apply_config_overrides", "src/main.rs"), ("AnnotationSet", B+"ir/annotation.rs")],
  ["CLI", "Builder API"])
p("C20", "Dependency crates are followed exactly as configured",
  "With parse_deps off only the bound crate contributes; with it on, the types (with their associated constants) of exactly the dependencies permitted by include/exclude, transitively, are available, while functions, statics and constants of a dependency appear only for the parsed crates in extra_bindings. Target-specific dependencies are followed under their condition, crates to expand are expanded with the configured features and profile, and the bound crate is found by the directory or manifest given, however spelled. "
  "Adding, excluding or reordering unrelated dependencies never changes what is emitted for the others.",
  ["configurations", "programs"], "all small dependency graphs x parse settings",
  "Tests fix three workspaces.",
  [B+"parser.rs", B+"cargo/cargo.rs", B+"cargo/cargo_metadata.rs", B+"cargo/cargo_lock.rs", B+"config.rs"],
  [("Parser::should_parse_dependency, parse_crate", B+"parser.rs"), ("Cargo::dependencies/find_crate", B+"cargo")])
p("C21", "bitflags! types become plain flag structs with the same values",
  "Every bitflags! declaration (1.x struct syntax and 2.x, any integer width, documented, with literals, shifts, complements and combinations of earlier flags) becomes a struct holding the bits with one constant per flag, and every flag constant has exactly the value the bitflags crate gives it in C, C++ and with or without associated_constants_in_body. "
  "In C++ the generated operators |, &, ^, ~, |=, &=, ^= and bool conversion compute the corresponding operation on the bits.",
  ["programs", "configurations", "inputs"], "all flag sets and expressions over them x widths x languages x flag values",
  "bitflags.rs fixes three flag sets and compares text.",
  [B+"bitflags.rs", B+"ir/constant.rs", B+"ir/structure.rs"],
  [("bitflags::parse and expansion", B+"bitflags.rs"), ("bitflags operators", B+"ir/structure.rs")], ["compiled C/C++ program behaviour"])
p("C22", "Attribute macros annotate exactly the right declarations",
  "must_use, deprecated (with and without note), no_return, non_null/nullable, swift_name, and function prefix and postfix settings attach the configured text to exactly those functions, pointers, types and variants that the Rust source marks, once each, and to no other; a deprecation note is written as a string literal with the note's exact value; nothing is emitted for settings that are absent. (must_use of enums is a C++ matter; functions declared in extern blocks carry no prefix, postfix, must_use or deprecated text; in Cython only prefix and postfix are written.) "
  "Removing the attribute text leaves a header token-identical to the one generated without the settings.",
  ["programs", "configurations"], "all subsets of marked items x attribute settings x languages",
  "Each test sets one attribute on one input.",
  [B+"ir/annotation.rs", B+"ir/function.rs", B+"ir/structure.rs", B+"ir/enumeration.rs", B+"cdecl.rs", B+"config.rs"],
  [("AnnotationSet::must_use/deprecated_note", B+"ir/annotation.rs"), ("pointer attribute & swift_name writers", B+"cdecl.rs, ir/function.rs")])
p("C23", "Header framing follows the configuration exactly",
  "header, autogen_warning, include guard, pragma once, sys_includes/includes/no_includes/after_includes, include_version, namespaces, using_namespaces, cpp_compat extern \"C\" and trailer each appear exactly when configured, exactly once, balanced and in the documented order around the declarations, in every language. "
  "Framing settings never change the declarations themselves, and every declaration with C linkage is inside the extern \"C\" region and the namespaces.",
  ["configurations", "programs"], "all combinations of framing options x languages x programs",
  "Each test sets one or two framing options.",
  [B+"bindings.rs", B+"language_backend/clike.rs", B+"language_backend/cython.rs", B+"config.rs"],
  [("write_headers / open_close_namespaces / write_footers", B+"language_backend/*")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
