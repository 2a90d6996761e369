# executed by mkmeta.py
NA = []
GEN_FILES = ["src/bindgen/library.rs", "src/bindgen/parser.rs", "src/bindgen/writer.rs"]

prop("C03", "Every exported symbol is declared exactly once under its link name",
     "For every crate, the generated header declares every function and static that the crate exports with C linkage (no_mangle or export_name, with or without unsafe(..), in modules, impl blocks and extern blocks) under the symbol name the linker sees, and declares no function or static that is not exported. The symbol file lists exactly the functions and statics so declared.",
     ["programs", "configurations"],
     "all crates and configurations: any number of functions, methods, foreign declarations and statics in any module nesting, with any linkage attribute, abi and export options",
     "The expectation files pin a few dozen crates; which combinations of linkage attribute, abi, item kind, module and renaming option are lost or duplicated is only visible over all combinations, and the symbol file is checked for one test.",
     ["src/bindgen/parser.rs", "src/bindgen/utilities.rs", "src/bindgen/ir/function.rs", "src/bindgen/ir/global.rs", "src/bindgen/bindings.rs"],
     [("load_syn_fn / load_fn_declaration / load_syn_static", "src/bindgen/parser.rs"), ("exported_name, is_no_mangle", "src/bindgen/utilities.rs"), ("generate_symfile", "src/bindgen/bindings.rs")])

prop("C04", "The set of declared types is exactly what the exported API needs",
     "Every type of the crate that is reachable by name from an exported function, static, constant or included item (through fields, pointers, arrays, callbacks, aliases, variants and generic arguments) is declared in the header, as a definition when its layout is specified for C and as an opaque forward declaration otherwise, under the configured tag/typedef style. Types that are not reachable are not declared.",
     ["programs", "configurations"],
     "all crates (any reference graph between types, any nesting of type constructors) and all styles and include lists",
     "Reachability is a property of whole reference graphs; tests sample a few shapes.",
     ["src/bindgen/dependencies.rs", "src/bindgen/library.rs", "src/bindgen/ir/ty.rs", "src/bindgen/ir/structure.rs", "src/bindgen/ir/enumeration.rs", "src/bindgen/ir/opaque.rs"],
     [("add_dependencies", "src/bindgen/ir/*.rs"), ("Library::generate", "src/bindgen/library.rs"), ("get_items", "src/bindgen/library.rs")])

prop("C06", "Types in declarations are the C ABI equivalents of the Rust types",
     "For every field, parameter, return value, static and alias in the header, the declared type is the C/C++/Cython type ABI-compatible with the Rust type: primitive width and signedness, pointer constness at every level, array lengths, function-pointer signatures, nullability attributes, transparent standard wrappers (Option/NonNull/Box of pointers, Cell, ManuallyDrop, NonZero...) seen through, zero-sized members dropped. Declarator syntax must bind so that the parsed declaration denotes that type.",
     ["programs", "configurations"],
     "all types built from primitives, named types, pointers, references, arrays, function pointers and standard wrappers, in every position, in the three output languages, with every pointer-attribute and usize option",
     "Type constructors nest arbitrarily and interact (pointer to array of callbacks returning pointers); tests contain a fixed list of signatures.",
     ["src/bindgen/ir/ty.rs", "src/bindgen/cdecl.rs", "src/bindgen/ir/function.rs", "src/bindgen/ir/field.rs"],
     [("Type::load, simplified_type, PrimitiveType::to_repr_c", "src/bindgen/ir/ty.rs"), ("CDecl::write", "src/bindgen/cdecl.rs")])

prop("C07", "Generic types are instantiated soundly: one definition per instantiation",
     "In C and Cython output every use of a generic type with concrete arguments (anywhere in the exported API, including nested arguments, const generics and parameter defaults) names one definition whose members are the generic definition's with the arguments substituted, and uses with the same arguments share that definition. In C++ output generic types are templates with the same parameters and uses keep their arguments.",
     ["programs", "configurations"],
     "all generic structs, unions, enums, aliases and opaque types, all argument lists and nesting depths, all name-mangling options",
     "Substitution and name mangling are recursive over arbitrary argument trees; tests show a handful of instantiations.",
     ["src/bindgen/monomorph.rs", "src/bindgen/mangle.rs", "src/bindgen/ir/generic_path.rs", "src/bindgen/ir/ty.rs"],
     [("Monomorphs", "src/bindgen/monomorph.rs"), ("Mangler", "src/bindgen/mangle.rs"), ("specialize / instantiate_monomorph", "src/bindgen/ir/*.rs")])

prop("C08", "Conditional compilation is preserved exactly",
     "Every declaration, field and variant that is behind cfg attributes in the crate (its own, its impl block's or its enclosing modules') is in the header wrapped in a preprocessor condition that is true exactly for the platforms and features for which the cfg predicate is true, mapping each predicate through the configured defines. Items without a cfg, or whose predicates have no configured define, are not conditional.",
     ["programs", "configurations"],
     "all cfg predicates (nested any/all/not over flags and key-value pairs), on items, members, impl blocks and nested modules, all define tables",
     "Predicates are boolean formulas of any depth combined along module nesting; tests pin a few formulas as text.",
     ["src/bindgen/ir/cfg.rs", "src/bindgen/parser.rs", "src/bindgen/ir/item.rs"],
     [("Cfg::join / append / to_condition, Condition::write, ConditionWrite", "src/bindgen/ir/cfg.rs"), ("mod_cfg handling", "src/bindgen/parser.rs")])

prop("C09", "Exported constants and enum values keep their value",
     "Every public constant (free or associated) with a value cbindgen supports, and every explicit enum discriminant, appears in the header under its exported name with its declared type and an expression that evaluates to the same value: literals with their C suffixes, operators with their grouping, struct and array literals with every field in place, references to other constants, enum variants and integer limits. Unsupported values are skipped rather than written wrongly.",
     ["programs", "configurations"],
     "all supported constant expressions, struct literals and references, in all languages and constant styles (macro, static const, constexpr, in-body)",
     "Expressions are trees of unbounded depth over several literal kinds and renaming options; tests sample about thirty expressions.",
     ["src/bindgen/ir/constant.rs", "src/bindgen/ir/enumeration.rs", "src/bindgen/language_backend/clike.rs", "src/bindgen/language_backend/cython.rs"],
     [("Literal::load / write", "src/bindgen/ir/constant.rs"), ("write_literal", "src/bindgen/language_backend/*.rs")])

prop("C10", "Renaming is applied uniformly and yields valid, consistent names",
     "The configured prefix, rename table, rename rules and per-item rename annotations determine the exported name of every type, field, variant, argument and constant, the declaration and every reference to it use the same exported name, and names that are reserved words of the output languages are escaped. Functions and statics keep their link names.",
     ["programs", "configurations"],
     "all identifiers, rename rules, prefixes, rename tables, overrides and annotations, at every kind of reference",
     "The rule set times the identifier shapes times the reference positions is far larger than the sampled tests.",
     ["src/bindgen/rename.rs", "src/bindgen/reserved.rs", "src/bindgen/config.rs", "src/bindgen/ir/structure.rs", "src/bindgen/ir/enumeration.rs"],
     [("RenameRule::apply", "src/bindgen/rename.rs"), ("ExportConfig::rename", "src/bindgen/config.rs"), ("rename_for_config", "src/bindgen/ir/*.rs"), ("escape", "src/bindgen/reserved.rs")])

prop("C13", "Exactly the items the user asked for are exported",
     "Items excluded by export.exclude, left out by export.item_types, marked cbindgen:ignore, behind cfg(test) or test attributes, or private constants never appear in the header (nor do items inside an ignored module), and no other item disappears because of them. Items named in export.include appear even when nothing refers to them.",
     ["programs", "configurations"],
     "all combinations of include, exclude and item_types lists, ignore annotations and test attributes over all item kinds and module nestings",
     "The filters act at different phases and interact with reachability; tests cover each alone.",
     ["src/bindgen/config.rs", "src/bindgen/library.rs", "src/bindgen/parser.rs", "src/bindgen/utilities.rs"],
     [("remove_excluded, get_items, should_generate", "src/bindgen/library.rs"), ("should_skip_parsing", "src/bindgen/utilities.rs")])

prop("C16", "Rust enums map to C enums and tagged unions faithfully",
     "Every exported enum lists all its variants in source order with their discriminants and the configured integer representation; an enum with data becomes a tag plus one member per data-carrying variant holding exactly that variant's fields, laid out as struct-of-tag-and-union for repr(C) and union-of-tagged-structs for repr(int). Sentinel and trailing values, when requested, follow the real variants.",
     ["programs", "configurations"],
     "all enums: unit, tuple and named variants, generic or not, every repr, every enum option and annotation, all languages",
     "The shape depends on repr, variant kind, language, style and several options at once; tests sample that product sparsely.",
     ["src/bindgen/ir/enumeration.rs", "src/bindgen/language_backend/clike.rs", "src/bindgen/language_backend/cython.rs", "src/bindgen/ir/repr.rs"],
     [("Enum::load, EnumVariant::load", "src/bindgen/ir/enumeration.rs"), ("write_enum and helpers", "src/bindgen/ir/enumeration.rs")])

prop("C18", "Documentation follows its item",
     "With documentation enabled, the doc comment of every declared item, field, variant and constant is written immediately before that declaration with all its lines in order (only the first line with documentation_length short), and nothing from cbindgen annotations leaks into it. With documentation disabled no doc comment is written.",
     ["programs", "configurations"],
     "all documented items and members in all languages, both length settings",
     "Attachment is a relation between every declaration and its source item; tests check fixed examples.",
     ["src/bindgen/ir/documentation.rs", "src/bindgen/writer.rs", "src/bindgen/language_backend/clike.rs", "src/bindgen/language_backend/cython.rs"],
     [("Documentation::load", "src/bindgen/ir/documentation.rs"), ("write_documentation", "src/bindgen/language_backend/*.rs")])

prop("C19", "Declarations are emitted in the documented order",
     "Constants, then types, then globals, then functions: within each group source order is kept unless sorting by name is configured (globally or per kind), in which case it is by name. Types come in dependency order: a type is defined after every type it contains, plain enums first and opaque declarations before the other types.",
     ["programs", "configurations"],
     "all item orders, reference graphs and sort settings",
     "Order is a whole-header property; the tests' expectation files fix it for few inputs.",
     ["src/bindgen/library.rs", "src/bindgen/bindings.rs", "src/bindgen/dependencies.rs"],
     [("Library::generate sort steps", "src/bindgen/library.rs"), ("Dependencies::sort", "src/bindgen/dependencies.rs")])

prop("C20", "Attributes and annotations end up on the right declarations",
     "Every must_use, deprecated (with or without note), no-return, packed and align attribute, function prefix/postfix, configured body text, enum-class setting and per-item annotation appears on exactly the declarations it was requested for, with the configured spelling, and annotation on a type alias is handed to the aliased type. A per-item annotation takes precedence over the global setting.",
     ["programs", "configurations"],
     "all items, attributes, annotations and attribute settings in all languages",
     "The product of item kinds, attribute kinds, annotations and languages is not enumerable by hand-written expectation files.",
     ["src/bindgen/ir/annotation.rs", "src/bindgen/library.rs", "src/bindgen/language_backend/clike.rs", "src/bindgen/ir/function.rs"],
     [("AnnotationSet", "src/bindgen/ir/annotation.rs"), ("transfer_annotations", "src/bindgen/library.rs"), ("write attributes", "src/bindgen/language_backend/*.rs")])

prop("C22", "Unsupported items degrade gracefully and never disturb the rest",
     "An item cbindgen cannot represent (unsupported field or argument types, no C layout, unsupported repr or constant expression, unknown type) is skipped or emitted opaquely without aborting generation, and every other item of the crate is still emitted exactly as it would be without it.",
     ["programs"],
     "all crates mixing supported and unsupported items",
     "Failure isolation is about combinations of bad and good items; tests feed well-formed crates almost exclusively.",
     ["src/bindgen/parser.rs", "src/bindgen/ir/ty.rs", "src/bindgen/ir/constant.rs", "src/bindgen/library.rs"],
     [("Err handling around Struct/Function/Constant::load", "src/bindgen/parser.rs"), ("OpaqueItem::load fallback", "src/bindgen/parser.rs")])

prop("C11", "Bindings files are written exactly when they change, and --verify is exact",
     "After any sequence of source edits, tampering with the output and runs, a successful run leaves the output file with exactly the bindings of the current source, a run whose bindings equal the file's contents leaves the file untouched (same modification time), and write_to_file reports whether it changed the file. With --verify no file is written and the run fails exactly when the file differs from the bindings; a run that fails leaves the output as it was.",
     ["histories"],
     "all histories of edits, tampering, deletion, verify runs, API runs and failing runs",
     "Tests run the generator once on fresh output; freshness, idempotence and no-touch are properties of histories.",
     ["src/bindgen/bindings.rs", "src/main.rs"],
     [("Bindings::write_to_file", "src/bindgen/bindings.rs"), ("--verify", "src/main.rs")],
     technique="TLA+ state machine of the output file (Files.tla): TLC checks its invariants and enumerates all short histories, replayed into the real CLI and library",
     note="All histories up to length 3 (quick) or 4 (thorough) plus random longer ones are replayed step by step and the file's contents, mtime, exit code and return value compared with the model state.",
     observe=["the output file's bytes and modification time", "exit code", "return value of write_to_file"])

prop("C12", "Exactly the crates, modules and files that make up the crate are read",
     "The header is generated from exactly the modules rustc would compile (inline modules, mod files, mod directories, path attributes, cfg'd and nested modules at any depth) of the binding crate and, with dependency parsing enabled, of the dependencies selected by the include, exclude and extra_bindings settings, each once, in dependency order. The depfile lists exactly the source files read.",
     ["programs", "configurations"],
     "all module trees and layouts, all dependency graphs (diamonds, target-conditional) and all parse settings",
     "Module and dependency trees are unbounded; the tests contain a handful of two-level ones.",
     ["src/bindgen/parser.rs", "src/bindgen/cargo/cargo.rs", "src/bindgen/cargo/cargo_metadata.rs", "src/bindgen/bindings.rs"],
     [("parse_crate / parse_mod / load_syn_mod", "src/bindgen/parser.rs"), ("Cargo::dependencies, find_crate_src", "src/bindgen/cargo/cargo.rs"), ("generate_depfile", "src/bindgen/bindings.rs")],
     technique="TLA+ stack machine of the module/crate walk (Crates.tla) run by TLC on generated file trees; the real CLI's header and depfile must match the model's walk",
     note="Thousands of generated layouts per run; metadata and lock files are synthesised so no cargo invocation is needed.",
     observe=["the generated header text", "the depfile"])

prop("C01", "The same input always gives byte-identical output",
     "The header and the symbol file are a function of the sources and the configuration alone: repeated runs in one process, runs in fresh processes, and runs with another environment, working directory or location of the same tree write exactly the same bytes.",
     ["programs", "configurations", "schedules"],
     "all crates and configurations, all hash seeds, environments, working directories and locations",
     "Iteration order of hash maps changes between runs of the same binary; a test that runs once cannot see it.",
     ["src/bindgen/library.rs", "src/bindgen/monomorph.rs", "src/bindgen/ir/item.rs", "src/bindgen/ir/constant.rs", "src/bindgen/parser.rs", "src/bindgen/cargo/cargo.rs"],
     [("Library::generate", "src/bindgen/library.rs"), ("Monomorphs", "src/bindgen/monomorph.rs"), ("ItemMap", "src/bindgen/ir/item.rs")],
     technique="TLA+ specification of generation as a deterministic state machine, checked with TLC; histories of repeated runs of the real generator validated against it",
     note="Each sampled crate is generated several times in one process (fresh hash seeds), and a third of them again in fresh processes with other environments, directories and locations; multi-crate trees three times each.")

COMPILED = "TLA+ spec of generation, data layout and constant values (Compiled.tla, TLC), compared with what gcc, g++, Cython and rustc make of the real headers"

prop("C02", "Generated headers compile",
     "For every crate made of supported items whose types and constants are not mutually dependent, the generated header is a self-contained translation unit that a C compiler, C++ compiler or Cython accepts in the configured language: every name used is declared before its use, types used by value are complete, and no name is declared twice.",
     ["programs", "configurations"],
     "all supported crates, languages, styles, renamings and layout settings",
     "Compilability depends on the interaction of ordering, naming, instantiation and syntax; the tests compile only their fixed expectation files.",
     ["src/bindgen/writer.rs", "src/bindgen/bindings.rs", "src/bindgen/cdecl.rs", "src/bindgen/language_backend/clike.rs", "src/bindgen/language_backend/cython.rs", "src/bindgen/dependencies.rs", "src/bindgen/monomorph.rs", "src/bindgen/declarationtyperesolver.rs"],
     [("LanguageBackend::write_*", "src/bindgen/language_backend/*.rs"), ("Dependencies::add", "src/bindgen/dependencies.rs"), ("DeclarationTypeResolver", "src/bindgen/declarationtyperesolver.rs")],
     technique=COMPILED,
     note="Sampled crates that rustc accepts; the model runs generation on them and the header must compile with gcc -std=gnu11, g++ -std=gnu++17 or Cython 3. stddef.h and sys/types.h are pre-included.",
     observe=["exit status of gcc, g++ and cython on the header"])

prop("C05", "Types have the same layout in C/C++ as in Rust",
     "Every struct, union, enum, tagged union, instantiated generic and type alias in a C or C++ header has the size, alignment and field offsets of the Rust type, whatever its nesting and its repr (C, an integer type, both, transparent, packed, aligned).",
     ["programs", "configurations"],
     "all compositions of representable types and repr attributes (x86-64 Linux)",
     "Layout is decided by compilers on the composition of all members; the tests never run or measure anything.",
     ["src/bindgen/ir/structure.rs", "src/bindgen/ir/enumeration.rs", "src/bindgen/ir/union.rs", "src/bindgen/ir/repr.rs", "src/bindgen/ir/ty.rs", "src/bindgen/language_backend/clike.rs"],
     [("PrimitiveType", "src/bindgen/ir/ty.rs"), ("Repr::load", "src/bindgen/ir/repr.rs"), ("write_struct / write_enum / write_union", "src/bindgen/language_backend/clike.rs")],
     technique=COMPILED,
     note="The layout rules are specified in TLA+ and validated against rustc on a part of the samples; programs compiled against the real header print sizeof, alignof and offsetof, which TLC compares with the specified layout.",
     observe=["sizeof, alignof and offsetof as computed by gcc and g++ from the header"])

prop("C15", "Everything around the declarations is complete, ordered and balanced",
     "The configured header, include guard, pragma once, version banners, includes and cimports, after_includes text, namespaces, using-namespaces, extern \"C\" blocks, Cython extern block and trailer each appear exactly when configured, once, with the configured text, in the documented order. Functions and statics (and only they) are inside extern \"C\" in every header a C++ compiler can read, everything is inside the namespaces and the include guard, and every scope opened is closed, both as a C and as a C++ compiler sees the header.",
     ["configurations", "programs"],
     "all combinations of framing options, in the three languages, over crates with and without constants, types, statics and functions",
     "The options interact (language, cpp_compat, namespaces, empty groups); tests fix one configuration per crate.",
     ["src/bindgen/bindings.rs", "src/bindgen/language_backend/clike.rs", "src/bindgen/language_backend/cython.rs"],
     [("write_headers, open_namespaces, close_namespaces, write_footers", "src/bindgen/language_backend/*.rs"), ("write_bindings, write_globals, write_functions", "src/bindgen/language_backend/mod.rs")],
     technique="TLA+ state machine of a header's sections and scopes (Frame.tla) with invariants checked by TLC; the event sequence of every real header validated against it",
     note="One state per section; invariants Balanced, Guarded, Linked and OnlyC are model-checked on every sampled configuration, and the real header's events (as seen with and without __cplusplus) must be the model's.")

prop("C17", "Formatting options change the layout of the text and nothing else",
     "Braces, tab width, line endings, line length, argument layout and documentation style never change what the header declares, documents or means. Every line ends with the configured line ending, members are indented by the configured width, braces are placed as configured, and argument lists are broken exactly as the layout option and line length say.",
     ["configurations", "programs"],
     "all formatting options over all crates, in the three languages",
     "The declarations times the formatting options are only compared pairwise here; a test compares one formatting with one file.",
     ["src/bindgen/writer.rs", "src/bindgen/cdecl.rs", "src/bindgen/config.rs", "src/bindgen/language_backend/clike.rs", "src/bindgen/language_backend/cython.rs"],
     [("SourceWriter, try_write, max_line_length", "src/bindgen/writer.rs"), ("Layout, Braces, LineEndingStyle, DocumentationStyle", "src/bindgen/config.rs")],
     technique="TLA+ spec (Generate + Format.tla) checked with TLC; headers of one crate under several formattings validated against its one output and the formatting rules")

prop("C23", "Every way of configuring cbindgen means the same configuration",
     "However a configuration is given - a file named on the command line or found beside the input, a Config handed to the library, builder calls in any order, command line flags, any accepted spelling of a value, or defaults left unsaid - the header is that of the effective configuration written out in full: later settings override earlier ones, loading a configuration replaces everything before it, and flags override the file. Unknown keys, unknown values and wrongly typed values are errors, and crate-level settings (dependency parsing, macro expansion commands, package version, target-only dependencies, temporary target directories) have their documented effect.",
     ["histories", "configurations"],
     "all sequences of configuration steps through every route, all options, values and spellings",
     "Tests configure each crate one way, from one file; agreement between routes, precedence, defaults and rejection are relations between runs.",
     ["src/bindgen/config.rs", "src/bindgen/builder.rs", "src/main.rs", "src/lib.rs", "src/bindgen/cargo/cargo_expand.rs", "src/bindgen/cargo/cargo_metadata.rs"],
     [("Config and its defaults, FromStr of the enums, deny_unknown_fields", "src/bindgen/config.rs"), ("Builder::with_*", "src/bindgen/builder.rs"), ("apply_config_overrides, load_bindings", "src/main.rs"), ("expand", "src/bindgen/cargo/cargo_expand.rs")],
     technique="TLA+ state machine of configuration steps (Config.tla, Options.tla): TLC enumerates short histories exhaustively and longer ones at random; each is replayed into the real library and command line",
     note="All one-entry files, all pairs of builder calls and flags, random longer histories; a stand-in cargo records the expansion command line.",
     observe=["the generated header text", "exit code", "the command line of the macro expansion", "the temporary directory"])

prop("C21", "Derived C++ operations exist exactly when asked and behave like the Rust type",
     "In C++ output, every operation asked for by configuration or annotation (constructors, comparison, ordering, stream output, variant constructors, Is/As methods, tagged-enum destructor, copy constructor and assignment, bitflags operators) exists, with its requested attributes in front of it, exactly on the types it applies to, the annotation overriding the configuration, and none exists unasked. In every sequence of such operations on values, each result is what the Rust type means: a variant is its tag and its fields, equality is structural, order is that of the single field, a copy is independent, a cast asserts and yields the fields of its variant, printing names the fields and variants in order, bitflags combine bitwise in their width, and payloads with destructors are alive exactly while a variable holds them. The header compiles with conditional variants on or off.",
     ["histories", "programs", "configurations"],
     "all types with derived operations, all flag and annotation combinations, all histories of operations on their values",
     "Tests compile a few headers with derived operations and never run them; what the operators compute, over sequences of copies, assignments and casts, is not looked at.",
     ["src/bindgen/language_backend/clike.rs", "src/bindgen/ir/enumeration.rs", "src/bindgen/ir/structure.rs", "src/bindgen/bitflags.rs", "src/bindgen/config.rs"],
     [("write_derived_cpp_ops", "src/bindgen/language_backend/clike.rs"), ("write_derived_functions_enum, write_derived_functions_data", "src/bindgen/ir/enumeration.rs"), ("can_derive_eq, emit_bitflags_binop", "src/bindgen/ir/structure.rs"), ("Bitflags::expand", "src/bindgen/bitflags.rs")],
     technique="TLA+ state machine over values (Ops.tla): histories of operations are compiled against the generated header and run, and TLC checks every observation, presence and attribute against the model",
     note="Random types (generic, tagged, inline-tagged, conditional variants, bitflags), flags and annotations; payload type with counted lifetimes; arrays only without derived constructors, rule-of-three flags per enum only on leaves.",
     observe=["results printed by the compiled program", "which operations the compiler finds", "attributes in the header text"])
