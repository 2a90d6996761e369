------------------------------- MODULE Options -------------------------------
(* Every option of cbindgen.toml as documented (docs.md): its key, how its      *)
(* value is written, its default, the accepted spellings of its values and what *)
(* they mean, values that must be refused, and the builder call that sets it.   *)
(*                                                                              *)
(* Values are sequences of words: <<>> unset or empty, <<w>> a scalar,          *)
(* <<w1, w2>> a list, <<<<w1, w2>>>> a list that can also be unset,              *)
(* <<<<k, v>>, ..>> a table.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Opt0 == [key |-> "", kind |-> "", def |-> <<>>, forms |-> {}, bad |-> {}, m |-> "", op |-> "set", crate |-> FALSE]
F(s, v) == [s |-> s, v |-> v]
Same(vs) == { F(v, v) : v \in vs }
OStr(k, vs) == [Opt0 EXCEPT !.key = k, !.kind = "ostr", !.forms = Same({ <<v>> : v \in vs }), !.bad = {"3", "true", "['x']"}]
Bool(k, d) == [Opt0 EXCEPT !.key = k, !.kind = "bool", !.def = <<d>>, !.forms = Same({<<"true">>, <<"false">>}), !.bad = {"1", "'true'"}]
Num(k, d, vs) == [Opt0 EXCEPT !.key = k, !.kind = "num", !.def = <<d>>, !.forms = Same({ <<v>> : v \in vs }), !.bad = {"'4'", "-1", "1.5"}]
Enum(k, d, sp, bad) == [Opt0 EXCEPT !.key = k, !.kind = "enum", !.def = IF d = "" THEN <<>> ELSE <<d>>, !.forms = { F(<<p[1]>>, <<p[2]>>) : p \in sp }, !.bad = {"1", "''"} \cup bad]
List(k, vs) == [Opt0 EXCEPT !.key = k, !.kind = "list", !.forms = Same(vs), !.bad = {"'x'", "[1]"}]
OList(k, vs) == [Opt0 EXCEPT !.key = k, !.kind = "olist", !.forms = { F(v, <<v>>) : v \in vs }, !.bad = {"'x'", "[1]"}]
Map(k, vs) == [Opt0 EXCEPT !.key = k, !.kind = "map", !.forms = Same(vs), !.bad = {"'x'", "['a']", "{ a = 1 }"}]
By(o, method) == [o EXCEPT !.m = method]
As(o, method, op) == [o EXCEPT !.m = method, !.op = op]
InCrate(o) == [o EXCEPT !.crate = TRUE]
Unknown(k) == [Opt0 EXCEPT !.key = k, !.kind = "none", !.bad = {"true", "'x'"}]

Sp(v, ss) == { <<s, v>> : s \in ss }
Languages == Sp("C", {"c", "C"}) \cup Sp("C++", {"cxx", "Cxx", "CXX", "cpp", "Cpp", "CPP", "c++", "C++"}) \cup Sp("Cython", {"cython", "Cython"})
Styles == Sp("Both", {"Both", "both"}) \cup Sp("Tag", {"Tag", "tag"}) \cup Sp("Type", {"Type", "type"})
Bracing == Sp("SameLine", {"SameLine", "same_line"}) \cup Sp("NextLine", {"NextLine", "next_line"})
Layouts == Sp("Horizontal", {"Horizontal", "horizontal"}) \cup Sp("Vertical", {"Vertical", "vertical"}) \cup Sp("Auto", {"Auto", "auto"})
Endings == Sp("LF", {"LF", "lf", "Lf"}) \cup Sp("CRLF", {"CRLF", "crlf", "CrLf"}) \cup Sp("CR", {"CR", "cr"}) \cup Sp("Native", {"Native", "native"})
DocStyles == Sp("c", {"c", "C"}) \cup Sp("c99", {"c99", "C99"}) \cup Sp("c++", {"c++", "C++", "cxx", "Cxx"}) \cup Sp("doxy", {"doxy", "Doxy"}) \cup Sp("auto", {"auto", "Auto"})
DocLengths == Sp("short", {"short", "Short"}) \cup Sp("full", {"full", "Full"})
SortKeys == Sp("Name", {"Name", "name"}) \cup Sp("None", {"None", "none"})
Rules == Sp("None", {"none", "None"}) \cup Sp("GeckoCase", {"mGeckoCase", "GeckoCase", "gecko_case"})
  \cup Sp("LowerCase", {"lowercase", "LowerCase", "lower_case"}) \cup Sp("UpperCase", {"UPPERCASE", "UpperCase", "upper_case"})
  \cup Sp("PascalCase", {"PascalCase", "pascal_case"}) \cup Sp("CamelCase", {"camelCase", "CamelCase", "camel_case"})
  \cup Sp("SnakeCase", {"snake_case", "SnakeCase"}) \cup Sp("ScreamingSnakeCase", {"SCREAMING_SNAKE_CASE", "ScreamingSnakeCase", "screaming_snake_case"})
  \cup Sp("QualifiedScreamingSnakeCase", {"QUALIFIED_SCREAMING_SNAKE_CASE", "QualifiedScreamingSnakeCase", "qualified_screaming_snake_case"})
  \cup Sp("prefix:pre_", {"prefix:pre_"}) \cup Sp("prefix:Q", {"prefix:Q"})
Rule(k, d) == Enum(k, d, Rules, {"'Pascal'", "'prefix'"})
Profiles == Sp("debug", {"debug", "Debug"}) \cup Sp("release", {"release", "Release"})
ItemTypes == [Opt0 EXCEPT !.key = "export.item_types", !.kind = "list",
  !.forms = Same({<<"constants">>, <<"globals">>, <<"enums">>, <<"structs">>, <<"unions">>, <<"typedefs">>, <<"opaque">>, <<"functions">>, <<"functions", "structs">>, <<"opaque", "enums", "globals">>})
            \cup {F(<<"Functions">>, <<"functions">>), F(<<"STRUCTS", "OPAQUE">>, <<"structs", "opaque">>)},
  !.bad = {"['function']", "'functions'", "[1]"}]

FileOptions == <<
  By(OStr("header", {"/* top */", "// first"}), "with_header"),
  As(List("includes", {<<"a.h">>, <<"b/c.h", "a.h">>}), "with_include", "push"),
  As(List("sys_includes", {<<"math.h">>, <<"time.h", "math.h">>}), "with_sys_include", "push"),
  By(OStr("after_includes", {"#define AFTER 1"}), "with_after_include"),
  By(OStr("trailer", {"/* end */"}), "with_trailer"),
  By(OStr("include_guard", {"CANARY_H", "OTHER_H"}), "with_include_guard"),
  By(Bool("pragma_once", "false"), "with_pragma_once"),
  As(Bool("no_includes", "false"), "with_no_includes", "true"),
  By(OStr("autogen_warning", {"/* autogen */"}), "with_autogen_warning"),
  By(Bool("include_version", "false"), "with_include_version"),
  By(OStr("namespace", {"ns"}), "with_namespace"),
  By(OList("namespaces", {<<"n1">>, <<"n1", "n2">>}), "with_namespaces"),
  By(OList("using_namespaces", {<<"u1">>, <<"u1", "u2">>}), "with_using_namespaces"),
  By(Enum("braces", "SameLine", Bracing, {"'sameline'", "'Next'"}), "with_braces"),
  By(Num("line_length", "100", {"30", "60", "100", "200"}), "with_line_length"),
  By(Num("tab_width", "2", {"1", "2", "4"}), "with_tab_width"),
  By(Enum("line_endings", "LF", Endings, {"'unix'"}), "with_line_endings"),
  By(Enum("language", "C++", Languages, {"'java'", "'C99'", "'cPP'"}), "with_language"),
  By(Bool("cpp_compat", "false"), "with_cpp_compat"),
  By(Enum("style", "Both", Styles, {"'BOTH'", "'typedef'"}), "with_style"),
  Enum("sort_by", "None", SortKeys, {"'Size'"}),
  Bool("usize_is_size_t", "false"),
  By(Bool("documentation", "true"), "with_documentation"),
  Enum("documentation_style", "auto", DocStyles, {"'java'"}),
  Enum("documentation_length", "full", DocLengths, {"'long'"}),
  As(Map("defines", {<<<<"target_os = linux", "ON_LINUX">>>>, <<<<"feature = fa", "HAS_FA">>, <<"unix", "ON_UNIX">>>>}), "with_define", "put"),
  As(List("export.include", {<<"Orphan">>, <<"Orphan", "OrphanUnion">>}), "include_item", "push"),
  As(List("export.exclude", {<<"plain_fn">>, <<"GLOBAL_ONE", "plain_fn">>}), "exclude_item", "push"),
  As(Map("export.rename", {<<<<"Point", "Renamed">>>>, <<<<"Shape", "Figure">>, <<"Point", "P2">>>>}), "rename_item", "put"),
  Map("export.pre_body", {<<<<"Point", "  // before">>>>}),
  Map("export.body", {<<<<"Point", "  // after">>>>, <<<<"Shape", "  // shape">>>>}),
  By(OStr("export.prefix", {"Cap", "x_"}), "with_item_prefix"),
  ItemTypes,
  Bool("export.renaming_overrides_prefixing", "false"),
  Rule("export.mangle.rename_types", "None"),
  Bool("export.mangle.remove_underscores", "false"),
  Bool("macro_expansion.bitflags", "false"),
  OStr("layout.packed", {"PACKED"}), OStr("layout.aligned_n", {"ALIGNED"}),
  OStr("fn.prefix", {"FN_PRE"}), OStr("fn.postfix", {"FN_POST"}), OStr("fn.must_use", {"FN_USE"}),
  OStr("fn.deprecated", {"FN_DEP"}), OStr("fn.deprecated_with_note", {"FN_DEPN({})"}), OStr("fn.no_return", {"NORET"}),
  OStr("fn.swift_name_macro", {"CF_SWIFT_NAME"}),
  Enum("fn.args", "Auto", Layouts, {"'HORIZONTAL'", "'diagonal'"}), Rule("fn.rename_args", "None"), Enum("fn.sort_by", "", SortKeys, {"'Size'"}),
  Rule("struct.rename_fields", "None"), Bool("struct.derive_constructor", "false"), Bool("struct.derive_eq", "false"), Bool("struct.derive_neq", "false"),
  Bool("struct.derive_lt", "false"), Bool("struct.derive_lte", "false"), Bool("struct.derive_gt", "false"), Bool("struct.derive_gte", "false"),
  Bool("struct.derive_ostream", "false"), Bool("struct.associated_constants_in_body", "false"), Rule("struct.rename_associated_constant", "None"),
  OStr("struct.must_use", {"ST_USE"}), OStr("struct.deprecated", {"ST_DEP"}), OStr("struct.deprecated_with_note", {"ST_DEPN({})"}),
  Rule("enum.rename_variants", "None"), Rule("enum.rename_variant_name_fields", "SnakeCase"), Bool("enum.add_sentinel", "false"), Bool("enum.prefix_with_name", "false"),
  Bool("enum.derive_helper_methods", "false"), Bool("enum.derive_const_casts", "false"), Bool("enum.derive_mut_casts", "false"),
  OStr("enum.cast_assert_name", {"MY_ASSERT"}), OStr("enum.must_use", {"EN_USE"}), OStr("enum.deprecated", {"EN_DEP"}), OStr("enum.deprecated_with_note", {"EN_DEPN({})"}),
  OStr("enum.deprecated_variant", {"VA_DEP"}), OStr("enum.deprecated_variant_with_note", {"VA_DEPN({})"}),
  Bool("enum.derive_tagged_enum_destructor", "false"), Bool("enum.derive_tagged_enum_copy_constructor", "false"), Bool("enum.derive_tagged_enum_copy_assignment", "false"),
  Bool("enum.derive_ostream", "false"), Bool("enum.enum_class", "true"), Bool("enum.private_default_tagged_enum_constructor", "false"),
  Bool("const.allow_static_const", "true"), Bool("const.allow_constexpr", "true"), Enum("const.sort_by", "", SortKeys, {"'Size'"}),
  OStr("ptr.non_null_attribute", {"NONNULL"}), OStr("ptr.nullable_attribute", {"NULLABLE"}),
  OStr("cython.header", {"<canary.h>"}),
  Map("cython.cimports", {<<<<"libc.math", <<"sin", "cos">>>>>>})
>>
(* what only matters for a whole crate *)
CrateOptions == LET s == <<
  Bool("package_version", "false"),
  By(Bool("only_target_dependencies", "false"), "with_only_target_dependencies"),
  By(Bool("parse.parse_deps", "false"), "with_parse_deps"),
  By(OList("parse.include", {<<>>, <<"da">>, <<"db", "dx">>}), "with_parse_include"),
  By(List("parse.exclude", {<<"da">>, <<"db">>, <<"da", "db">>}), "with_parse_exclude"),
  By(List("parse.extra_bindings", {<<"da">>, <<"dx">>, <<"da", "db">>}), "with_parse_extra_bindings"),
  Bool("parse.clean", "false"),
  By(List("parse.expand.crates", {<<"main">>, <<"da">>, <<"main", "da">>}), "with_parse_expand"),
  By(Bool("parse.expand.all_features", "false"), "with_parse_expand_all_features"),
  By(Bool("parse.expand.default_features", "true"), "with_parse_expand_default_features"),
  By(OList("parse.expand.features", {<<>>, <<"fa">>, <<"fa", "fb">>}), "with_parse_expand_features"),
  By(Enum("parse.expand.profile", "debug", Profiles, {"'Check'"}), "with_parse_expand_profile") >> IN [i \in 1..Len(s) |-> InCrate(s[i])]
UnknownKeys == <<"colour", "export.colour", "export.mangle.colour", "fn.colour", "struct.colour", "enum.colour", "const.colour", "layout.colour",
  "macro_expansion.colour", "parse.colour", "parse.expand.colour", "ptr.colour", "cython.colour", "function.prefix", "Language", "fn.Prefix">>
Unknowns == [i \in 1..Len(UnknownKeys) |-> Unknown(UnknownKeys[i])]
AllOptions == FileOptions \o CrateOptions
Keys == { AllOptions[i].key : i \in 1..Len(AllOptions) }
Defaults == [k \in Keys |-> AllOptions[CHOOSE i \in 1..Len(AllOptions) : AllOptions[i].key = k].def]
==============================================================================
