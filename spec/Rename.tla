------------------------------ MODULE Rename ------------------------------
(* Identifier renaming rules (word splitting as a small state machine over     *)
(* characters, one step per character), keyword escaping, explicit renames.    *)
EXTENDS Str

WordSplit(s) ==
  (* scanner state: done words, current word, mode B|L|U *)
  LET n == Len(s)
      Step(st, i) ==
        LET c == Ch(s, i) IN
        IF ~IsAlnum(c)
        THEN [ws |-> st.ws, cur |-> "", mode |-> "B"]
        ELSE
          LET last == i = n \/ ~IsAlnum(Ch(s, i + 1))
              nx == IF last THEN "" ELSE Ch(s, i + 1)
              m2 == IF c \in Lowers THEN "L" ELSE IF c \in Uppers THEN "U" ELSE st.mode
          IN IF last
             THEN [ws |-> Append(st.ws, st.cur \o c), cur |-> "", mode |-> "B"]
             ELSE IF m2 = "L" /\ nx \in Uppers
             THEN [ws |-> Append(st.ws, st.cur \o c), cur |-> "", mode |-> "B"]
             ELSE IF st.mode = "U" /\ c \in Uppers /\ nx \in Lowers
             THEN [ws |-> Append(st.ws, st.cur), cur |-> c, mode |-> "B"]
             ELSE [ws |-> st.ws, cur |-> st.cur \o c, mode |-> m2]
  IN FoldL(Step, [ws |-> <<>>, cur |-> "", mode |-> "B"], [i \in 1..n |-> i]).ws

Cap(w) == IF w = "" THEN "" ELSE ToUpperC(Ch(w, 1)) \o Lower(Drop(w, 1))
Pascal(s) == CatAll(MapSeq(WordSplit(s), Cap))
Camel(s) == LET ws == WordSplit(s) IN
            IF ws = <<>> THEN "" ELSE Lower(ws[1]) \o CatAll(MapSeq(Tail(ws), Cap))
Snake(s) == Join(MapSeq(WordSplit(s), Lower), "_")
Shouty(s) == Join(MapSeq(WordSplit(s), Upper), "_")

(* ctx: "m" struct member, "a" argument, "" other; evp: enum name for a variant ("" if not a variant) *)
(* a name never starts with a digit: the underscore that the word split loses comes back *)
Ident(s) == IF s # "" /\ Ch(s, 1) \in Digits THEN "_" \o s ELSE s
RuleApply(rule, text, ctx, evp) ==
  IF text = "" THEN "" ELSE Ident(
  CASE rule \in {"none", "None", ""} -> text
    [] rule \in {"GeckoCase", "mGeckoCase", "gecko_case"} -> ctx \o Pascal(text)
    [] rule \in {"lowercase", "LowerCase", "lower_case"} -> Lower(text)
    [] rule \in {"UPPERCASE", "UpperCase", "upper_case"} -> Upper(text)
    [] rule \in {"PascalCase", "pascal_case"} -> Pascal(text)
    [] rule \in {"camelCase", "CamelCase", "camel_case"} -> Camel(text)
    [] rule \in {"snake_case", "SnakeCase"} -> Snake(text)
    [] rule \in {"SCREAMING_SNAKE_CASE", "ScreamingSnakeCase", "screaming_snake_case"} -> Shouty(text)
    [] rule \in {"QUALIFIED_SCREAMING_SNAKE_CASE", "QualifiedScreamingSnakeCase", "qualified_screaming_snake_case"} ->
         (IF evp = "" THEN "" ELSE Shouty(evp) \o "_") \o Ident(Shouty(text))
    [] StartsWith(rule, "prefix:") -> Drop(rule, 7) \o text
    [] OTHER -> Assert(FALSE, <<"unknown rename rule", rule>>))

IsNone(rule) == rule \in {"none", "None", ""}

Keywords == {
  "alignas", "alignof", "auto", "bool", "break", "case", "catch", "char", "char16_t", "char32_t",
  "char8_t", "class", "const", "const_cast", "consteval", "constexpr", "continue", "decltype",
  "default", "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit", "export",
  "extern", "false", "float", "for", "friend", "goto", "if", "inline", "int", "long", "mutable",
  "namespace", "new", "noexcept", "nullptr", "operator", "private", "protected", "public",
  "register", "reinterpret_cast", "return", "short", "signed", "sizeof", "static",
  "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local", "throw",
  "true", "try", "typedef", "typename", "union", "unsigned", "using", "virtual", "void",
  "volatile", "wchar_t", "while" }

Escape(n) == IF n \in Keywords THEN n \o "_" ELSE n

(* [export.rename] then [export] prefix *)
ExportRename(cfg, n) ==
  LET i == FirstIdx(cfg.rename, LAMBDA r : r.k = n) IN
  IF i # 0 THEN (IF cfg.renaming_overrides THEN "" ELSE cfg.prefix) \o cfg.rename[i].v
  ELSE cfg.prefix \o n
=============================================================================
