-------------------------------- MODULE Emit --------------------------------
(* What the writer must put in the header for a finished library: the sequence *)
(* of declarations, in the vocabulary of the header projection (lib/hdr.py).   *)
EXTENDS Pipeline

IsC(cfg) == cfg.lang = "C"
IsCxx(cfg) == cfg.lang = "Cxx"
IsCy(cfg) == cfg.lang = "Cython"
HasTag(cfg) == cfg.style # "type"
HasTypedef(cfg) == cfg.style # "tag"

D0 == [k |-> "", n |-> "", tag |-> "", td |-> "", gen |-> <<>>, attrs |-> <<>>, fields |-> <<>>, vals |-> <<>>,
       t |-> "", v |-> "", prim |-> "", cond |-> CTrue, ext |-> FALSE, cls |-> FALSE, doc |-> <<>>]
F0 == [n |-> "", t |-> "", cond |-> CTrue, fs |-> <<>>, bits |-> "", doc |-> <<>>]

Squeeze(s) == MapChars(s, LAMBDA c : IF c = " " THEN "" ELSE c)
NonEmpty(q) == Filter(q, LAMBDA s : s # "")
(* in a block comment the text must not end the comment *)
DocText(cfg, s) == IF IsC(cfg) THEN Replace(s, "*/", "* /") ELSE s
Docs(cfg, d) == IF ~cfg.docs \/ d = <<>> THEN <<>> ELSE MapSeq(IF cfg.doc_short THEN <<d[1]>> ELSE d, LAMBDA s : DocText(cfg, s))
CondOf(cfg, it) == ToCond(cfg, it.cfg)

(* attributes *)
DepNote(cfg, dep, plain, noted) ==
  IF ~dep.h \/ IsCy(cfg) THEN ""
  ELSE IF dep.s = "" THEN plain
  ELSE IF noted = "" THEN "" ELSE noted \o "(\"" \o dep.s \o "\")"
MustUse(cfg, it, a) == IF it.mu /\ ~IsCy(cfg) THEN a ELSE ""
AlignAttr(cfg, it) ==
  IF IsCy(cfg) THEN (IF it.al.k = "packed" /\ it.k = "struct" THEN "packed" ELSE "")
  ELSE CASE it.al.k = "packed" -> cfg.packed
         [] it.al.k = "align" -> cfg.aligned_n \o "(" \o it.al.v \o ")"
         [] OTHER -> ""

(* a textual `const` in front of a declaration qualifies the innermost base type *)
RECURSIVE CanonTC(_, _, _)
CanonTC(cfg, t, c) ==
  CASE t.k \in {"path", "prim"} -> Canon(cfg, t, TRUE)
    [] t.k = "ptr" -> IF t.rf THEN "&(" \o CanonTC(cfg, t.t, t.c) \o ")"
                      ELSE (IF c THEN "const " ELSE "") \o "*" \o PtrAttr(cfg, t.nl) \o "(" \o CanonTC(cfg, t.t, t.c) \o ")"
    [] t.k = "arr" -> "[" \o ConstStr(t.l) \o "](" \o CanonTC(cfg, t.t, c) \o ")"
    [] t.k = "fn" -> "*" \o PtrAttr(cfg, TRUE) \o "(fn(" \o CanonArgs(cfg, t.a) \o ")->"
                     \o (IF t.nr /\ ~IsCy(cfg) THEN cfg.no_return ELSE "") \o "(" \o CanonTC(cfg, t.r, FALSE) \o "))"
RECURSIVE ConstBase(_, _)
ConstBase(t, c) == CASE t.k \in {"path", "prim"} -> c
                     [] t.k = "ptr" -> ConstBase(t.t, t.c)
                     [] t.k = "arr" -> ConstBase(t.t, c)
                     [] OTHER -> ConstBase(t.r, FALSE)

(* ---- generics (C++) ---------------------------------------------------------- *)
GenStr(cfg, gen, opaque) ==
  IF ~IsCxx(cfg) THEN <<>>
  ELSE [i \in 1..Len(gen) |->
          LET g == gen[i]
              d == IF g.dh THEN "=" \o CanonGArg(cfg, g.d)
                   ELSE IF opaque THEN (IF g.c THEN "=0" ELSE "=void") ELSE ""
          IN IF g.c THEN Canon(cfg, g.ct, FALSE) \o " " \o g.n \o d ELSE "typename " \o g.n \o d]

(* ---- constants ---------------------------------------------------------------- *)
IntName == [u8 |-> "UINT8", u16 |-> "UINT16", u32 |-> "UINT32", u64 |-> "UINT64",
            i8 |-> "INT8", i16 |-> "INT16", i32 |-> "INT32", i64 |-> "INT64"]
KnownAssoc(to, n) ==
  IF n \notin {"MAX", "MIN"} \/ to \notin PrimNames THEN ""
  ELSE LET p == PrimTable[to] IN
       IF p \notin DOMAIN IntName THEN ""
       ELSE IF n = "MIN" /\ Ch(p, 1) = "u" THEN "0" ELSE IntName[p] \o "_" \o n
RECURSIVE ResolveStruct(_, _)
ResolveStruct(lib, n) ==
  LET i == LastIdx(lib.typedefs, LAMBDA t : t.n = n /\ t.t.k = "path") IN
  IF i = 0 THEN n ELSE ResolveStruct(lib, lib.typedefs[i].t.n)
StructsAt(lib, n) == ByPath(lib.structs, ResolveStruct(lib, n))
FieldPairs(lib, n) ==
  LET Ins(q, pos, f) == SubSeq(q, 1, pos) \o <<[s |-> f.src, x |-> f.n]>> \o SubSeq(q, pos + 1, Len(q))
      OneF(st, f) == LET j == FirstIdx(st.q, LAMBDA e : e.x = f.n) IN
                     IF j # 0 THEN [st EXCEPT !.p = j] ELSE [q |-> Ins(st.q, st.p, f), p |-> st.p + 1]
      OneS(q, s) == FoldL(OneF, [q |-> q, p |-> 0], s.fields).q
  IN FoldL(OneS, <<>>, StructsAt(lib, n))
Transparent(lib, n) == \E i \in 1..Len(StructsAt(lib, n)) : StructsAt(lib, n)[i].trans
RECURSIVE LitValid(_, _)
LitValid(lib, e) ==
  CASE e.k = "path" -> e.to = "" \/ StructsAt(lib, e.to) # <<>> \/ ByPath(lib.enums, e.to) # <<>> \/ KnownAssoc(e.to, e.n) # ""
    [] e.k \in {"un", "field", "cast"} -> LitValid(lib, e.a)
    [] e.k = "bin" -> LitValid(lib, e.a) /\ LitValid(lib, e.b)
    [] e.k = "struct" -> StructsAt(lib, e.n) # <<>>
    [] e.k = "arr" -> \A i \in 1..Len(e.as) : LitValid(lib, e.as[i])
    [] OTHER -> TRUE
LitHas(e0, P(_)) ==
  LET RECURSIVE H(_)
      H(e) == P(e) \/ (CASE e.k \in {"un", "field", "cast"} -> H(e.a)
                         [] e.k = "bin" -> H(e.a) \/ H(e.b)
                         [] e.k = "struct" -> \E i \in 1..Len(e.f) : H(e.f[i].v)
                         [] e.k = "arr" -> \E i \in 1..Len(e.as) : H(e.as[i])
                         [] OTHER -> FALSE)
  IN H(e0)
PtrCasts(e) == LitHas(e, LAMBDA x : x.k = "cast" /\ x.t.k \in {"ptr", "fn"})
RECURSIVE PrimOrPtr(_)
PrimOrPtr(t) == CASE t.k = "prim" -> TRUE [] t.k = "ptr" -> t.t.k = "prim" [] OTHER -> FALSE
NamesItem(x) == x.k = "path" /\ x.to # "" /\ KnownAssoc(x.to, x.n) = ""
OnlyPrim(c) == PrimOrPtr(c.t) /\ ~LitHas(c.val, LAMBDA x : x.k = "struct" \/ (x.k = "cast" /\ ~PrimOrPtr(x.t)) \/ NamesItem(x))

RECURSIVE CText(_, _, _)
CText(cfg, t, c) ==
  CASE t.k = "ptr" -> CText(cfg, t.t, t.c) \o "*" \o (IF c THEN "const" ELSE "") \o PtrAttr(cfg, t.nl)
    [] t.k = "prim" -> (IF c THEN "const" ELSE "") \o Squeeze(CRepr(cfg, t.p))
    [] OTHER -> (IF c THEN "const" ELSE "") \o (IF IsCy(cfg) THEN "" ELSE t.ct) \o t.x
VarRef(cfg, lib, to, n) ==
  LET es == Filter(ByPath(lib.enums, to), LAMBDA e : \E i \in 1..Len(e.vars) : e.vars[i].n = n) IN
  IF es = <<>> THEN ""
  ELSE LET e == es[1] v == e.vars[FirstIdx(e.vars, LAMBDA w : w.n = n)] IN
       IF IsCxx(cfg) /\ AnnoBool(e.ann, "enum-class", cfg.enum_class) THEN e.x \o "::" \o v.x ELSE v.x
InBody(cfg, st) == IsCxx(cfg) /\ cfg.assoc_in_body /\ cfg.allow_static_const /\ ~st.trans
AssocName(cfg, st, n) ==
  IF InBody(cfg, st) THEN st.x \o "::" \o n
  ELSE RuleApply(AnnoAtom(st.ann, "rename-associated-constant", cfg.rename_assoc), st.x, "", "") \o "_" \o n
(* a reference names the constant exactly as it is declared *)
AssocRef(cfg, lib, e) ==
  LET ss == Filter(StructsAt(lib, e.to), LAMBDA s : \E i \in 1..Len(s.assoc) : s.assoc[i].x = e.n) IN
  IF ss = <<>> THEN e.x \o "_" \o e.n ELSE AssocName(cfg, ss[1], e.n)
RECURSIVE LitStr(_, _, _)
LitStr(cfg, lib, e) ==
  CASE e.k = "raw" -> IF IsCy(cfg) THEN (CASE e.v = "true" -> "True" [] e.v = "false" -> "False" [] OTHER -> e.v) ELSE e.v
    [] e.k = "path" -> IF e.to = "" THEN e.n
                       ELSE IF KnownAssoc(e.to, e.n) # "" THEN KnownAssoc(e.to, e.n)
                       ELSE IF VarRef(cfg, lib, e.to, e.n) # "" THEN VarRef(cfg, lib, e.to, e.n)
                       ELSE AssocRef(cfg, lib, e)
    [] e.k = "un" -> IF e.a.k = "un" /\ e.a.op = e.op THEN e.op \o "(" \o LitStr(cfg, lib, e.a) \o ")" ELSE e.op \o LitStr(cfg, lib, e.a)
    [] e.k = "bin" -> "(" \o LitStr(cfg, lib, e.a) \o e.op \o LitStr(cfg, lib, e.b) \o ")"
    [] e.k = "field" -> "(" \o LitStr(cfg, lib, e.a) \o ")." \o e.n
    [] e.k = "cast" -> (IF IsCy(cfg) THEN "<" \o CText(cfg, e.t, FALSE) \o ">" ELSE "(" \o CText(cfg, e.t, FALSE) \o ")")
                       \o LitStr(cfg, lib, e.a)
    [] e.k = "arr" -> LET b == CatAll([i \in 1..Len(e.as) |-> LitStr(cfg, lib, e.as[i]) \o ","]) IN
                      IF IsCy(cfg) THEN "[" \o b \o "]" ELSE "{" \o b \o "}"
    [] e.k = "struct" ->
         LET ps == FieldPairs(lib, e.n)
             At(s) == FirstIdx(e.f, LAMBDA f : f.n = s)
             have == Filter(ps, LAMBDA p : At(p.s) # 0)
             one == [i \in 1..Len(have) |-> (IF IsC(cfg) THEN "." \o have[i].x \o "=" ELSE "")
                                            \o LitStr(cfg, lib, e.f[At(have[i].s)].v)]
         IN (CASE IsC(cfg) -> "(" \o e.x \o ")" [] IsCxx(cfg) -> e.x [] OTHER -> "<" \o e.x \o ">")
            \o "{" \o Join(one, ",") \o "}"
    [] OTHER -> "?"
RECURSIVE Unwrap(_, _)
Unwrap(lib, e) ==
  IF e.k # "struct" \/ ~Transparent(lib, e.n) THEN e
  ELSE LET ps == FieldPairs(lib, e.n)
           i == FirstIdx(e.f, LAMBDA f : f.n = ps[1].s) IN
       Unwrap(lib, e.f[IF i = 0 THEN 1 ELSE i].v)
(* st: the struct the constant is associated to, or Item0 *)
EmitConst(cfg, lib, c, st, outer) ==
  LET inStruct == st.k = "struct"
      inBody == inStruct /\ InBody(cfg, st)
      name == IF inStruct THEN AssocName(cfg, st, c.x)
              ELSE IF c.at = "" THEN c.x
              ELSE ExportRename(cfg, c.at) \o "_" \o c.x
      ce == cfg.allow_constexpr /\ ~PtrCasts(c.val)
      textual == IF IsCy(cfg) THEN ~ConstBase(c.t, FALSE) ELSE ~(c.t.k = "ptr" /\ c.t.c) /\ ~ConstBase(c.t, FALSE)
      ty == IF textual THEN CanonTC(cfg, c.t, FALSE) ELSE Canon(cfg, c.t, FALSE)
      v == LitStr(cfg, lib, Unwrap(lib, c.val))
      d == [D0 EXCEPT !.k = "const", !.n = name, !.v = v, !.cond = CondAnd(outer, CondOf(cfg, c)), !.doc = Docs(cfg, c.doc)]
  IN IF (inStruct /\ st.gen # <<>>) \/ ~LitValid(lib, c.val) THEN <<>>
     ELSE IF IsCxx(cfg) /\ (cfg.allow_static_const \/ ce)
     THEN <<[d EXCEPT !.t = ty, !.attrs = NonEmpty(<<IF ce THEN "constexpr" ELSE "",
                IF cfg.allow_static_const THEN (IF inBody THEN "inline" ELSE "static") ELSE "">>)]>>
     ELSE IF IsCy(cfg) THEN <<[d EXCEPT !.t = ty]>>
     ELSE <<[d EXCEPT !.td = "define"]>>

(* ---- types ---------------------------------------------------------------------- *)
EmitField(cfg, f, cond) ==
  [F0 EXCEPT !.n = f.n, !.t = Canon(cfg, f.t, FALSE), !.doc = Docs(cfg, f.doc),
             !.cond = IF IsCy(cfg) THEN CTrue ELSE CondAnd(cond, ToCond(cfg, f.cfg)),
             !.bits = IF IsCy(cfg) THEN "" ELSE AnnoAtom(f.ann, "bitfield", "")]
(* raw text the user configured for the body of a type: here always a member *)
BodyAt(q, n) == LET i == LastIdx(q, LAMBDA b : b.k = n) IN IF i = 0 THEN <<>> ELSE <<[F0 EXCEPT !.n = q[i].v, !.t = "int"]>>
Bodied(cfg, it, cond, fs) ==
  LET W(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.cond = IF IsCy(cfg) THEN CTrue ELSE cond]] IN
  W(BodyAt(cfg.pre_body, it.n)) \o fs \o W(BodyAt(cfg.body, it.n))
EmitFields(cfg, fs, cond) == [i \in 1..Len(fs) |-> EmitField(cfg, fs[i], cond)]
Tags(cfg, d, x) ==
  CASE IsC(cfg) -> [d EXCEPT !.tag = IF HasTag(cfg) THEN x ELSE "", !.td = IF HasTypedef(cfg) THEN x ELSE ""]
    [] IsCxx(cfg) -> [d EXCEPT !.tag = x]
    [] OTHER -> [d EXCEPT !.tag = x, !.td = IF HasTag(cfg) THEN "" ELSE x]
StructAttrs(cfg, s) ==
  NonEmpty(<<AlignAttr(cfg, s), MustUse(cfg, s, cfg.mu_st), DepNote(cfg, s.dep, cfg.dep_st, cfg.depn_st)>>)
EmitStruct(cfg, lib, s) ==
  LET c == CondOf(cfg, s)
      assoc == ConcatAll([i \in 1..Len(s.assoc) |-> EmitConst(cfg, lib, s.assoc[i], s, IF s.trans THEN CTrue ELSE c)])
      d == [D0 EXCEPT !.n = s.x, !.gen = GenStr(cfg, s.gen, FALSE), !.cond = c, !.doc = Docs(cfg, s.doc)]
  IN (IF s.trans
      THEN <<[d EXCEPT !.k = "typedef", !.td = IF IsC(cfg) THEN s.x ELSE "", !.t = Canon(cfg, s.fields[1].t, FALSE)]>>
      ELSE <<Tags(cfg, [d EXCEPT !.k = "struct", !.attrs = StructAttrs(cfg, s),
                                    !.fields = Bodied(cfg, s, c, EmitFields(cfg, s.fields, c))], s.x)>>)
     \o assoc
EmitUnion(cfg, u) ==
  LET c == CondOf(cfg, u) IN
  <<Tags(cfg, [D0 EXCEPT !.k = "union", !.n = u.x, !.gen = GenStr(cfg, u.gen, FALSE), !.cond = c, !.doc = Docs(cfg, u.doc),
                         !.attrs = NonEmpty(<<AlignAttr(cfg, u)>>),
                         !.fields = Bodied(cfg, u, c, EmitFields(cfg, u.fields, c))], u.x)>>
EmitOpaque(cfg, o) ==
  LET c == CondOf(cfg, o)
      d == [D0 EXCEPT !.n = o.x, !.cond = c, !.doc = Docs(cfg, o.doc)] IN
  IF IsCy(cfg) THEN <<Tags(cfg, [d EXCEPT !.k = "struct"], o.x)>>
  ELSE IF IsCxx(cfg) THEN <<[d EXCEPT !.k = "opaque", !.tag = o.x, !.gen = GenStr(cfg, o.gen, TRUE)]>>
  ELSE <<[d EXCEPT !.k = "opaque", !.tag = o.x, !.td = IF HasTypedef(cfg) THEN o.x ELSE ""]>>
EmitTypedef(cfg, t) ==
  <<[D0 EXCEPT !.k = "typedef", !.n = t.x, !.td = IF IsC(cfg) THEN t.x ELSE "", !.gen = GenStr(cfg, t.gen, FALSE),
               !.t = Canon(cfg, t.t, FALSE), !.cond = CondOf(cfg, t), !.doc = Docs(cfg, t.doc)]>>

EmitVals(cfg, lib, e, c) ==
  [i \in 1..Len(e.vars) |->
     LET v == e.vars[i] IN
     [n |-> v.x, v |-> IF v.d.k = "nolit" THEN "" ELSE LitStr(cfg, lib, v.d),
      cond |-> IF IsCy(cfg) THEN CTrue ELSE CondAnd(c, ToCond(cfg, v.cfg)),
      attrs |-> NonEmpty(<<DepNote(cfg, v.dep, cfg.dep_ev, cfg.depn_ev)>>), doc |-> Docs(cfg, v.doc)]]
EmitEnum(cfg, lib, e) ==
  LET c == CondOf(cfg, e)
      data == e.tag # ""
      inl == e.style = "Rust"
      tagName == IF data THEN e.tag ELSE e.x
      prim == IF e.prim = "" THEN "" ELSE CRepr(cfg, e.prim)
      pre == IF data /\ IsCxx(cfg) THEN e.x \o "::" ELSE ""
      edoc == Docs(cfg, e.doc)
      ed == [D0 EXCEPT !.k = "enum", !.n = pre \o tagName, !.cond = c, !.vals = EmitVals(cfg, lib, e, c),
                       !.doc = IF data /\ IsCxx(cfg) THEN <<>> ELSE edoc]
      edep == DepNote(cfg, e.dep, cfg.dep_en, cfg.depn_en)
      tagEnum ==
        CASE IsCxx(cfg) -> <<[ed EXCEPT !.tag = tagName, !.prim = prim, !.cls = AnnoBool(e.ann, "enum-class", cfg.enum_class),
                                        !.attrs = NonEmpty(<<MustUse(cfg, e, cfg.mu_en), edep>>),
                                        !.gen = IF data THEN <<>> ELSE GenStr(cfg, e.gen, FALSE)]>>
          [] IsC(cfg) -> IF prim # ""
                         THEN <<[ed EXCEPT !.tag = tagName, !.attrs = NonEmpty(<<edep>>)],
                                [D0 EXCEPT !.k = "typedef", !.n = tagName, !.td = tagName, !.t = prim, !.cond = c]>>
                         ELSE <<[Tags(cfg, ed, tagName) EXCEPT !.attrs = NonEmpty(<<edep>>)]>>
          [] OTHER -> IF prim # ""
                      THEN <<[ed EXCEPT !.n = ""], [D0 EXCEPT !.k = "typedef", !.n = tagName, !.t = prim, !.cond = c]>>
                      ELSE <<[ed EXCEPT !.tag = tagName]>>
      withBody == Filter(e.vars, LAMBDA v : v.hasb)
      VC(v) == IF IsCy(cfg) THEN c ELSE CondAnd(c, ToCond(cfg, v.cfg))
      bodies == ConcatAll([i \in 1..Len(withBody) |->
                   LET v == withBody[i] IN
                   IF v.inl THEN <<>>
                   ELSE <<Tags(cfg, [D0 EXCEPT !.k = "struct", !.n = pre \o v.b.x, !.cond = VC(v),
                                      !.attrs = StructAttrs(cfg, v.b), !.fields = EmitFields(cfg, v.b.fields, VC(v))], v.b.x)>>])
      tagField == [F0 EXCEPT !.n = "tag", !.cond = IF IsCy(cfg) THEN CTrue ELSE c,
                             !.t = (IF IsC(cfg) /\ prim = "" /\ ~HasTypedef(cfg) THEN "enum " ELSE "") \o tagName]
      VF(v) == IF v.inl
               THEN IF IsCy(cfg) THEN EmitFields(cfg, IF inl THEN Tail(v.b.fields) ELSE v.b.fields, c)
                    ELSE <<[F0 EXCEPT !.t = "struct", !.cond = VC(v), !.fs = EmitFields(cfg, v.b.fields, VC(v))]>>
               ELSE <<[F0 EXCEPT !.n = v.mn, !.cond = IF IsCy(cfg) THEN CTrue ELSE VC(v),
                                 !.t = (IF HasTypedef(cfg) \/ IsCy(cfg) THEN "" ELSE "struct ") \o v.b.x]>>
      vfs == ConcatAll([i \in 1..Len(withBody) |-> VF(withBody[i])])
      fields == IF IsCy(cfg) THEN <<tagField>> \o vfs
                ELSE IF inl THEN <<IF IsCxx(cfg) THEN [F0 EXCEPT !.t = "struct", !.cond = c, !.fs = <<tagField>>] ELSE tagField>> \o vfs
                ELSE <<tagField, [F0 EXCEPT !.t = "union", !.cond = c, !.fs = vfs]>>
      outerD == Tags(cfg, [D0 EXCEPT !.k = IF inl THEN "union" ELSE "struct", !.n = e.x, !.cond = c, !.fields = Bodied(cfg, e, c, fields),
                              !.gen = GenStr(cfg, e.gen, FALSE), !.doc = IF IsCxx(cfg) THEN edoc ELSE <<>>,
                              !.attrs = NonEmpty(<<MustUse(cfg, e, cfg.mu_st), DepNote(cfg, e.dep, cfg.dep_st, cfg.depn_st)>>)], e.x)
  IN IF ~data THEN tagEnum ELSE tagEnum \o bodies \o <<outerD>>

EmitItem(cfg, lib, it) ==
  CASE it.k = "struct" -> EmitStruct(cfg, lib, it)
    [] it.k = "union" -> EmitUnion(cfg, it)
    [] it.k = "enum" -> EmitEnum(cfg, lib, it)
    [] it.k = "opaque" -> EmitOpaque(cfg, it)
    [] OTHER -> EmitTypedef(cfg, it)

(* ---- globals and functions ---------------------------------------------------------- *)
EmitStatic(cfg, s) ==
  LET textual == ~(s.t.k = "ptr" /\ s.t.c) /\ ~s.mutb /\ ~ConstBase(s.t, FALSE) IN
  <<[D0 EXCEPT !.k = "global", !.n = s.x, !.cond = CondOf(cfg, s), !.ext = IsCxx(cfg), !.doc = Docs(cfg, s.doc),
               !.t = IF textual THEN CanonTC(cfg, s.t, FALSE) ELSE Canon(cfg, s.t, FALSE)]>>
SwiftName(f) ==
  LET N == f.n
      RECURSIVE TrimP(_, _)
      TrimP(s, p) == IF p # "" /\ StartsWith(s, p) THEN TrimP(Drop(s, Len(p)), p) ELSE s
      base == TrimP(TrimP(N, f.at), "_")
  IN IF f.at # "" /\ ~StartsWith(N, f.at) THEN N
     ELSE IF \E i \in 1..Len(f.args) : f.args[i].n = "" THEN ""
     ELSE (IF f.at = "" THEN "" ELSE f.at \o ".") \o base \o "("
          \o CatAll([i \in 1..Len(f.args) |-> f.args[i].n \o ":"]) \o ")"
FnArg(cfg, a) ==
  IF a.al.h THEN a.n \o ":[" \o a.al.s \o "](" \o Canon(cfg, a.t.t, a.t.c) \o ")" ELSE CanonArg(cfg, a)
RECURSIVE EndsFn(_)
EndsFn(t) == t.k = "fn" \/ (t.k = "ptr" /\ EndsFn(t.t))
RECURSIVE CanonRetA(_, _, _, _)
CanonRetA(cfg, t, at, c) ==
  CASE t.k = "fn" /\ ~EndsFn(t.r) -> "*" \o PtrAttr(cfg, TRUE) \o "(fn(" \o CanonArgs(cfg, t.a) \o ")->"
                     \o (IF t.nr /\ ~IsCy(cfg) THEN cfg.no_return ELSE "") \o at \o "(" \o Canon(cfg, t.r, FALSE) \o "))"
    [] t.k = "fn" -> "*" \o PtrAttr(cfg, TRUE) \o "(fn(" \o CanonArgs(cfg, t.a) \o ")->(" \o CanonRetA(cfg, t.r, at, FALSE) \o "))"
    [] OTHER -> (IF c THEN "const " ELSE "") \o "*" \o PtrAttr(cfg, t.nl) \o "(" \o CanonRetA(cfg, t.t, at, t.c) \o ")"
EmitFn(cfg, f) ==
  LET nr == IF f.never /\ ~IsCy(cfg) THEN cfg.no_return ELSE ""
      post == IF f.ext THEN "" ELSE AnnoAtom(f.ann, "postfix", cfg.fn_postfix)
      sw == IF cfg.swift = "" \/ IsCy(cfg) \/ SwiftName(f) = "" THEN "" ELSE cfg.swift \o "(" \o SwiftName(f) \o ")"
      at == nr \o post \o sw
      args == Join([i \in 1..Len(f.args) |-> FnArg(cfg, f.args[i])], ",")
  IN <<[D0 EXCEPT !.k = "fn", !.n = f.x, !.cond = CondOf(cfg, f), !.ext = IsCxx(cfg), !.doc = Docs(cfg, f.doc),
         !.t = IF EndsFn(f.ret) THEN "fn(" \o args \o ")->(" \o CanonRetA(cfg, f.ret, at, FALSE) \o ")"
               ELSE "fn(" \o args \o ")->" \o at \o "(" \o Canon(cfg, f.ret, FALSE) \o ")",
         !.attrs = IF f.ext THEN <<"extern">>
                   ELSE NonEmpty(<<AnnoAtom(f.ann, "prefix", cfg.fn_prefix), MustUse(cfg, f, cfg.mu_fn),
                                   DepNote(cfg, f.dep, cfg.dep_fn, cfg.depn_fn)>>)]>>

(* ---- the whole header ------------------------------------------------------------------ *)
EmitAll(cfg, lib, items) ==
  LET cs == FinalConsts(cfg, lib)
      C(P(_)) == ConcatAll(MapSeq(Filter(cs, P), LAMBDA c : EmitConst(cfg, lib, c, Item0, CTrue)))
      vis == Filter(items, LAMBDA i : Exported(i.ann))
      gs == Filter(FinalGlobals(cfg, lib), LAMBDA i : Exported(i.ann))
      fs == Filter(FinalFns(cfg, lib), LAMBDA i : Exported(i.ann))
  IN C(OnlyPrim) \o ConcatAll(MapSeq(vis, LAMBDA i : EmitItem(cfg, lib, i)))
     \o C(LAMBDA c : ~OnlyPrim(c))
     \o ConcatAll(MapSeq(gs, LAMBDA g : EmitStatic(cfg, g)))
     \o ConcatAll(MapSeq(fs, LAMBDA f : EmitFn(cfg, f)))

(* dynamic symbols, in order: functions then globals *)
Symbols(cfg, lib) ==
  MapSeq(Filter(FinalFns(cfg, lib), LAMBDA i : Exported(i.ann)), LAMBDA f : f.n)
  \o MapSeq(Filter(FinalGlobals(cfg, lib), LAMBDA i : Exported(i.ann)), LAMBDA g : g.x)
=============================================================================
