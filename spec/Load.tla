-------------------------------- MODULE Load --------------------------------
(* From a program (an abstract Rust crate) to the library of items the         *)
(* generator works on: which items are taken, which become opaque, which are   *)
(* skipped, and the shape they have before any transformation.                 *)
EXTENDS Types, CfgCond

(* ---- annotations ----------------------------------------------------------- *)
AnnoIdx(ann, k) == LastIdx(ann, LAMBDA a : a.k = k)
AnnoBool(ann, k, dflt) == LET i == AnnoIdx(ann, k) IN IF i # 0 /\ ann[i].t = "bool" THEN ann[i].b ELSE dflt
AnnoAtom(ann, k, dflt) == LET i == AnnoIdx(ann, k) IN IF i # 0 /\ ann[i].t = "atom" THEN ann[i].s ELSE dflt
AnnoHasList(ann, k) == LET i == AnnoIdx(ann, k) IN i # 0 /\ ann[i].t = "list"
AnnoList(ann, k) == ann[AnnoIdx(ann, k)].l
Exported(ann) == ~AnnoBool(ann, "no-export", FALSE)

NoLen == [h |-> FALSE, s |-> ""]
NoDep == [h |-> FALSE, s |-> ""]
NoLit == [k |-> "nolit"]
NoAlign == [k |-> "none", v |-> ""]

Item0 == [k |-> "", n |-> "", x |-> "", gen |-> <<>>, cfg |-> NoCfg, ann |-> <<>>, mu |-> FALSE, dep |-> NoDep,
          fields |-> <<>>, tagf |-> FALSE, body |-> FALSE, al |-> NoAlign, trans |-> FALSE, assoc |-> <<>>,
          vars |-> <<>>, prim |-> "", style |-> "", tag |-> "", t |-> NoneT, args |-> <<>>, ret |-> NoneT,
          never |-> FALSE, ext |-> FALSE, mutb |-> FALSE, val |-> NoLit, at |-> "", doc |-> <<>>]
Field0 == [n |-> "", src |-> "", t |-> NoneT, cfg |-> NoCfg, ann |-> <<>>, doc |-> <<>>]
Var0 == [n |-> "", x |-> "", d |-> NoLit, cfg |-> NoCfg, hasb |-> FALSE, mn |-> "", b |-> Item0, inl |-> FALSE,
         inlc |-> FALSE, ann |-> <<>>, dep |-> NoDep, doc |-> <<>>]

EmptyLib == [structs |-> <<>>, unions |-> <<>>, enums |-> <<>>, opaques |-> <<>>, typedefs |-> <<>>,
             consts |-> <<>>, globals |-> <<>>, fns |-> <<>>]

(* ---- item maps ------------------------------------------------------------- *)
ByPath(q, n) == Filter(q, LAMBDA i : i.n = n)
(* an item joins the map unless its path is taken; several items may share a   *)
(* path only when every one of them is behind a cfg                            *)
TryInsert(q, it) ==
  LET i == LastIdx(q, LAMBDA o : o.n = it.n) IN
  IF i = 0 THEN Append(q, it)
  ELSE IF it.cfg.k # "none" /\ q[i].cfg.k # "none"
       THEN SubSeq(q, 1, i) \o <<it>> \o SubSeq(q, i + 1, Len(q))
  ELSE q

(* ---- generics -------------------------------------------------------------- *)
LoadArg(a) == IF a.k \in {"cval", "cpath"} THEN LoadConst(a)
              ELSE LET x == LoadTy(a) IN IF x = NoneT THEN Void ELSE x
LoadGen(g) == [i \in 1..Len(g) |-> [n |-> g[i].n, c |-> g[i].c, ct |-> IF g[i].c THEN LoadTy(g[i].t) ELSE NoneT,
                                     dh |-> g[i].d.h, d |-> IF g[i].d.h THEN LoadArg(g[i].d.a) ELSE NoneT]]
GenNames(g) == { g[i].n : i \in 1..Len(g) }

(* ---- literals --------------------------------------------------------------- *)
(* C has no universal character names below U+00A0: those are written as hexadecimal escapes *)
RECURSIVE Hex(_, _)
Hex(n, w) == IF w = 0 THEN "" ELSE Hex(n \div 16, w - 1) \o SubSeq("0123456789ABCDEF", (n % 16) + 1, (n % 16) + 1)
ChrStr(cp) == IF cp < 160 THEN "U'\\x" \o Hex(cp, 2) \o "'" ELSE "U'\\U" \o Hex(cp, 8) \o "'"

RECURSIVE LoadLit(_)
LoadLit(e) ==
  CASE e.k = "int" -> [k |-> "raw", v |-> e.v \o
                         (CASE e.sfx = "u64" -> "ull" [] e.sfx = "i64" -> "ll" [] e.sfx = "u32" -> "u"
                            [] e.big -> "ull" [] OTHER -> "")]
    [] e.k = "raw" -> e
    [] e.k = "chr" -> [k |-> "raw", v |-> ChrStr(e.cp), num |-> e.cp]
    [] e.k = "path" -> [k |-> "path", to |-> e.to, x |-> IF e.to = "" THEN e.n ELSE e.to, n |-> e.n]
    [] e.k = "un" -> LET a == LoadLit(e.a) IN IF a = ErrT \/ e.op = "*" THEN ErrT
                     ELSE [k |-> "un", op |-> IF e.op = "!" THEN "~" ELSE e.op, a |-> a]
    [] e.k = "bin" -> LET a == LoadLit(e.a) b == LoadLit(e.b) IN
                      IF a = ErrT \/ b = ErrT THEN ErrT ELSE [k |-> "bin", op |-> e.op, a |-> a, b |-> b]
    [] e.k = "field" -> LET a == LoadLit(e.a) IN IF a = ErrT THEN ErrT ELSE [k |-> "field", a |-> a, n |-> e.n]
    [] e.k = "struct" ->
         LET f == [i \in 1..Len(e.f) |-> [n |-> e.f[i].n, v |-> LoadLit(e.f[i].v), cfg |-> CfgOfList(e.f[i].cfg)]] IN
         IF \E i \in 1..Len(f) : f[i].v = ErrT THEN ErrT ELSE [k |-> "struct", n |-> e.n, x |-> e.n, f |-> f]
    [] e.k = "cast" -> LET a == LoadLit(e.a) t == LoadTy(e.t) IN
                       IF a = ErrT \/ t \in {ErrT, NoneT} THEN ErrT ELSE [k |-> "cast", t |-> t, a |-> a]
    [] e.k = "arr" -> LET as == [i \in 1..Len(e.as) |-> LoadLit(e.as[i])] IN
                      IF \E i \in 1..Len(as) : as[i] = ErrT THEN ErrT ELSE [k |-> "arr", as |-> as]
    [] OTHER -> ErrT

(* in a boolean expression `!` is the logical negation *)
RECURSIVE Logical(_)
Logical(e) ==
  CASE e.k = "un" -> IF e.op = "~" THEN [e EXCEPT !.op = "!", !.a = Logical(e.a)] ELSE e
    [] e.k = "bin" -> IF e.op \in {"&&", "||", "&", "|", "^"} THEN [e EXCEPT !.a = Logical(e.a), !.b = Logical(e.b)] ELSE e
    [] OTHER -> e

RECURSIVE LitSelf(_, _)
LitSelf(e, s) ==
  CASE e.k = "path" -> IF e.to = "Self" THEN [e EXCEPT !.to = s, !.x = s] ELSE e
    [] e.k \in {"un", "field"} -> [e EXCEPT !.a = LitSelf(e.a, s)]
    [] e.k = "bin" -> [e EXCEPT !.a = LitSelf(e.a, s), !.b = LitSelf(e.b, s)]
    [] e.k = "struct" -> LET f == [i \in 1..Len(e.f) |-> [e.f[i] EXCEPT !.v = LitSelf(e.f[i].v, s)]] IN
                         IF e.n = "Self" THEN [e EXCEPT !.n = s, !.x = s, !.f = f] ELSE [e EXCEPT !.f = f]
    [] e.k = "cast" -> [e EXCEPT !.t = ReplaceSelf(e.t, s), !.a = LitSelf(e.a, s)]
    [] e.k = "arr" -> [e EXCEPT !.as = [i \in 1..Len(e.as) |-> LitSelf(e.as[i], s)]]
    [] OTHER -> e

(* ---- modules ----------------------------------------------------------------- *)
RECURSIVE ModChain(_, _)
ModChain(p, m) == IF p.mods[m].parent = 0 THEN <<CfgOfList(p.mods[m].cfg)>>
                  ELSE Append(ModChain(p, p.mods[m].parent), CfgOfList(p.mods[m].cfg))
ModCfg(p, m) == CfgJoin(ModChain(p, m))
RECURSIVE ModSkipped(_, _)
ModSkipped(p, m) == p.mods[m].skip # "" \/ (p.mods[m].parent # 0 /\ ModSkipped(p, p.mods[m].parent))

(* ---- one item ------------------------------------------------------------------ *)
(* the bitflags! expansion marks its struct *)
AnnosOf(it, kind) == IF kind = "struct" /\ it.k = "struct" /\ (it.bf # "" \/ it.bfi) THEN Append(it.annos, [k |-> "internal-derive-bitflags", t |-> "bool", s |-> "", l |-> <<>>, b |-> TRUE])
               ELSE it.annos
Base(p, it, kind) ==
  [Item0 EXCEPT !.k = kind, !.n = it.n, !.x = it.n, !.gen = LoadGen(it.gen), !.ann = AnnosOf(it, kind), !.mu = it.must_use,
                !.dep = it.depr, !.cfg = CfgAppend(ModCfg(p, it.mod), CfgOfList(it.cfg)), !.doc = it.doc]
AsOpaque(p, it) == Base(p, it, "opaque")

(* all = fields of the item, numbered over the non-zero-sized ones for tuples *)
LoadFields(fs, tup, it) ==
  LET ty == [i \in 1..Len(fs) |-> LoadTy(fs[i].t)]
      keep == Filter([i \in 1..Len(fs) |-> i], LAMBDA i : ty[i] # NoneT)
  IN [j \in 1..Len(keep) |->
        LET i == keep[j] IN
        [Field0 EXCEPT !.n = IF tup THEN ToString(j - 1) ELSE fs[i].n, !.src = IF tup THEN "_" \o ToString(i - 1) ELSE fs[i].n,
                       !.t = IF ty[i] = ErrT THEN ErrT ELSE ReplaceSelfIn(ty[i], it.n, it.gen),
                       !.cfg = CfgOfList(fs[i].cfg), !.ann = fs[i].annos, !.doc = fs[i].doc]]
FieldsOk(fs) == \A i \in 1..Len(fs) : fs[i].t # ErrT

AlignOf(it) == IF it.repr.packed THEN [k |-> "packed", v |-> ""]
               ELSE IF it.repr.align # "" THEN [k |-> "align", v |-> it.repr.align] ELSE NoAlign
AlignOk(cfg, it) == /\ (it.repr.packed => cfg.packed # "")
                    /\ (it.repr.align # "" => cfg.aligned_n # "")

LoadStruct(cfg, p, it) ==
  LET fs == LoadFields(it.fields, it.tuple, it) IN
  IF it.repr.bad \/ it.repr.style \notin {"C", "transparent"} \/ ~AlignOk(cfg, it) \/ ~FieldsOk(fs) THEN AsOpaque(p, it)
  ELSE [Base(p, it, "struct") EXCEPT !.fields = fs, !.al = AlignOf(it),
                                     !.trans = it.repr.style = "transparent" /\ fs # <<>>]
LoadUnion(cfg, p, it) ==
  LET fs == LoadFields(it.fields, FALSE, it) IN
  IF it.repr.bad \/ it.repr.style # "C" \/ ~AlignOk(cfg, it) \/ ~FieldsOk(fs) THEN AsOpaque(p, it)
  ELSE [Base(p, it, "union") EXCEPT !.fields = fs, !.al = AlignOf(it)]

(* an enum variant with data gets a body struct; a tuple variant with one field
   is written inline except in C++                                              *)
LoadVariant(cfg, p, it, v, inlineTag) ==
  LET rule == AnnoAtom(it.annos, "rename-variant-name-fields", cfg.rename_variant_name_fields)
      mn == RuleApply(rule, v.n, "m", "")
      tup == v.s = "tuple"
      inlc == tup /\ Len(v.fields) = 1
      inl == inlc /\ cfg.lang # "Cxx"
      ty == [i \in 1..Len(v.fields) |-> LoadTy(v.fields[i].t)]
      keep == Filter([i \in 1..Len(v.fields) |-> i], LAMBDA i : ty[i] # NoneT)
      fs == [j \in 1..Len(keep) |-> LET i == keep[j] IN
               [Field0 EXCEPT !.n = IF inl THEN mn ELSE IF tup THEN ToString(i - 1) ELSE v.fields[i].n,
                              !.t = IF ty[i] = ErrT THEN ErrT ELSE ReplaceSelfIn(ty[i], it.n, it.gen),
                              !.cfg = CfgOfList(v.fields[i].cfg), !.ann = v.fields[i].annos, !.doc = v.fields[i].doc]]
      tagField == IF inlineTag THEN <<[Field0 EXCEPT !.n = IF inl THEN mn \o "_tag" ELSE "tag", !.t = PathT("Tag", <<>>)]>> ELSE <<>>
      d == IF v.d.h THEN LoadLit(v.d.v) ELSE NoLit
      bodyItem == [Item0 EXCEPT !.k = "struct", !.n = v.n \o "_Body", !.x = v.n \o "_Body", !.gen = LoadGen(it.gen),
                                !.fields = tagField \o fs, !.tagf = inlineTag, !.body = TRUE,
                                !.ann = v.annos, !.mu = v.must_use, !.dep = v.depr]
  IN [Var0 EXCEPT !.n = v.n, !.x = v.n, !.d = IF d.k \in {"nolit", "err"} THEN d ELSE LitSelf(d, it.n),
                  !.cfg = CfgAppend(ModCfg(p, it.mod), CfgOfList(v.cfg)),
                  !.hasb = v.s # "unit", !.mn = IF v.s = "unit" THEN "" ELSE mn,
                  !.b = IF v.s = "unit" THEN Item0 ELSE bodyItem, !.inl = inl, !.inlc = inlc,
                  !.ann = v.annos, !.dep = v.depr, !.doc = v.doc]
LoadEnum(cfg, p, it) ==
  LET inlineTag == it.repr.style # "C"
      vs == [i \in 1..Len(it.vars) |-> LoadVariant(cfg, p, it, it.vars[i], inlineTag)]
      bad == \E i \in 1..Len(vs) : vs[i].d = ErrT \/ ~FieldsOk(vs[i].b.fields)
      trail == IF AnnoHasList(it.annos, "enum-trailing-values")
               THEN LET l == AnnoList(it.annos, "enum-trailing-values") IN
                    [i \in 1..Len(l) |-> [Var0 EXCEPT !.n = l[i], !.x = l[i]]] ELSE <<>>
      sent == IF AnnoBool(it.annos, "add-sentinel", cfg.add_sentinel)
              THEN <<[Var0 EXCEPT !.n = "Sentinel", !.x = "Sentinel", !.doc = <<"Must be last for serialization purposes">>]>> ELSE <<>>
  IN IF it.repr.bad \/ (it.repr.style # "C" /\ it.repr.int = "") \/ it.repr.packed \/ it.repr.align # "" \/ bad THEN AsOpaque(p, it)
     ELSE [Base(p, it, "enum") EXCEPT !.vars = vs \o trail \o sent,
             !.prim = IF it.repr.int = "" THEN "" ELSE PrimTable[it.repr.int],
             !.style = IF inlineTag THEN "Rust" ELSE "C",
             !.tag = IF \E i \in 1..Len(vs) : vs[i].hasb THEN "Tag" ELSE ""]
LoadTypedef(cfg, p, it) ==
  LET t == LoadTy(it.t) IN
  IF t \in {ErrT, NoneT} THEN AsOpaque(p, it) ELSE [Base(p, it, "typedef") EXCEPT !.t = t]

(* exported name: export_name attribute over no_mangle *)
LinkName(it) == IF it.link \in {"export_name", "unsafe_export_name", "both"} THEN it.ename ELSE it.n
Linked(it) == it.link # "none"

RecvTy(it) == CASE it.recv = "ref" -> PtrT(PathT("Self", <<>>), TRUE, FALSE)
                [] it.recv = "mut" -> PtrT(PathT("Self", <<>>), FALSE, FALSE)
                [] it.recv = "box" -> PathT("Box", <<PathT("Self", <<>>)>>)
                [] it.recv = "pin" -> PathT("Pin", <<PtrT(PathT("Self", <<>>), FALSE, FALSE)>>)
                [] OTHER -> PathT("Self", <<>>)
LoadFnArgs(it) ==
  LET recv == IF it.recv = "" THEN <<>> ELSE <<[n |-> "self", t |-> RecvTy(it), al |-> NoLen]>>
      a0 == [i \in 1..Len(it.args) |-> LET t == LoadTy(it.args[i].t) IN
                [n |-> IF it.args[i].n = "_" \/ (t.k = "prim" /\ t.p = "va_list") THEN "" ELSE it.args[i].n,
                 t |-> t, al |-> NoLen]]
      va == IF it.variadic THEN <<[n |-> "", t |-> Prim("va_list"), al |-> NoLen]>> ELSE <<>>
  IN recv \o Filter(a0, LAMBDA a : a.t # NoneT) \o va
LoadFn(p, it) ==
  LET as == LoadFnArgs(it)
      r == LoadRet(it.ret)
      Rs(t) == IF it.self = "" THEN t ELSE ReplaceSelf(t, it.self)
  IN IF r = ErrT \/ \E i \in 1..Len(as) : as[i].t = ErrT \/ as[i].t.k = "arr" THEN ErrT
     ELSE [Base(p, it, "fn") EXCEPT !.n = IF it.decl THEN it.n ELSE LinkName(it), !.x = IF it.decl THEN it.n ELSE LinkName(it),
             !.args = [i \in 1..Len(as) |-> [as[i] EXCEPT !.t = Rs(as[i].t)]], !.ret = Rs(r),
             !.never = it.ret.k = "never", !.ext = it.decl, !.at = it.self]

LoadConstItem(p, it) ==
  LET t == LoadTy(it.t)
      v0 == LoadLit(it.e)
      v == IF v0 # ErrT /\ t.k = "prim" /\ t.p = "bool" THEN Logical(v0) ELSE v0 IN
  IF t \in {ErrT, NoneT} \/ v = ErrT THEN ErrT
  ELSE IF it.k = "assoc"
       THEN [Base(p, it, "const") EXCEPT !.n = it.n \o it.self, !.x = it.n, !.t = ReplaceSelf(t, it.self),
                                         !.val = LitSelf(v, it.self), !.at = it.self]
       ELSE [Base(p, it, "const") EXCEPT !.t = t, !.val = v]
LoadStatic(p, it) ==
  LET t == LoadTy(it.t) IN
  IF t \in {ErrT, NoneT} THEN ErrT
  ELSE [Base(p, it, "static") EXCEPT !.n = LinkName(it), !.x = LinkName(it), !.t = t, !.mutb = it.mutb]

PutType(lib, x) ==
  CASE x.k = "struct" -> [lib EXCEPT !.structs = TryInsert(@, x)]
    [] x.k = "union" -> [lib EXCEPT !.unions = TryInsert(@, x)]
    [] x.k = "enum" -> [lib EXCEPT !.enums = TryInsert(@, x)]
    [] x.k = "typedef" -> [lib EXCEPT !.typedefs = TryInsert(@, x)]
    [] x.k = "opaque" -> [lib EXCEPT !.opaques = TryInsert(@, x)]

CAbi(it) == it.abi \in {"C", "", "unwind"} \/ (it.abi \in {"cmse", "call"} /\ ~it.decl)
LoadItem(cfg, p, lib, it) ==
  IF it.skip # "" THEN lib
  ELSE CASE it.k = "struct" -> PutType(lib, LoadStruct(cfg, p, it))
         [] it.k = "union" -> PutType(lib, LoadUnion(cfg, p, it))
         [] it.k = "enum" -> PutType(lib, LoadEnum(cfg, p, it))
         [] it.k = "typedef" -> PutType(lib, LoadTypedef(cfg, p, it))
         [] it.k = "fn" -> IF CAbi(it) /\ (it.decl \/ (Linked(it) /\ it.implgen = <<>>))
                           THEN LET f == LoadFn(p, it) IN IF f = ErrT THEN lib ELSE [lib EXCEPT !.fns = Append(@, f)]
                           ELSE lib
         [] it.k = "static" -> IF Linked(it)
                               THEN LET s == LoadStatic(p, it) IN IF s = ErrT THEN lib ELSE [lib EXCEPT !.globals = TryInsert(@, s)]
                               ELSE lib
         [] it.k = "const" -> IF it.vis = "pub"
                              THEN LET c == LoadConstItem(p, it) IN IF c = ErrT THEN lib ELSE [lib EXCEPT !.consts = TryInsert(@, c)]
                              ELSE lib
         [] it.k = "assoc" -> IF it.vis = "pub"
                              THEN LET c == LoadConstItem(p, it) IN
                                   IF c = ErrT THEN lib
                                   ELSE IF ByPath(lib.structs, it.self) # <<>>
                                   THEN [lib EXCEPT !.structs = [i \in 1..Len(@) |-> IF @[i].n = it.self
                                            THEN [@[i] EXCEPT !.assoc = Append(@, c)] ELSE @[i]]]
                                   ELSE [lib EXCEPT !.consts = TryInsert(@, c)]
                              ELSE lib

StdOpaque ==
  LET O(n, g) == [Item0 EXCEPT !.k = "opaque", !.n = n, !.x = n,
                    !.gen = [i \in 1..Len(g) |-> [n |-> g[i], c |-> FALSE, ct |-> NoneT, dh |-> FALSE, d |-> NoneT]]]
  IN <<O("String", <<>>), O("Box", <<"T">>), O("RefCell", <<"T">>), O("Rc", <<"T">>), O("Arc", <<"T">>),
       O("Result", <<"T", "E">>), O("Option", <<"T">>), O("NonNull", <<"T">>), O("Vec", <<"T">>),
       O("HashMap", <<"K", "V", "Hasher">>), O("BTreeMap", <<"K", "V">>), O("HashSet", <<"T">>),
       O("BTreeSet", <<"T">>), O("LinkedList", <<"T">>), O("VecDeque", <<"T">>),
       O("ManuallyDrop", <<"T">>), O("MaybeUninit", <<"T">>)>>

(* modules in preorder; inside one, its items in order (with what macros declare), then its associated constants *)
LoadOrder(p) ==
  ConcatAll([m \in 1..Len(p.mods) |->
     IF ModSkipped(p, m) THEN <<>>
     ELSE Filter(p.items, LAMBDA i : i.mod = m /\ (i.k # "assoc" \/ i.bf # "")) \o Filter(p.items, LAMBDA i : i.mod = m /\ i.k = "assoc" /\ i.bf = "")])
LoadLib(cfg, p) == FoldL(LAMBDA lib, it : LoadItem(cfg, p, lib, it), [EmptyLib EXCEPT !.opaques = StdOpaque], LoadOrder(p))
=============================================================================
