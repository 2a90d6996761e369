------------------------------ MODULE Pipeline ------------------------------
(* The transformations between loading and writing, one operator per phase.    *)
(* Generate.tla strings them together as a state machine.                      *)
EXTENDS Load

GenKind(cfg, k) == cfg.item_types = <<>> \/ k \in Elems(cfg.item_types)

(* ---- 1. typedef annotations move to what the typedef names ------------------ *)
RECURSIVE RootPath(_)
RootPath(t) == CASE t.k = "path" -> t.n [] t.k = "ptr" -> RootPath(t.t) [] OTHER -> ""
AnnEmpty(i) == i.ann = <<>> /\ ~i.mu
GiveAnn(q, n, src) == [i \in 1..Len(q) |-> IF q[i].n = n /\ AnnEmpty(q[i])
                          THEN [q[i] EXCEPT !.ann = src.ann, !.mu = src.mu, !.dep = src.dep] ELSE q[i]]
CanGive(q, n) == \E i \in 1..Len(q) : q[i].n = n /\ AnnEmpty(q[i])
Transfer(lib) ==
  LET Step(st, i) ==
        LET t == lib.typedefs[i] root == RootPath(t.t) IN
        IF AnnEmpty(t) \/ root = "" \/ (\E j \in 1..Len(st.moves) : st.moves[j].to = root) THEN st
        ELSE [moves |-> Append(st.moves, [to |-> root, src |-> t]),
              tds |-> [st.tds EXCEPT ![i] = [t EXCEPT !.ann = <<>>, !.mu = FALSE, !.dep = NoDep]]]
      st == FoldL(Step, [moves |-> <<>>, tds |-> lib.typedefs], [i \in 1..Len(lib.typedefs) |-> i])
      Move(l, m) ==
        CASE CanGive(l.enums, m.to) -> [l EXCEPT !.enums = GiveAnn(@, m.to, m.src)]
          [] CanGive(l.structs, m.to) -> [l EXCEPT !.structs = GiveAnn(@, m.to, m.src)]
          [] CanGive(l.unions, m.to) -> [l EXCEPT !.unions = GiveAnn(@, m.to, m.src)]
          [] CanGive(l.opaques, m.to) -> [l EXCEPT !.opaques = GiveAnn(@, m.to, m.src)]
          [] CanGive(l.typedefs, m.to) -> [l EXCEPT !.typedefs = GiveAnn(@, m.to, m.src)]
          [] OTHER -> l
  IN FoldL(Move, [lib EXCEPT !.typedefs = st.tds], st.moves)

(* ---- mapping a type function over items -------------------------------------- *)
MapFields(fs, F(_)) == [i \in 1..Len(fs) |-> [fs[i] EXCEPT !.t = F(fs[i].t)]]
MapItem(it, F(_)) ==
  CASE it.k \in {"struct", "union"} -> [it EXCEPT !.fields = MapFields(@, F)]
    [] it.k = "enum" -> [it EXCEPT !.vars = [i \in 1..Len(@) |-> IF @[i].hasb THEN [@[i] EXCEPT !.b.fields = MapFields(@, F)] ELSE @[i]]]
    [] it.k \in {"typedef", "static"} -> [it EXCEPT !.t = F(@)]
    [] it.k = "fn" -> [it EXCEPT !.ret = F(@), !.args = [i \in 1..Len(@) |-> [@[i] EXCEPT !.t = F(@)]]]
    [] OTHER -> it
MapItems(q, F(_)) == [i \in 1..Len(q) |-> MapItem(q[i], F)]
MapLib(lib, F(_)) ==
  [lib EXCEPT !.structs = MapItems(@, F), !.unions = MapItems(@, F), !.enums = MapItems(@, F),
              !.typedefs = MapItems(@, F), !.globals = MapItems(@, F), !.fns = MapItems(@, F)]

(* ---- 2. standard types --------------------------------------------------------- *)
SimplifyLib(cfg, lib) == MapLib(lib, LAMBDA t : Simplify(cfg, t))

(* ---- 3. function order ----------------------------------------------------------- *)
SortKey(cfg, own) == IF own # "" THEN own ELSE cfg.sort_by
SortByPath(q) == StableSort(q, LAMBDA a, b : StrLt(a.n, b.n))
SortFns(cfg, lib) == IF SortKey(cfg, cfg.fn_sort_by) = "Name" THEN [lib EXCEPT !.fns = SortByPath(@)] ELSE lib

(* ---- lookups --------------------------------------------------------------------- *)
GetItems(cfg, lib, n) ==
  LET e == IF GenKind(cfg, "enums") THEN ByPath(lib.enums, n) ELSE <<>>
      s == IF GenKind(cfg, "structs") THEN ByPath(lib.structs, n) ELSE <<>>
      u == IF GenKind(cfg, "unions") THEN ByPath(lib.unions, n) ELSE <<>>
      o == IF GenKind(cfg, "opaque") THEN ByPath(lib.opaques, n) ELSE <<>>
      t == IF GenKind(cfg, "typedefs") THEN ByPath(lib.typedefs, n) ELSE <<>>
  IN IF e # <<>> THEN e ELSE IF s # <<>> THEN s ELSE IF u # <<>> THEN u ELSE IF o # <<>> THEN o ELSE t

(* ---- 4. monomorphisation (C and Cython) -------------------------------------------- *)
(* arguments must match the parameters, defaults filling the rest *)
CallOk(gen, args) == Len(args) <= Len(gen) /\ \A i \in Len(args) + 1 .. Len(gen) : gen[i].dh
Mapping(gen, args) == [i \in 1..Len(gen) |-> [n |-> gen[i].n, a |-> IF i <= Len(args) THEN args[i] ELSE gen[i].d]]
SpecFields(fs, m) == MapFields(fs, LAMBDA t : SpecTy(t, m))
SpecStruct(cfg, s, args) ==
  LET m == Mapping(s.gen, args) mn == Mangle(cfg, s.n, args) IN
  [s EXCEPT !.n = mn, !.x = mn, !.gen = <<>>, !.assoc = <<>>, !.fields = SpecFields(s.fields, m)]
SpecItem(cfg, it, args) ==
  LET m == Mapping(it.gen, args) mn == Mangle(cfg, it.n, args) IN
  CASE it.k = "struct" -> SpecStruct(cfg, it, args)
    [] it.k = "union" -> [it EXCEPT !.n = mn, !.x = mn, !.gen = <<>>, !.fields = SpecFields(it.fields, m)]
    [] it.k = "typedef" -> [it EXCEPT !.n = mn, !.x = mn, !.gen = <<>>, !.t = SpecTy(it.t, m)]
    [] it.k = "opaque" -> [it EXCEPT !.n = mn, !.x = mn, !.gen = <<>>]
    [] it.k = "enum" -> [it EXCEPT !.n = mn, !.x = mn, !.gen = <<>>,
                          !.vars = [i \in 1..Len(it.vars) |->
                             LET v == it.vars[i] vn == Mangle(cfg, v.n, args) IN
                             [v EXCEPT !.n = vn, !.x = vn, !.b = IF v.hasb THEN SpecStruct(cfg, v.b, args) ELSE v.b]]]

(* state: repl : Seq [n, g, to] instantiated so far; structs.. : new items; bad : arity panic *)
Mono0 == [repl |-> <<>>, structs |-> <<>>, unions |-> <<>>, opaques |-> <<>>, typedefs |-> <<>>, enums |-> <<>>, bad |-> FALSE]
HasRepl(st, n, g) == \E i \in 1..Len(st.repl) : st.repl[i].n = n /\ st.repl[i].g = g
MonoAll(cfg, lib) ==
  LET RECURSIVE MTy(_, _), MFields(_, _), MItem(_, _), Inst(_, _, _)
      MFields(st, fs) == FoldL(LAMBDA s, f : MTy(s, f.t), st, fs)
      MTy(st, t) ==
        CASE t.k \in {"ptr", "arr"} -> MTy(st, t.t)
          [] t.k = "path" -> IF t.g = <<>> \/ HasRepl(st, t.n, t.g) THEN st
                             ELSE FoldL(LAMBDA s, it : Inst(s, it, t.g), st, GetItems(cfg, lib, t.n))
          [] t.k = "fn" -> FoldL(LAMBDA s, a : MTy(s, a.t), MTy(st, t.r), t.a)
          [] OTHER -> st
      MItem(st, it) ==
        IF it.gen # <<>> THEN st
        ELSE CASE it.k \in {"struct", "union"} -> MFields(st, it.fields)
               [] it.k = "enum" -> FoldL(LAMBDA s, v : IF v.hasb /\ v.b.gen = <<>> THEN MFields(s, v.b.fields) ELSE s, st, it.vars)
               [] it.k \in {"typedef", "static"} -> MTy(st, it.t)
               [] it.k = "fn" -> FoldL(LAMBDA s, a : MTy(s, a.t), MTy(st, it.ret), it.args)
               [] OTHER -> st
      Inst(st, it, args) ==
        IF ~CallOk(it.gen, args) THEN [st EXCEPT !.bad = TRUE]
        ELSE LET mo == SpecItem(cfg, it, args)
                 st1 == [st EXCEPT !.repl = Append(@, [n |-> it.n, g |-> args, to |-> mo.n])]
                 st2 == MItem(st1, mo)
             IN CASE it.k = "struct" -> [st2 EXCEPT !.structs = Append(@, mo)]
                  [] it.k = "union" -> [st2 EXCEPT !.unions = Append(@, mo)]
                  [] it.k = "enum" -> [st2 EXCEPT !.enums = Append(@, mo)]
                  [] it.k = "typedef" -> [st2 EXCEPT !.typedefs = Append(@, mo)]
                  [] OTHER -> [st2 EXCEPT !.opaques = Append(@, mo)]
  IN FoldL(MItem, Mono0, lib.structs \o lib.unions \o lib.enums \o lib.typedefs \o lib.fns \o lib.globals)
InsertAll(q, new) == FoldL(TryInsert, q, new)
NonGeneric(q) == Filter(q, LAMBDA i : i.gen = <<>>)
MangleRefs(st, t0) ==
  LET RECURSIVE M(_)
      M(t) == CASE t.k = "path" ->
                     LET i == FirstIdx(st.repl, LAMBDA r : r.n = t.n /\ r.g = t.g) IN
                     IF t.g = <<>> \/ i = 0 THEN t ELSE PathT(st.repl[i].to, <<>>)
                [] t.k \in {"ptr", "arr"} -> [t EXCEPT !.t = M(t.t)]
                [] t.k = "fn" -> [t EXCEPT !.r = M(t.r), !.a = [i \in 1..Len(t.a) |-> [t.a[i] EXCEPT !.t = M(t.a[i].t)]]]
                [] OTHER -> t
  IN M(t0)
Monomorphise(cfg, lib, st) ==
  LET l1 == [lib EXCEPT !.structs = NonGeneric(InsertAll(@, st.structs)), !.unions = NonGeneric(InsertAll(@, st.unions)),
                        !.opaques = NonGeneric(InsertAll(@, st.opaques)), !.typedefs = NonGeneric(InsertAll(@, st.typedefs)),
                        !.enums = NonGeneric(InsertAll(@, st.enums))]
  IN MapLib(l1, LAMBDA t : MangleRefs(st, t))

(* ---- 5. exclusion ------------------------------------------------------------------- *)
Excl(cfg, q) == Filter(q, LAMBDA i : i.n \notin Elems(cfg.exclude))
Exclude(cfg, lib) == [f \in DOMAIN lib |-> Excl(cfg, lib[f])]

(* ---- 6. elaborated type names (C, tag style) ------------------------------------------ *)
DeclKindOf(it) == CASE it.k = "struct" -> IF it.trans THEN "" ELSE "struct"
                    [] it.k = "union" -> "union"
                    [] it.k = "enum" -> IF it.tag # "" THEN (IF it.style = "C" THEN "struct" ELSE "union")
                                        ELSE IF it.style = "C" THEN "enum" ELSE ""
                    [] it.k = "opaque" -> "struct"
                    [] OTHER -> ""
Elaborate(cfg, lib) ==
  IF cfg.lang # "C" \/ cfg.style = "type" THEN lib
  ELSE LET all == lib.structs \o lib.enums \o lib.unions \o lib.typedefs \o lib.opaques
           KindOf(n) == LET i == FirstIdx(all, LAMBDA a : a.n = n) IN IF i = 0 THEN "" ELSE DeclKindOf(all[i])
           (* only the outermost path of each type position, never generic arguments *)
           RECURSIVE E(_)
           E(t) == CASE t.k = "path" -> [t EXCEPT !.ct = KindOf(t.n)]
                     [] t.k \in {"ptr", "arr"} -> [t EXCEPT !.t = E(t.t)]
                     [] t.k = "fn" -> [t EXCEPT !.r = E(t.r), !.a = [i \in 1..Len(t.a) |-> [t.a[i] EXCEPT !.t = E(t.a[i].t)]]]
                     [] OTHER -> t
       IN MapLib(lib, E)

(* ---- 7. renaming ------------------------------------------------------------------------ *)
IsDigitName(n) == n # "" /\ Ch(n, 1) \in Digits
RenFieldNames(cfg, ann, fs) ==
  LET rule == AnnoAtom(ann, "rename-all", cfg.rename_fields)
      names == IF AnnoHasList(ann, "field-names") THEN AnnoList(ann, "field-names") ELSE <<>>
      Nm(i) == IF AnnoHasList(ann, "field-names") THEN (IF i <= Len(names) THEN names[i] ELSE fs[i].n)
               ELSE LET r == IF IsNone(rule) THEN fs[i].n ELSE RuleApply(rule, fs[i].n, "m", "") IN
                    IF IsDigitName(r) THEN "_" \o r ELSE r
  IN [i \in 1..Len(fs) |-> [fs[i] EXCEPT !.n = Escape(Nm(i))]]
RECURSIVE RenLit(_, _)
RenLit(cfg, e) ==
  CASE e.k = "path" -> IF e.to = "" THEN [e EXCEPT !.n = ExportRename(cfg, e.n)] ELSE [e EXCEPT !.x = ExportRename(cfg, e.x)]
    [] e.k \in {"un", "field"} -> [e EXCEPT !.a = RenLit(cfg, e.a)]
    [] e.k = "bin" -> [e EXCEPT !.a = RenLit(cfg, e.a), !.b = RenLit(cfg, e.b)]
    [] e.k = "struct" -> [e EXCEPT !.x = ExportRename(cfg, e.x), !.f = [i \in 1..Len(e.f) |-> [e.f[i] EXCEPT !.v = RenLit(cfg, e.f[i].v)]]]
    [] e.k = "cast" -> [e EXCEPT !.t = RenTy(cfg, {}, e.t), !.a = RenLit(cfg, e.a)]
    [] e.k = "arr" -> [e EXCEPT !.as = [i \in 1..Len(e.as) |-> RenLit(cfg, e.as[i])]]
    [] OTHER -> e
RenConstItem(cfg, c) == [c EXCEPT !.x = IF c.at = "" THEN ExportRename(cfg, c.x) ELSE c.x,
                                  !.val = RenLit(cfg, c.val), !.t = RenTy(cfg, {}, c.t)]
RenStruct(cfg, s) ==
  LET gp == GenNames(s.gen)
      fs == [i \in 1..Len(s.fields) |-> IF s.tagf /\ i = 1 THEN s.fields[i] ELSE [s.fields[i] EXCEPT !.t = RenTy(cfg, gp, @)]]
  IN [s EXCEPT !.x = IF s.tagf /\ cfg.lang = "Cxx" THEN s.x ELSE ExportRename(cfg, s.x),
               !.fields = RenFieldNames(cfg, s.ann, fs),
               !.assoc = [i \in 1..Len(s.assoc) |-> RenConstItem(cfg, s.assoc[i])]]
RenUnion(cfg, u) ==
  LET gp == GenNames(u.gen) IN
  [u EXCEPT !.x = ExportRename(cfg, u.x), !.fields = RenFieldNames(cfg, u.ann, MapFields(u.fields, LAMBDA t : RenTy(cfg, gp, t)))]
RenEnum(cfg, e) ==
  LET ex == ExportRename(cfg, e.x)
      tag == IF e.tag # "" /\ cfg.lang # "Cxx" THEN ex \o "_Tag" ELSE e.tag
      pre == AnnoBool(e.ann, "prefix-with-name", cfg.prefix_with_name)
      sep == IF cfg.mangle_rm_us THEN "" ELSE "_"
      rule == AnnoAtom(e.ann, "rename-all", cfg.rename_variants)
      Body(b) == LET b1 == IF cfg.lang # "Cxx" /\ e.style = "Rust" THEN [b EXCEPT !.fields[1].t = PathT(tag, <<>>)] ELSE b
                     b2 == RenStruct(cfg, b1)
                 IN IF pre THEN [b2 EXCEPT !.x = ex \o sep \o @] ELSE b2
      V(v) == LET x1 == Escape(v.x)
                  x2 == IF pre THEN ex \o sep \o x1 ELSE x1
                  x3 == IF IsNone(rule) THEN x2 ELSE Escape(RuleApply(rule, x2, "", ex))
                  m1 == Escape(v.mn)
                  m3 == IF IsNone(rule) THEN m1 ELSE Escape(RuleApply(rule, m1, "m", ""))
              IN [v EXCEPT !.x = x3, !.mn = m3, !.b = IF v.hasb THEN Body(v.b) ELSE v.b,
                           !.d = IF v.d.k = "nolit" THEN v.d ELSE RenLit(cfg, v.d)]
  IN [e EXCEPT !.x = ex, !.tag = tag, !.vars = [i \in 1..Len(e.vars) |-> V(e.vars[i])]]
RenTypedef(cfg, t) == [t EXCEPT !.x = ExportRename(cfg, t.x), !.t = RenTy(cfg, GenNames(t.gen), t.t)]
RenOpaque(cfg, o) == [o EXCEPT !.x = ExportRename(cfg, o.x)]
(* "[name; len]" entries of ptrs-as-arrays *)
ArrLen(f, nm) ==
  IF ~AnnoHasList(f.ann, "ptrs-as-arrays") THEN NoLen
  ELSE LET l == AnnoList(f.ann, "ptrs-as-arrays")
           i == LastIdx(l, LAMBDA s : StartsWith(s, "[" \o nm \o "; ") /\ EndsWith(s, "]")) IN
       IF i = 0 THEN NoLen ELSE [h |-> TRUE, s |-> SubSeq(l[i], Len(nm) + 4, Len(l[i]) - 1)]
RenFn(cfg, f) ==
  LET rule == AnnoAtom(f.ann, "rename-all", cfg.rename_args)
      A(a) == LET n1 == IF IsNone(rule) THEN a.n ELSE RuleApply(rule, a.n, "a", "")
                  n2 == Escape(n1)
              IN [a EXCEPT !.n = n2, !.t = RenTy(cfg, {}, a.t), !.al = IF a.t.k = "ptr" /\ n2 # "" THEN ArrLen(f, n2) ELSE NoLen]
  IN [f EXCEPT !.ret = RenTy(cfg, {}, @), !.args = [i \in 1..Len(@) |-> A(@[i])]]
RenStatic(cfg, s) == [s EXCEPT !.t = RenTy(cfg, {}, s.t)]
RenameLib(cfg, lib) ==
  [lib EXCEPT !.structs = MapSeq(@, LAMBDA i : RenStruct(cfg, i)), !.unions = MapSeq(@, LAMBDA i : RenUnion(cfg, i)),
              !.enums = MapSeq(@, LAMBDA i : RenEnum(cfg, i)), !.typedefs = MapSeq(@, LAMBDA i : RenTypedef(cfg, i)),
              !.opaques = MapSeq(@, LAMBDA i : RenOpaque(cfg, i)), !.globals = MapSeq(@, LAMBDA i : RenStatic(cfg, i)),
              !.consts = MapSeq(@, LAMBDA i : RenConstItem(cfg, i)), !.fns = MapSeq(@, LAMBDA i : RenFn(cfg, i))]

(* ---- 8. reachability and order ------------------------------------------------------------ *)
RECURSIVE LitPaths(_)
LitPaths(e) ==
  CASE e.k = "path" -> IF e.to = "" THEN <<>> ELSE <<e.to>>
    [] e.k \in {"un", "field", "cast"} -> LitPaths(e.a)
    [] e.k = "bin" -> LitPaths(e.a) \o LitPaths(e.b)
    [] e.k = "struct" -> <<e.n>> \o ConcatAll([i \in 1..Len(e.f) |-> LitPaths(e.f[i].v)])
    [] e.k = "arr" -> ConcatAll([i \in 1..Len(e.as) |-> LitPaths(e.as[i])])
    [] OTHER -> <<>>
RECURSIVE TyPaths(_, _)
TyPaths(gp, t) ==
  CASE t.k = "path" -> ConcatAll([i \in 1..Len(t.g) |-> IF IsConstArg(t.g[i]) THEN <<>> ELSE TyPaths(gp, t.g[i])])
                       \o (IF t.n \in gp THEN <<>> ELSE <<t.n>>)
    [] t.k \in {"ptr", "arr"} -> TyPaths(gp, t.t)
    [] t.k = "fn" -> TyPaths(gp, t.r) \o ConcatAll([i \in 1..Len(t.a) |-> TyPaths(gp, t.a[i].t)])
    [] OTHER -> <<>>
ConstPaths(c) == TyPaths({}, c.t) \o LitPaths(c.val)
StructPaths(s) ==
  LET gp == GenNames(s.gen) from == IF s.tagf THEN 2 ELSE 1 IN
  ConcatAll([i \in 1..(Len(s.fields) - from + 1) |-> TyPaths(gp, s.fields[i + from - 1].t)])
  \o ConcatAll([i \in 1..Len(s.assoc) |-> ConstPaths(s.assoc[i])])
ItemPaths(it) ==
  CASE it.k = "struct" -> StructPaths(it)
    [] it.k = "union" -> ConcatAll([i \in 1..Len(it.fields) |-> TyPaths(GenNames(it.gen), it.fields[i].t)])
    [] it.k = "enum" -> ConcatAll([i \in 1..Len(it.vars) |->
                          (IF it.vars[i].hasb THEN StructPaths(it.vars[i].b) ELSE <<>>)
                          \o (IF it.vars[i].d.k = "nolit" THEN <<>> ELSE LitPaths(it.vars[i].d))])
    [] it.k = "typedef" -> TyPaths(GenNames(it.gen), it.t)
    [] it.k = "static" -> TyPaths({}, it.t)
    [] it.k = "fn" -> TyPaths({}, it.ret) \o ConcatAll([i \in 1..Len(it.args) |-> TyPaths({}, it.args[i].t)])
    [] it.k = "const" -> ConstPaths(it)
    [] OTHER -> <<>>

(* depth first from one root path; st = [seen, order] *)
DepAdd(cfg, lib, st0, n0) ==
  LET RECURSIVE Add(_, _)
      Add(st, n) ==
        LET its == GetItems(cfg, lib, n) IN
        IF its = <<>> \/ n \in st.seen THEN st
        ELSE LET s1 == FoldL(LAMBDA s, it : FoldL(Add, s, ItemPaths(it)), [st EXCEPT !.seen = @ \cup {n}], its)
             IN [s1 EXCEPT !.order = @ \o its]
  IN Add(st0, n0)
Roots(cfg, lib) ==
  ConcatAll(MapSeq(lib.fns, ItemPaths)) \o ConcatAll(MapSeq(lib.globals, ItemPaths))
  \o ConcatAll(MapSeq(lib.consts, ItemPaths)) \o cfg.include

(* untagged enums first, then opaque types by path, then the rest as visited *)
Layer(it) == IF it.k = "enum" /\ it.tag = "" THEN 1 ELSE IF it.k = "opaque" THEN 2 ELSE 3
SortItems(q) == LET L(n) == Filter(q, LAMBDA i : Layer(i) = n) IN L(1) \o SortByPath(L(2)) \o L(3)

FinalConsts(cfg, lib) == IF ~GenKind(cfg, "constants") THEN <<>>
                         ELSE IF SortKey(cfg, cfg.const_sort_by) = "Name" THEN SortByPath(lib.consts) ELSE lib.consts
FinalGlobals(cfg, lib) == IF ~GenKind(cfg, "globals") THEN <<>>
                          ELSE IF SortKey(cfg, cfg.const_sort_by) = "Name" THEN SortByPath(lib.globals) ELSE lib.globals
FinalFns(cfg, lib) == IF GenKind(cfg, "functions") THEN lib.fns ELSE <<>>
=============================================================================
