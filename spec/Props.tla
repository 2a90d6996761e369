-------------------------------- MODULE Props --------------------------------
(* The listed properties, stated directly over the source program, the         *)
(* configuration and the finished header, without going through the phases of  *)
(* Generate.  TLC checks them as invariants of Generate in every conformance   *)
(* run, for the same programs whose real headers are compared with it; so what *)
(* the real code is held to is itself known to have the properties.            *)
EXTENDS Generate

Done == pc = "done"
Excluded(n) == n \in Elems(C.exclude)
Taken(it) == it.skip = "" /\ ~ModSkipped(P, it.mod)
Sources(ks) == { i \in 1..Len(P.items) : P.items[i].k \in ks /\ Taken(P.items[i]) }
Out(ks) == { i \in 1..Len(out) : out[i].k \in ks }
Emitted == Filter(aux.order, LAMBDA i : Exported(i.ann))

(* C03: a function or static is declared exactly when the library exports it under that name *)
ExportName(it) == IF it.k = "fn" /\ it.decl THEN it.n ELSE LinkName(it)
IsExport(it) ==
  IF it.k = "fn" THEN CAbi(it) /\ (it.decl \/ (Linked(it) /\ it.implgen = <<>>)) /\ LoadFn(P, it) # ErrT
  ELSE Linked(it) /\ LoadStatic(P, it) # ErrT
Selected(it) == /\ ~Excluded(ExportName(it))
                /\ GenKind(C, IF it.k = "fn" THEN "functions" ELSE "globals")
                /\ Exported(it.annos)
Exports(k, dk) ==
  { ExportName(P.items[i]) : i \in { j \in Sources({k}) : IsExport(P.items[j]) /\ Selected(P.items[j]) } }
  = { out[i].n : i \in Out({dk}) }
Inv03 == Exports("fn", "fn") /\ (LET s == Exports("static", "global") IN
           (* of two unconditional statics with one name the first counts *)
           s \/ \E i, j \in Sources({"static"}) : i # j /\ LinkName(P.items[i]) = LinkName(P.items[j]))

(* C04: every type a declaration needs is declared, and nothing else is *)
Known(n) == GetItems(C, lib, n) # <<>>
RECURSIVE NamesIn(_)
NamesIn(t) == CASE t.k = "path" -> {t.n} \cup UNION { IF IsConstArg(t.g[i]) THEN {} ELSE NamesIn(t.g[i]) : i \in 1..Len(t.g) }
                [] t.k \in {"ptr", "arr"} -> NamesIn(t.t)
                [] t.k = "fn" -> NamesIn(t.r) \cup UNION { NamesIn(t.a[i].t) : i \in 1..Len(t.a) }
                [] OTHER -> {}
FieldTypes(s) == { s.fields[i].t : i \in (IF s.tagf THEN 2 ELSE 1)..Len(s.fields) }
TypesIn(it) == CASE it.k \in {"struct", "union"} -> FieldTypes(it) \cup { it.assoc[i].t : i \in 1..Len(it.assoc) }
                 [] it.k = "enum" -> UNION { IF it.vars[i].hasb THEN FieldTypes(it.vars[i].b) ELSE {} : i \in 1..Len(it.vars) }
                 [] it.k \in {"typedef", "static", "const"} -> {it.t}
                 [] it.k = "fn" -> {it.ret} \cup { it.args[i].t : i \in 1..Len(it.args) }
                 [] OTHER -> {}
(* what the value of a constant names: the types of struct literals, and the
   owners of associated constants and enumerators                               *)
RECURSIVE NamesInLit(_)
NamesInLit(e) == CASE e.k = "path" -> {e.to}
                   [] e.k \in {"un", "field", "cast"} -> NamesInLit(e.a)
                   [] e.k = "bin" -> NamesInLit(e.a) \cup NamesInLit(e.b)
                   [] e.k = "struct" -> {e.n} \cup UNION { NamesInLit(e.f[i].v) : i \in 1..Len(e.f) }
                   [] e.k = "arr" -> UNION { NamesInLit(e.as[i]) : i \in 1..Len(e.as) }
                   [] OTHER -> {}
LitsIn(it) == CASE it.k = "const" -> {it.val}
                [] it.k = "struct" -> { it.assoc[i].val : i \in 1..Len(it.assoc) }
                [] it.k = "enum" -> { it.vars[i].d : i \in 1..Len(it.vars) }
                [] OTHER -> {}
Needs(it) == ((UNION { NamesIn(t) : t \in TypesIn(it) }) \ GenNames(it.gen)) \cup UNION { NamesInLit(e) : e \in LitsIn(it) }
PathsOf(q) == UNION { Needs(q[i]) : i \in 1..Len(q) }
RootSet == PathsOf(lib.fns) \cup PathsOf(lib.globals) \cup PathsOf(lib.consts) \cup Elems(C.include)
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup { n \in UNION { PathsOf(GetItems(C, lib, m)) : m \in S } : Known(n) } IN
              IF T = S THEN S ELSE Closure(T)
Inv04 == { aux.order[i].n : i \in 1..Len(aux.order) } = Closure({ n \in RootSet : Known(n) })
(* each of them exactly once, unless the items that share the name are conditional *)
Inv04once == \A i, j \in 1..Len(aux.order) :
               (i # j /\ aux.order[i].n = aux.order[j].n) =>
                 \/ (aux.order[i].cfg.k # "none" /\ aux.order[j].cfg.k # "none")
                 \/ aux.order[i].gen # aux.order[j].gen

(* C06: a function has as many parameters as the source has non-zero-sized ones *)
Inv06 == \A i \in 1..Len(lib.fns) : \A j \in 1..Len(lib.fns[i].args) : lib.fns[i].args[j].t \notin {NoneT, ErrT}

(* C07: nothing generic is left in C and Cython, and no argument list either *)
RECURSIVE NoArgs(_)
NoArgs(t) == CASE t.k = "path" -> t.g = <<>> \/ ~Known(t.n)
               [] t.k \in {"ptr", "arr"} -> NoArgs(t.t)
               [] t.k = "fn" -> NoArgs(t.r) /\ \A i \in 1..Len(t.a) : NoArgs(t.a[i].t)
               [] OTHER -> TRUE
Inv07 == C.lang # "Cxx" =>
           /\ \A i \in 1..Len(aux.order) : aux.order[i].gen = <<>>
           /\ \A i \in 1..Len(out) : out[i].gen = <<>>
           /\ \A i \in 1..Len(lib.fns) : NoArgs(lib.fns[i].ret) /\ \A j \in 1..Len(lib.fns[i].args) : NoArgs(lib.fns[i].args[j].t)

(* C08: with every atom mapped, a function is visible exactly where Rust compiles it *)
RECURSIVE CfgAtoms(_)
CfgAtoms(c) == CASE c.k = "none" -> {}
                 [] c.k \in {"flag", "kv"} -> {DefineKey(c)}
                 [] c.k = "not" -> CfgAtoms(c.a)
                 [] OTHER -> UNION { CfgAtoms(c.as[i]) : i \in 1..Len(c.as) }
RECURSIVE ChainHolds(_, _)
ChainHolds(m, on) == /\ \A i \in 1..Len(P.mods[m].cfg) : CfgEval(P.mods[m].cfg[i], on)
                     /\ (P.mods[m].parent # 0 => ChainHolds(P.mods[m].parent, on))
Holds(it, on) == ChainHolds(it.mod, on) /\ \A i \in 1..Len(it.cfg) : CfgEval(it.cfg[i], on)
RECURSIVE ChainAtoms(_)
ChainAtoms(m) == (UNION { CfgAtoms(P.mods[m].cfg[i]) : i \in 1..Len(P.mods[m].cfg) })
                 \cup (IF P.mods[m].parent # 0 THEN ChainAtoms(P.mods[m].parent) ELSE {})
ItAtoms(it) == ChainAtoms(it.mod) \cup UNION { CfgAtoms(it.cfg[i]) : i \in 1..Len(it.cfg) }
Mapped == { C.defines[i].k : i \in 1..Len(C.defines) }
MacroOf(a) == C.defines[FirstIdx(C.defines, LAMBDA d : d.k = a)].v
Visible(it, d) ==
  \A on \in SUBSET ItAtoms(it) :
    LET macros == { MacroOf(a) : a \in on } IN
    (* two atoms on one macro cannot be told apart in C *)
    (\A a \in ItAtoms(it) : MacroOf(a) \in macros => a \in on) => (CondEval(d.cond, macros) <=> Holds(it, on))
OnlyDecl(it, dk) == Cardinality({ j \in Out({dk}) : out[j].n = ExportName(it) }) = 1
Inv08 == \A i \in Sources({"fn", "static"}) :
           LET it == P.items[i]
               dk == IF it.k = "fn" THEN "fn" ELSE "global"
               same == { j \in Sources({it.k}) : ExportName(P.items[j]) = ExportName(it) } IN
           IF IsExport(it) /\ Selected(it) /\ same = {i} /\ ItAtoms(it) \subseteq Mapped
           THEN \A j \in Out({dk}) : out[j].n = ExportName(it) => Visible(it, out[j])
           ELSE TRUE

(* C10: no declared name, member, enumerator or parameter is a reserved word *)
RECURSIVE MembersOk(_)
MembersOk(fs) == \A i \in 1..Len(fs) : fs[i].n \notin Keywords /\ MembersOk(fs[i].fs)
Inv10 == \A i \in 1..Len(out) :
           /\ MembersOk(out[i].fields)
           /\ \A j \in 1..Len(out[i].vals) : out[i].vals[j].n \notin Keywords

(* C13: nothing excluded, marked no-export or of an unselected kind is declared *)
Inv13 == /\ \A i \in 1..Len(aux.order) : ~Excluded(aux.order[i].n)
         /\ \A i \in Out({"fn", "global"}) : ~Excluded(out[i].n)
         /\ (Out({"fn"}) # {} => GenKind(C, "functions"))
         /\ (Out({"global"}) # {} => GenKind(C, "globals"))

(* C16: the enumerators of an enum are its variants, in source order, then the
   trailing values and the sentinel                                              *)
EnumsNamed(n) == { i \in Sources({"enum"}) : P.items[i].n = n }
Inv16 == \A i \in 1..Len(aux.order) :
           LET e == aux.order[i] IN
           (e.k = "enum" /\ C.lang = "Cxx" /\ Cardinality(EnumsNamed(e.n)) = 1) =>
             LET src == P.items[CHOOSE j \in EnumsNamed(e.n) : TRUE].vars IN
             /\ Len(e.vars) >= Len(src)
             /\ \A j \in 1..Len(src) : e.vars[j].n = src[j].n /\ (e.vars[j].hasb <=> src[j].s # "unit")
             /\ \A j \in Len(src) + 1 .. Len(e.vars) : ~e.vars[j].hasb /\ e.vars[j].d.k = "nolit"

(* C18: with documentation off there is none *)
Inv18 == ~C.docs => \A i \in 1..Len(out) : out[i].doc = <<>>

(* C19: a type comes after every type it contains by value, unless that type
   leads back to it                                                              *)
RECURSIVE ValuePaths(_)
ValuePaths(t) == CASE t.k = "path" -> {t.n} [] t.k = "arr" -> ValuePaths(t.t) [] OTHER -> {}
FieldValues(s) == UNION { ValuePaths(s.fields[i].t) : i \in 1..Len(s.fields) }
HoldsByValue(it) == CASE it.k \in {"struct", "union"} -> FieldValues(it)
                  [] it.k = "enum" -> UNION { IF it.vars[i].hasb THEN FieldValues(it.vars[i].b) ELSE {} : i \in 1..Len(it.vars) }
                  [] it.k = "typedef" -> ValuePaths(it.t)
                  [] OTHER -> {}
Inv19 == \A i, j \in 1..Len(aux.order) :
           (i < j /\ aux.order[i].n # aux.order[j].n /\ aux.order[j].n \in HoldsByValue(aux.order[i]))
             => aux.order[i].n \in Closure({aux.order[j].n}) \/ Layer(aux.order[i]) < Layer(aux.order[j])
(* functions come last, in source order or by name *)
Inv19fns == LET F == Out({"fn"}) IN
            /\ \A i \in F : \A j \in 1..Len(out) : j > i => j \in F
            /\ (SortKey(C, C.fn_sort_by) = "Name" => \A i, j \in F : i < j => ~StrLt(out[j].n, out[i].n))

(* C22: an item the generator cannot represent changes nothing but its own declaration *)
Unusable(it) == it.k \in {"fn", "static", "const"} /\
  (CASE it.k = "fn" -> ~IsExport(it) [] it.k = "static" -> ~IsExport(it) [] OTHER -> LoadConstItem(P, it) = ErrT)
Header(cfg, p) ==
  LET l1 == SortFns(cfg, SimplifyLib(cfg, Transfer(LoadLib(cfg, p))))
      l2 == IF cfg.lang = "Cxx" THEN l1 ELSE Monomorphise(cfg, l1, MonoAll(cfg, l1))
      l3 == RenameLib(cfg, Elaborate(cfg, Exclude(cfg, l2)))
      st == FoldL(LAMBDA s, n : DepAdd(cfg, l3, s, n), [seen |-> {}, order |-> <<>>], Roots(cfg, l3))
  IN EmitAll(cfg, l3, SortItems(st.order))

Inv22 == \A i \in Sources({"fn", "static", "const"}) :
           Unusable(P.items[i]) =>
             Header(C, [P EXCEPT !.items = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]) = out

Inv == Done => /\ Inv03 /\ Inv04 /\ Inv04once /\ Inv06 /\ Inv07 /\ Inv08 /\ Inv10 /\ Inv13 /\ Inv16
               /\ Inv18 /\ Inv19 /\ Inv19fns /\ Inv22
==============================================================================
