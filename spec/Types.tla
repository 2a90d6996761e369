------------------------------- MODULE Types -------------------------------
(* The type language: syntax -> IR, standard-type simplification, generic      *)
(* specialisation, mangling, renaming, and the canonical form of the C/C++     *)
(* type each IR type must be rendered as.                                      *)
(*                                                                             *)
(* Syntax types (from the program under test):                                 *)
(*   [k:"path",n,g] [k:"ref",m,t] [k:"ptr",m,t] [k:"arr",t,l] [k:"fn",a,r,v]   *)
(*   [k:"unit"] [k:"never"] [k:"bad"]   l, and const generic args:             *)
(*   [k:"cval",v] | [k:"cpath",n]                                              *)
(* IR types:                                                                   *)
(*   [k:"path",n,x,g,ct] [k:"prim",p,z] [k:"ptr",t,c,nl,rf] [k:"arr",t,l]      *)
(*   [k:"fn",r,a,nr]  with a : Seq [n,t]  (n = "" when unnamed)                *)
(*   [k:"cval",v]  [k:"cpath",n,x]                                             *)
EXTENDS Rename

Map1(ks, v) == [x \in ks |-> v]

PrimTable ==
  [x \in {"c_void"} |-> "c_void"] @@ [x \in {"c_char"} |-> "c_char"] @@ [x \in {"c_schar"} |-> "c_schar"]
  @@ [x \in {"c_uchar"} |-> "c_uchar"] @@ [x \in {"c_float", "f32"} |-> "f32"] @@ [x \in {"c_double", "f64"} |-> "f64"]
  @@ [x \in {"ptrdiff_t"} |-> "ptrdiff_t"] @@ [x \in {"VaList"} |-> "va_list"] @@ [x \in {"bool"} |-> "bool"]
  @@ [x \in {"char"} |-> "char"]
  @@ [x \in {"c_short"} |-> "c_short"] @@ [x \in {"c_ushort"} |-> "c_ushort"]
  @@ [x \in {"c_int", "RawFd"} |-> "c_int"] @@ [x \in {"c_uint"} |-> "c_uint"]
  @@ [x \in {"c_long"} |-> "c_long"] @@ [x \in {"c_ulong"} |-> "c_ulong"]
  @@ [x \in {"c_longlong"} |-> "c_longlong"] @@ [x \in {"c_ulonglong"} |-> "c_ulonglong"]
  @@ [x \in {"ssize_t"} |-> "ssize_t"] @@ [x \in {"size_t"} |-> "size_t"]
  @@ [x \in {"isize", "intptr_t"} |-> "isize"] @@ [x \in {"usize", "uintptr_t"} |-> "usize"]
  @@ [x \in {"u8", "uint8_t"} |-> "u8"] @@ [x \in {"u16", "uint16_t"} |-> "u16"]
  @@ [x \in {"u32", "uint32_t"} |-> "u32"] @@ [x \in {"u64", "uint64_t"} |-> "u64"]
  @@ [x \in {"i8", "int8_t"} |-> "i8"] @@ [x \in {"i16", "int16_t"} |-> "i16"]
  @@ [x \in {"i32", "int32_t"} |-> "i32"] @@ [x \in {"i64", "int64_t"} |-> "i64"]

NonZeroTable ==
  [x \in {"NonZeroU8"} |-> "u8"] @@ [x \in {"NonZeroU16"} |-> "u16"] @@ [x \in {"NonZeroU32"} |-> "u32"]
  @@ [x \in {"NonZeroU64"} |-> "u64"] @@ [x \in {"NonZeroUsize"} |-> "usize"]
  @@ [x \in {"NonZeroI8"} |-> "i8"] @@ [x \in {"NonZeroI16"} |-> "i16"] @@ [x \in {"NonZeroI32"} |-> "i32"]
  @@ [x \in {"NonZeroI64"} |-> "i64"] @@ [x \in {"NonZeroIsize"} |-> "isize"]

IntPrims == {"c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong", "c_ulonglong",
             "ssize_t", "size_t", "isize", "usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
PrimNames == DOMAIN PrimTable
NonZeroNames == DOMAIN NonZeroTable

CReprTable ==
  [c_void |-> "void", bool |-> "bool", c_char |-> "char", c_schar |-> "signed char", c_uchar |-> "unsigned char",
   char |-> "uint32_t", c_short |-> "short", c_ushort |-> "unsigned short", c_int |-> "int", c_uint |-> "unsigned int",
   c_long |-> "long", c_ulong |-> "unsigned long", c_longlong |-> "long long", c_ulonglong |-> "unsigned long long",
   ssize_t |-> "ssize_t", size_t |-> "size_t", isize |-> "intptr_t", usize |-> "uintptr_t",
   i8 |-> "int8_t", u8 |-> "uint8_t", i16 |-> "int16_t", u16 |-> "uint16_t", i32 |-> "int32_t", u32 |-> "uint32_t",
   i64 |-> "int64_t", u64 |-> "uint64_t", f32 |-> "float", f64 |-> "double", ptrdiff_t |-> "ptrdiff_t", va_list |-> "..."]

CRepr(cfg, p) == IF cfg.usz /\ p = "isize" THEN "ptrdiff_t"
                 ELSE IF cfg.usz /\ p = "usize" THEN "size_t"
                 ELSE CReprTable[p]

Prim(p) == [k |-> "prim", p |-> p, z |-> TRUE]
Void == Prim("c_void")
PathT(n, g) == [k |-> "path", n |-> n, x |-> n, g |-> g, ct |-> ""]
PtrT(t, c, nl) == [k |-> "ptr", t |-> t, c |-> c, nl |-> nl, rf |-> FALSE]

ErrT == [k |-> "err"]
NoneT == [k |-> "none"]

LoadConst(l) == IF l.k = "cpath" THEN [k |-> "cpath", n |-> l.n, x |-> l.n] ELSE [k |-> "cval", v |-> l.v]

(* ---- syntax -> IR; ErrT = not representable, NoneT = zero-sized ----------- *)
RECURSIVE LoadTy(_)
LoadRet(t) == IF t.k = "never" THEN Void
              ELSE LET x == LoadTy(t) IN IF x = NoneT THEN Void ELSE x
WildName(a, i) ==
  IF a[i].n # "_" THEN a[i].n
  ELSE LET w == Cardinality({ j \in 1..i : a[j].n = "_" /\ LoadTy(a[j].t) # NoneT }) IN
       IF w = 1 THEN "_" ELSE "_" \o ToString(w - 1)
LoadTy(t) ==
  CASE t.k \in {"ref", "ptr"} ->
         LET x == LoadTy(t.t) y == IF x = NoneT THEN Void ELSE x IN
         IF x = ErrT THEN ErrT ELSE PtrT(y, ~t.m, t.k = "ptr")
    [] t.k = "path" ->
         IF t.n \in {"PhantomData", "PhantomPinned"} THEN NoneT
         ELSE LET g0 == [i \in 1..Len(t.g) |-> IF t.g[i].k \in {"cval", "cpath"} THEN LoadConst(t.g[i]) ELSE LoadTy(t.g[i])]
                  bad == \E i \in 1..Len(g0) : g0[i] = ErrT
                  g == Filter(g0, LAMBDA e : e # NoneT)
              IN IF bad THEN ErrT
                 ELSE IF t.n \in PrimNames THEN (IF g = <<>> THEN Prim(PrimTable[t.n]) ELSE ErrT)
                 ELSE IF t.n \in NonZeroNames THEN (IF g = <<>> THEN [k |-> "prim", p |-> NonZeroTable[t.n], z |-> FALSE] ELSE ErrT)
                 ELSE PathT(t.n, g)
    [] t.k = "arr" ->
         LET x == LoadTy(t.t) IN
         IF x \in {ErrT, NoneT} THEN ErrT ELSE [k |-> "arr", t |-> x, l |-> LoadConst(t.l)]
    [] t.k = "fn" ->
         LET a0 == [i \in 1..Len(t.a) |-> [n |-> WildName(t.a, i), t |-> LoadTy(t.a[i].t)]]
             a == Filter(a0, LAMBDA e : e.t # NoneT)
             va == IF t.v THEN <<[n |-> "", t |-> Prim("va_list")]>> ELSE <<>>
             r == LoadRet(t.r)
         IN IF (\E i \in 1..Len(a0) : a0[i].t = ErrT) \/ r = ErrT THEN ErrT
            ELSE [k |-> "fn", r |-> r, a |-> a \o va, nl |-> FALSE, nr |-> t.r.k = "never"]
    [] t.k = "unit" -> NoneT
    [] OTHER -> ErrT

(* ---- generic traversal ---------------------------------------------------- *)
(* F is applied to every Path node bottom-up *)
MapPaths(t0, F(_)) ==
  LET RECURSIVE M(_)
      M(t) ==
        CASE t.k = "path" -> F([t EXCEPT !.g = [i \in 1..Len(t.g) |-> IF t.g[i].k \in {"cval", "cpath"} THEN t.g[i] ELSE M(t.g[i])]])
          [] t.k \in {"ptr", "arr"} -> [t EXCEPT !.t = M(t.t)]
          [] t.k = "fn" -> [t EXCEPT !.r = M(t.r), !.a = [i \in 1..Len(t.a) |-> [t.a[i] EXCEPT !.t = M(t.a[i].t)]]]
          [] OTHER -> t
  IN M(t0)

(* inside a generic item, Self carries its parameters as arguments *)
ReplaceSelfIn(t, n, gen) == MapPaths(t, LAMBDA p : IF p.n = "Self" THEN [p EXCEPT !.n = n, !.x = n, !.g = [i \in 1..Len(gen) |-> PathT(gen[i].n, <<>>)]] ELSE p)
ReplaceSelf(t, n) == MapPaths(t, LAMBDA p : IF p.n = "Self" THEN [p EXCEPT !.n = n, !.x = n] ELSE p)

(* ---- standard type simplification ----------------------------------------- *)
MakeNullable(t) == IF t.k = "ptr" /\ ~t.nl THEN [t EXCEPT !.nl = TRUE]
                   ELSE IF t.k = "fn" /\ ~t.nl THEN [t EXCEPT !.nl = TRUE] ELSE NoneT
MakeZeroable(t, z) == IF t.k = "prim" /\ t.p \in IntPrims /\ t.z # z THEN [t EXCEPT !.z = z] ELSE NoneT

RECURSIVE Simplified1(_, _)
Simplified1(cfg, t) ==
  IF t.k # "path" \/ Len(t.g) # 1 \/ (Len(t.g) = 1 /\ t.g[1].k \in {"cval", "cpath"}) THEN NoneT
  ELSE LET s == Simplified1(cfg, t.g[1])
           g == IF s = NoneT THEN t.g[1] ELSE s
       IN CASE t.n = "Option" -> LET a == MakeNullable(g) IN IF a # NoneT THEN a ELSE MakeZeroable(g, TRUE)
            [] t.n = "NonNull" -> PtrT(g, FALSE, FALSE)
            [] t.n = "NonZero" -> MakeZeroable(g, FALSE)
            [] t.n = "Box" /\ cfg.lang # "Cxx" -> PtrT(g, FALSE, FALSE)
            [] t.n \in {"Cell", "UnsafeCell", "SyncUnsafeCell"} -> g
            [] t.n \in {"ManuallyDrop", "MaybeUninit", "Pin"} /\ cfg.lang # "Cxx" -> g
            [] OTHER -> NoneT

Simplify(cfg, t) == MapPaths(t, LAMBDA p : LET s == Simplified1(cfg, p) IN IF s = NoneT THEN p ELSE s)

(* ---- generic specialisation ------------------------------------------------ *)
(* mapping m : Seq [n, a] ; a is an IR type, or cval/cpath *)
IsConstArg(a) == a.k \in {"cval", "cpath"}
SpecConst(c, m) ==
  IF c.k = "cval" THEN c
  ELSE LET i == FirstIdx(m, LAMBDA e : e.n = c.n /\
                               (IsConstArg(e.a) \/ (e.a.k = "path" /\ e.a.g = <<>>)))
       IN IF i = 0 THEN c
          ELSE IF IsConstArg(m[i].a) THEN m[i].a
          ELSE [k |-> "cpath", n |-> m[i].a.n, x |-> m[i].a.x]
RECURSIVE SpecTy(_, _)
SpecArg(a, m) ==
  IF IsConstArg(a) THEN a
  ELSE IF a.k = "path" /\ a.g = <<>> /\ \E i \in 1..Len(m) : m[i].n = a.n
       THEN m[FirstIdx(m, LAMBDA e : e.n = a.n)].a
       ELSE SpecTy(a, m)
SpecTy(t, m) ==
  CASE t.k = "path" ->
         LET i == FirstIdx(m, LAMBDA e : e.n = t.n /\ ~IsConstArg(e.a)) IN
         IF i # 0 THEN m[i].a
         ELSE PathT(t.n, [j \in 1..Len(t.g) |-> SpecArg(t.g[j], m)])
    [] t.k = "ptr" -> [t EXCEPT !.t = SpecTy(t.t, m)]
    [] t.k = "arr" -> [t EXCEPT !.t = SpecTy(t.t, m), !.l = SpecConst(t.l, m)]
    [] t.k = "fn" -> [t EXCEPT !.r = SpecTy(t.r, m), !.a = [i \in 1..Len(t.a) |-> [t.a[i] EXCEPT !.t = SpecTy(t.a[i].t, m)]]]
    [] OTHER -> t

(* ---- mangling --------------------------------------------------------------- *)
Sep(cfg, n) == IF cfg.mangle_rm_us THEN "" ELSE Repeat("_", n)
RECURSIVE MangleName(_, _, _, _), MangleTy(_, _, _, _), MangleArg(_, _, _, _)
(* last: the flag of the piece being appended; outer: the flag of the enclosing mangler *)
MangleArg(cfg, a, last, outer) ==
  CASE a.k = "cval" -> a.v
    [] a.k = "cpath" -> MangleTy(cfg, [k |-> "path", n |-> a.n, x |-> a.x, g |-> <<>>, ct |-> ""], last, outer)
    [] OTHER -> MangleTy(cfg, a, last, outer)
MangleTy(cfg, t, last, outer) ==
  CASE t.k = "path" -> RuleApply(cfg.mangle_rule, MangleName(cfg, t.x, t.g, last), "", "")
    [] t.k = "prim" -> RuleApply(cfg.mangle_rule, t.p, "", "")
    [] t.k = "ptr" -> Sep(cfg, IF t.c THEN 5 ELSE 4) \o MangleTy(cfg, t.t, last, outer)
    [] t.k = "fn" ->
         Sep(cfg, 6) \o MangleTy(cfg, t.r, t.a = <<>>, outer)
         \o CatAll([i \in 1..Len(t.a) |-> Sep(cfg, 7) \o MangleTy(cfg, t.a[i].t, last /\ i = Len(t.a), outer)])
         \o (IF outer THEN "" ELSE Sep(cfg, 8))
    [] t.k = "arr" -> Sep(cfg, 9) \o MangleTy(cfg, t.t, FALSE, outer) \o Sep(cfg, 10) \o MangleArg(cfg, t.l, last, outer)
MangleName(cfg, n, g, last) ==
  IF g = <<>> THEN n
  ELSE n \o Sep(cfg, 1)
       \o Join([i \in 1..Len(g) |-> MangleArg(cfg, g[i], last /\ i = Len(g), last)], Sep(cfg, 2))
       \o (IF last THEN "" ELSE Sep(cfg, 3))
Mangle(cfg, n, g) == MangleName(cfg, n, g, TRUE)

(* ---- renaming ---------------------------------------------------------------- *)
RenConst(cfg, gp, c) == IF c.k = "cpath" /\ c.n \notin gp THEN [c EXCEPT !.x = ExportRename(cfg, c.x)] ELSE c
RECURSIVE RenTy(_, _, _)
(* gp: names of generic parameters in scope, never renamed *)
RenTy(cfg, gp, t) ==
  CASE t.k = "path" ->
         [t EXCEPT !.g = [i \in 1..Len(t.g) |-> IF IsConstArg(t.g[i]) THEN RenConst(cfg, gp, t.g[i]) ELSE RenTy(cfg, gp, t.g[i])],
                   !.x = IF t.n \in gp THEN t.x ELSE ExportRename(cfg, t.x)]
    [] t.k = "ptr" -> [t EXCEPT !.t = RenTy(cfg, gp, t.t)]
    [] t.k = "arr" -> [t EXCEPT !.t = RenTy(cfg, gp, t.t), !.l = RenConst(cfg, gp, t.l)]
    [] t.k = "fn" -> [t EXCEPT !.r = RenTy(cfg, gp, t.r), !.a = [i \in 1..Len(t.a) |-> [t.a[i] EXCEPT !.t = RenTy(cfg, gp, t.a[i].t)]]]
    [] OTHER -> t

(* ---- canonical rendering -------------------------------------------------------
   base        [const ][struct |union |enum ]name[<args>]
   pointer     [const ]*ATTR(inner)      reference &(inner)
   array       [len](inner)
   fn pointer  *ATTR(fn(name:type,...)->NORET(ret))                                 *)
PtrAttr(cfg, nl) == IF cfg.lang = "Cython" THEN "" ELSE IF nl THEN cfg.nullable_attr ELSE cfg.nonnull_attr
ConstStr(c) == IF c.k = "cval" THEN c.v ELSE c.x
RECURSIVE Canon(_, _, _), CanonArgs(_, _), CanonFn(_, _, _, _)
CanonGArg(cfg, a) == IF IsConstArg(a) THEN ConstStr(a) ELSE Canon(cfg, a, FALSE)
Canon(cfg, t, c) ==
  CASE t.k = "path" -> (IF c THEN "const " ELSE "")
                       \o (IF cfg.lang # "Cython" /\ t.ct # "" THEN t.ct \o " " ELSE "") \o t.x
                       \o (IF t.g = <<>> THEN "" ELSE "<" \o Join([i \in 1..Len(t.g) |-> CanonGArg(cfg, t.g[i])], ",") \o ">")
    [] t.k = "prim" -> (IF c THEN "const " ELSE "") \o CRepr(cfg, t.p)
    [] t.k = "ptr" -> IF t.rf THEN "&(" \o Canon(cfg, t.t, t.c) \o ")"
                      ELSE (IF c THEN "const " ELSE "") \o "*" \o PtrAttr(cfg, t.nl) \o "(" \o Canon(cfg, t.t, t.c) \o ")"
    [] t.k = "arr" -> "[" \o ConstStr(t.l) \o "](" \o Canon(cfg, t.t, c) \o ")"
    [] t.k = "fn" -> "*" \o PtrAttr(cfg, TRUE) \o "(" \o CanonFn(cfg, t.a, t.r, t.nr) \o ")"
CanonArg(cfg, a) ==
  IF a.t.k = "prim" /\ a.t.p = "va_list" THEN "..."
  ELSE (IF a.n = "" THEN "" ELSE a.n \o ":") \o Canon(cfg, a.t, FALSE)
CanonArgs(cfg, as) == Join([i \in 1..Len(as) |-> CanonArg(cfg, as[i])], ",")
CanonFn(cfg, as, r, nr) ==
  "fn(" \o CanonArgs(cfg, as) \o ")->" \o (IF nr /\ cfg.lang # "Cython" THEN cfg.no_return ELSE "")
  \o "(" \o Canon(cfg, r, FALSE) \o ")"
=============================================================================
