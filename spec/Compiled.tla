------------------------------ MODULE Compiled ------------------------------
(* What compilers must make of the header: it compiles (C02), every type has   *)
(* the size, alignment and field offsets it has in Rust (C05), and constants   *)
(* and enumerators have the value of the Rust constants (C09).                 *)
(* The data layout rules are those of the Rust reference for repr(C),          *)
(* repr(int), transparent, packed and align on an LP64 target.                 *)
EXTENDS Generate, Json, IOUtils

TraceJobs == ndJsonDeserialize(IOEnv.VP_TRACE)
CONSTANT Prop

PSize == [bool |-> 1, c_char |-> 1, c_schar |-> 1, c_uchar |-> 1, char |-> 4, c_short |-> 2, c_ushort |-> 2, c_int |-> 4, c_uint |-> 4,
          c_long |-> 8, c_ulong |-> 8, c_longlong |-> 8, c_ulonglong |-> 8, ssize_t |-> 8, size_t |-> 8, isize |-> 8, usize |-> 8,
          i8 |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8, f32 |-> 4, f64 |-> 8, ptrdiff_t |-> 8]
Max2(a, b) == IF a > b THEN a ELSE b
Up(x, a) == ((x + a - 1) \div a) * a
DigVal == [x \in Digits |-> CHOOSE i \in 0..9 : ToString(i) = x]
RECURSIVE StrInt(_)
StrInt(s) == IF s = "" \/ Ch(s, 1) \notin Digits THEN 0
             ELSE LET RECURSIVE G(_, _)
                      G(i, acc) == IF i > Len(s) \/ Ch(s, i) \notin Digits THEN acc ELSE G(i + 1, acc * 10 + DigVal[Ch(s, i)])
                  IN G(1, 0)

(* ---- layout -------------------------------------------------------------------- *)
(* ls: sequence of [s, a]; packed: no padding; al: minimum alignment               *)
Lay(ls, packed, al) ==
  LET Step(st, l) == LET o == IF packed THEN st.e ELSE Up(st.e, l.a) IN
                     [offs |-> Append(st.offs, o), e |-> o + l.s, a |-> IF packed THEN st.a ELSE Max2(st.a, l.a)]
      st == FoldL(Step, [offs |-> <<>>, e |-> 0, a |-> al], ls)
  IN [offs |-> st.offs, s |-> Up(st.e, st.a), a |-> st.a]
LayU(ls, al) ==
  LET a == FoldL(LAMBDA m, l : Max2(m, l.a), al, ls)
      s == FoldL(LAMBDA m, l : Max2(m, l.s), 0, ls)
  IN [s |-> Up(s, a), a |-> a]
MinAl(it) == IF it.al.k = "align" THEN StrInt(it.al.v) ELSE 1
TagL(e) == LET n == IF e.prim = "" THEN 4 ELSE PSize[e.prim] IN [s |-> n, a |-> n]
AllItems(l) == l.structs \o l.unions \o l.enums \o l.typedefs
ItemAt(l, n) == LET q == Filter(AllItems(l), LAMBDA i : i.n = n) IN q[1]
RECURSIVE TyL(_, _), ItemL(_, _, _), BodyL(_, _, _, _)
TyL(l, t) ==
  CASE t.k = "prim" -> [s |-> PSize[t.p], a |-> PSize[t.p]]
    [] t.k \in {"ptr", "fn"} -> [s |-> 8, a |-> 8]
    [] t.k = "arr" -> LET e == TyL(l, t.t) IN [s |-> e.s * StrInt(t.l.v), a |-> e.a]
    [] t.k = "path" -> LET it == ItemAt(l, t.n) r == ItemL(l, it, Mapping(it.gen, t.g)) IN [s |-> r.s, a |-> r.a]
FieldLs(l, fs, m) == [i \in 1..Len(fs) |-> TyL(l, SpecTy(fs[i].t, m))]
(* the body of a variant of an enum; with an inline tag its first field is the tag *)
BodyL(l, e, v, m) ==
  IF v.b.tagf THEN Lay(<<TagL(e)>> \o FieldLs(l, Tail(v.b.fields), m), FALSE, 1) ELSE Lay(FieldLs(l, v.b.fields, m), FALSE, 1)
ItemL(l, it, m) ==
  CASE it.k = "struct" -> Lay(FieldLs(l, it.fields, m), it.al.k = "packed", MinAl(it))
    [] it.k = "union" -> LET u == LayU(FieldLs(l, it.fields, m), MinAl(it)) IN
                         IF it.al.k = "packed" THEN LayU(MapSeq(FieldLs(l, it.fields, m), LAMBDA f : [s |-> f.s, a |-> 1]), 1) ELSE u
    [] it.k = "typedef" -> TyL(l, SpecTy(it.t, m))
    [] it.k = "enum" ->
         LET bs == Filter(it.vars, LAMBDA v : v.hasb)
             bl == [i \in 1..Len(bs) |-> BodyL(l, it, bs[i], m)]
             u == LayU(bl, 1)
         IN IF it.tag = "" THEN TagL(it)
            ELSE IF it.style = "Rust" THEN LayU(<<TagL(it)>> \o bl, 1)
            ELSE LET r == Lay(<<TagL(it), u>>, FALSE, 1) IN [s |-> r.s, a |-> r.a, uoff |-> r.offs[2]]
Rec(n, l, f) == [n |-> n, s |-> l.s, a |-> l.a, f |-> f]
FOffs(fs, offs) == { [n |-> fs[i].n, o |-> offs[i]] : i \in 1..Len(fs) }
(* the records a compiler must report for one declared item *)
LayoutOf(cfg, l, it) ==
  LET r == ItemL(l, it, <<>>) IN
  IF it.gen # <<>> \/ it.k = "opaque" THEN {}
  ELSE CASE it.k = "typedef" \/ (it.k = "struct" /\ it.trans) -> {Rec(it.x, r, {})}
         [] it.k = "struct" -> {Rec(it.x, r, FOffs(it.fields, r.offs))}
         [] it.k = "union" -> {Rec(it.x, r, { [n |-> it.fields[i].n, o |-> 0] : i \in 1..Len(it.fields) })}
         [] it.k = "enum" ->
              IF it.tag = "" THEN {Rec(it.x, r, {})}
              ELSE LET pre == IF IsCxx(cfg) THEN it.x \o "::" ELSE ""
                       base == IF it.style = "Rust" THEN 0 ELSE r.uoff
                       bs == { it.vars[i] : i \in { i \in 1..Len(it.vars) : it.vars[i].hasb } }
                       BL(v) == BodyL(l, it, v, <<>>)
                       mem(v) == IF v.inl THEN { [n |-> v.b.fields[i].n, o |-> base + BL(v).offs[i]] : i \in 1..Len(v.b.fields) }
                                 ELSE {[n |-> v.mn, o |-> base]}
                   IN {Rec(pre \o it.tag, TagL(it), {}), Rec(it.x, r, {[n |-> "tag", o |-> 0]} \cup UNION { mem(v) : v \in bs })}
                      \cup { Rec(pre \o v.b.x, BL(v), FOffs(v.b.fields, BL(v).offs)) : v \in { v \in bs : ~v.inl } }
Visible == Filter(aux.order, LAMBDA i : Exported(i.ann))
ExpLayout == UNION { LayoutOf(C, lib, Visible[i]) : i \in 1..Len(Visible) }
SetOf(q) == { q[i] : i \in 1..Len(q) }
ObsLayout(q) == { Rec(q[i].n, q[i], SetOf(q[i].f)) : i \in 1..Len(q) }
(* the same types in the crate itself (validates the layout rules above) *)
SrcName(f) == f.src
RustLayout ==
  LET one(it) == LET r == ItemL(lib, it, <<>>) IN
                 IF it.k = "struct" /\ ~it.trans
                 THEN Rec(it.n, r, { [n |-> LET s == SrcName(it.fields[i]) IN IF Ch(s, 1) = "_" /\ Len(s) = 2 THEN SubSeq(s, 2, 2) ELSE s, o |-> r.offs[i]] : i \in 1..Len(it.fields) })
                 ELSE IF it.k = "union" THEN Rec(it.n, r, { [n |-> SrcName(it.fields[i]), o |-> 0] : i \in 1..Len(it.fields) })
                 ELSE Rec(it.n, r, {})
      srcs == { P.items[i].n : i \in 1..Len(P.items) }
      q == Filter(AllItems(lib), LAMBDA it : it.gen = <<>> /\ it.n \in srcs)
  IN { one(q[i]) : i \in 1..Len(q) }
RustDiff ==
  IF ~job.obs.haverust THEN {}
  ELSE LET o == ObsLayout(job.obs.rust) e == RustLayout IN { x \in e : ~\E y \in o : y = x }

(* ---- values ---------------------------------------------------------------------- *)
RECURSIVE BitOp(_, _, _)
BitOp(op, a, b) ==
  IF a = 0 /\ b = 0 THEN 0
  ELSE LET x == a % 2 y == b % 2
           z == CASE op = "|" -> IF x + y > 0 THEN 1 ELSE 0 [] op = "&" -> x * y [] OTHER -> (x + y) % 2
       IN z + 2 * BitOp(op, a \div 2, b \div 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bound == [u8 |-> [MAX |-> "255", MIN |-> "0"], u16 |-> [MAX |-> "65535", MIN |-> "0"], u32 |-> [MAX |-> "4294967295", MIN |-> "0"],
          i8 |-> [MAX |-> "127", MIN |-> "-128"], i16 |-> [MAX |-> "32767", MIN |-> "-32768"], i32 |-> [MAX |-> "2147483647", MIN |-> "-2147483648"]]
Is(e, f) == f \in DOMAIN e
RECURSIVE Eval(_, _), EnumVal(_, _, _)
EnumVal(l, en, i) == IF en.vars[i].d.k # "nolit" THEN Eval(l, en.vars[i].d) ELSE IF i = 1 THEN 0 ELSE EnumVal(l, en, i - 1) + 1
Eval(l, e) ==
  CASE e.k = "raw" -> IF Is(e, "num") THEN e.num ELSE IF Is(e, "flt") THEN e.flt ELSE StrInt(e.v)
    [] e.k = "path" -> IF e.to = "" THEN LET q == Filter(l.consts, LAMBDA c : c.at = "" /\ c.x = e.n) IN Eval(l, q[1].val)
                       ELSE LET sc == ConcatAll([i \in 1..Len(StructsAt(l, e.to)) |-> StructsAt(l, e.to)[i].assoc])
                                ac == Filter(sc \o Filter(l.consts, LAMBDA c : c.at = e.to), LAMBDA c : c.x = e.n) IN
                            IF ac # <<>> THEN Eval(l, ac[1].val)
                            ELSE LET en == ByPath(l.enums, e.to)[1] IN EnumVal(l, en, FirstIdx(en.vars, LAMBDA v : v.n = e.n))
    [] e.k = "un" -> IF e.op = "!" THEN 1 - Eval(l, e.a) ELSE 0 - Eval(l, e.a)
    [] e.k = "cast" -> Eval(l, e.a) % 256
    [] e.k = "bin" -> LET a == Eval(l, e.a) b == Eval(l, e.b) IN
                      CASE e.op = "+" -> a + b [] e.op = "-" -> a - b [] e.op = "*" -> a * b
                        [] e.op = "<<" -> a * Pow2(b) [] e.op = ">>" -> a \div Pow2(b)
                        [] e.op = "&&" -> BitOp("&", a, b) [] e.op = "||" -> BitOp("|", a, b)
                        [] e.op \in {"==", "!=", "<", "<=", ">", ">="} ->
                             IF (e.op = "==" /\ a = b) \/ (e.op = "!=" /\ a # b) \/ (e.op = "<" /\ a < b) \/ (e.op = "<=" /\ a <= b)
                                \/ (e.op = ">" /\ a > b) \/ (e.op = ">=" /\ a >= b) THEN 1 ELSE 0
                        [] OTHER -> BitOp(e.op, a, b)
(* scalar leaves of a constant: <<path, kind, value>> *)
RECURSIVE Leaves(_, _, _)
Leaves(l, path, e) ==
  IF e.k = "struct"
  THEN LET ps == FieldPairs(l, e.n) IN
       ConcatAll([i \in 1..Len(ps) |-> Leaves(l, path \o "." \o ps[i].x, e.f[FirstIdx(e.f, LAMBDA f : f.n = ps[i].s)].v)])
  ELSE IF e.k = "path" /\ e.to \in DOMAIN Bound THEN <<[n |-> path, k |-> "int", v |-> Bound[e.to][e.n]]>>
  ELSE <<[n |-> path, k |-> IF Is(e, "flt") THEN "flt" ELSE "int", v |-> ToString(Eval(l, e))]>>
ConstVals(l, c, st) == LET d == EmitConst(C, l, c, st, CTrue) IN IF d = <<>> THEN <<>> ELSE Leaves(l, d[1].n, c.val)
ExpConsts ==
  LET cs == FinalConsts(C, lib)
      ss == Filter(Visible, LAMBDA i : i.k = "struct") IN
  SetOf(ConcatAll([i \in 1..Len(cs) |-> ConstVals(lib, cs[i], Item0)])
        \o ConcatAll([i \in 1..Len(ss) |-> ConcatAll([j \in 1..Len(ss[i].assoc) |-> ConstVals(lib, ss[i].assoc[j], ss[i])])]))
ExpVals ==
  LET es == Filter(Visible, LAMBDA i : i.k = "enum" /\ (i.gen = <<>>)) IN
  UNION { { [n |-> es[i].vars[j].x, v |-> ToString(EnumVal(lib, es[i], j))] : j \in 1..Len(es[i].vars) } : i \in 1..Len(es) }

(* ---- verdict ---------------------------------------------------------------------- *)
Obs == job.obs
SetDiff(what, e, o) == IF e = o THEN <<>> ELSE <<[what |-> what, missing |-> e \ o, unexpected |-> o \ e]>>
Verdict ==
  IF pc = "panic" THEN <<"the model predicts a panic">>
  ELSE IF Obs.status # "ok" THEN <<[status |-> Obs.status, err |-> Obs.err]>>
  ELSE IF Obs.comp # "" THEN <<[compiler |-> Obs.comp]>>
  ELSE CASE Prop = "C05" -> (IF RustDiff # {} THEN <<[rustc_disagrees_with_model |-> RustDiff]>> ELSE <<>>)
                            \o SetDiff("layout", ExpLayout, ObsLayout(Obs.layout))
         [] Prop = "C09" -> SetDiff("constants", ExpConsts, { [n |-> Obs.consts[i].n, k |-> Obs.consts[i].k, v |-> Obs.consts[i].v] : i \in 1..Len(Obs.consts) })
                            \o SetDiff("enumerators", ExpVals, { [n |-> Obs.vals[i].n, v |-> Obs.vals[i].v] : i \in 1..Len(Obs.vals) })
         [] OTHER -> <<>>
Judge == /\ pc \in {"done", "panic"}
         /\ pc' = "judged"
         /\ LET v == Verdict IN PrintT("@@" \o ToString(job.id) \o "@" \o ToString(v))
         /\ UNCHANGED <<job, todo, lib, aux, out>>
CInit == LET cs == TraceJobs IN Start({ cs[i] : i \in 1..Len(cs) })
CNext == Next \/ Judge
CSpec == CInit /\ [][CNext]_gvars
==============================================================================
