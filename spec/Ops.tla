--------------------------------- MODULE Ops ---------------------------------
(* Derived C++ operations as a state machine over values.                      *)
(*                                                                             *)
(* A value is [v, f]: v is the number (or the variant, 1..) and f the fields.  *)
(* A history makes, copies, assigns, changes, compares, casts, tests and       *)
(* prints values held in variables; each operation has the meaning it has in   *)
(* Rust (a variant is its tag and its fields, equality is structural, the      *)
(* order of a one-field struct is that of its field, copies are independent).  *)
(* The observations of the compiled header must be those of the model, the     *)
(* operations that exist must be those that were asked for, and payloads with  *)
(* destructors must be alive exactly while a variable holds them.              *)
EXTENDS Str, Json, IOUtils, Bitwise

TraceJobs == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES job, pc, h, i, regs, seen
vars == <<job, pc, h, i, regs, seen>>

Ty == job.types
Val(v, f) == [v |-> v, f |-> f]
StrictAtoi(s) == CHOOSE n \in 0..999 : ToString(n) = s
(* fp, dp: a function and a data pointer (their place in a table) *)
Scalar(t) == t \in {"int", "bool", "cnt", "fp", "dp"}
IsArr(t) == StartsWith(t, "arr")
TypeOf(t) == Ty[StrictAtoi(t)]

(* ---- reading ---------------------------------------------------------------- *)
RECURSIVE Dump(_, _), DumpT(_, _)
DumpAll(fs, f) == Join([k \in 1..Len(fs) |-> Dump(fs[k].t, f[k])], ",")
Dump(t, x) == IF Scalar(t) THEN ToString(x.v)
              ELSE IF IsArr(t) THEN "[" \o Join([k \in 1..Len(x.f) |-> ToString(x.f[k])], ",") \o "]"
              ELSE DumpT(TypeOf(t), x)
DumpT(T, x) == CASE T.k = "plain" -> "e" \o ToString(x.v)
                 [] T.k = "enum" -> "e" \o ToString(x.v) \o "(" \o DumpAll(T.vars[x.v].fields, x.f) \o ")"
                 [] OTHER -> "s(" \o DumpAll(T.fields, x.f) \o ")"

RECURSIVE Text(_, _), TextT(_, _)
Named(fs, f) == [k \in 1..Len(fs) |-> fs[k].n \o "=" \o Text(fs[k].t, f[k])]
Braced(q) == "{ " \o Join(q, ", ") \o " }"
Text(t, x) == IF Scalar(t) THEN ToString(x.v) ELSE TextT(TypeOf(t), x)
TextT(T, x) ==
  CASE T.k = "plain" -> T.vars[x.v].x
    [] T.k = "enum" ->
         LET V == T.vars[x.v] IN
         IF V.s = "unit" THEN V.x
         ELSE IF T.inl THEN Braced(<<V.tag \o "=" \o V.x>> \o Named(V.fields, x.f))
         ELSE V.x \o Braced(Named(V.fields, x.f))
    [] OTHER -> Braced(Named(T.fields, x.f))

(* the one number behind a value with an order *)
RECURSIVE Key(_)
Key(x) == IF x.f = <<>> THEN x.v ELSE Key(x.f[1])
Compare(what, T, a, b) ==
  CASE what = "eq" -> a = b
    [] what = "neq" -> a # b
    [] what = "lt" -> Key(a) < Key(b)
    [] what = "lte" -> Key(a) <= Key(b)
    [] what = "gt" -> Key(a) > Key(b)
    [] OTHER -> Key(a) >= Key(b)

RECURSIVE Counted(_, _)
SumSeq(q) == FoldL(LAMBDA a, b : a + b, 0, q)
CountedIn(fs, f) == SumSeq([k \in 1..Len(fs) |-> Counted(fs[k].t, f[k])])
CountedT(T, x) == CASE T.k = "plain" -> 0
                    [] T.k = "enum" -> CountedIn(T.vars[x.v].fields, x.f)
                    [] OTHER -> CountedIn(T.fields, x.f)
Counted(t, x) == IF t = "cnt" THEN 1 ELSE IF Scalar(t) \/ IsArr(t) THEN 0 ELSE CountedT(TypeOf(t), x)
Live == SumSeq([k \in 1..Len(regs) |-> CountedT(Ty[regs[k].t], regs[k].x)])

(* ---- the operations ------------------------------------------------------------ *)
Op == job.hists[h][i]
Reg(n) == regs[n].x
RT(n) == Ty[regs[n].t]
ArgVal(a) == CASE a.k = "v" -> Val(a.v, <<>>) [] a.k = "arr" -> Val(0, a.f) [] OTHER -> Reg(a.r)
Pow2(n) == IF n = 8 THEN 256 ELSE 65536
BitOp(what, T, a, b) ==
  CASE what \in {"or", "ior"} -> a | b
    [] what \in {"and", "iand"} -> a & b
    [] what \in {"xor", "ixor"} -> a ^^ b
    [] OTHER -> Pow2(T.width) - 1 - a
B2S(b) == IF b THEN "1" ELSE "0"

Observe(s) == seen' = Append(seen, [i |-> i, s |-> s])
Quiet == UNCHANGED seen
Step ==
  CASE Op.op = "mk" -> /\ regs' = Append(regs, [t |-> Op.t, x |-> Val(Op.var, [k \in 1..Len(Op.args) |-> ArgVal(Op.args[k])])]) /\ Quiet
    [] Op.op = "copy" -> regs' = Append(regs, regs[Op.a]) /\ Quiet
    [] Op.op = "assign" -> regs' = [regs EXCEPT ![Op.d] = regs[Op.a]] /\ Quiet
    [] Op.op = "set" -> /\ regs' = IF Reg(Op.a).v = Op.var THEN [regs EXCEPT ![Op.a].x.f[Op.fi] = Val(Op.b, <<>>)] ELSE regs
                        /\ Quiet
    [] Op.op = "dump" -> Observe(DumpT(RT(Op.a), Reg(Op.a))) /\ UNCHANGED regs
    [] Op.op = "print" -> Observe(TextT(RT(Op.a), Reg(Op.a))) /\ UNCHANGED regs
    [] Op.op = "cmp" -> Observe(B2S(Compare(Op.what, RT(Op.a), Reg(Op.a), Reg(Op.b)))) /\ UNCHANGED regs
    [] Op.op = "is" -> LET V == RT(Op.a).vars
                           on == Filter([k \in 1..Len(V) |-> k], LAMBDA k : V[k].on) IN
                       Observe(CatAll([k \in 1..Len(on) |-> B2S(on[k] = Reg(Op.a).v)])) /\ UNCHANGED regs
    [] Op.op = "as" -> LET ok == Reg(Op.a).v = Op.var IN
                       Observe(B2S(ok) \o (IF ok THEN ":" \o DumpAll(RT(Op.a).vars[Op.var].fields, Reg(Op.a).f) ELSE "")) /\ UNCHANGED regs
    [] Op.op = "bits" ->
         LET T == RT(Op.a)
             a == Reg(Op.a).f[1].v b == Reg(Op.b).f[1].v
             r == Val(1, <<Val(BitOp(Op.what, T, a, b), <<>>)>>)
         IN IF Op.what = "bool" THEN Observe(B2S(a # 0)) /\ UNCHANGED regs
            ELSE /\ Observe(DumpT(T, r))
                 /\ regs' = IF Op.what \in {"ior", "iand", "ixor"} THEN [regs EXCEPT ![Op.a].x = r] ELSE regs
    [] OTHER -> Observe(ToString(Live)) /\ UNCHANGED regs

(* ---- which operations exist ------------------------------------------------------ *)
Asked(T, f) == LET k == FirstIdx(T.ann, LAMBDA a : a.k = f) IN IF k # 0 THEN T.ann[k].b ELSE job.flags[f]
NoArr(fs) == \A k \in 1..Len(fs) : ~IsArr(fs[k].t)
EqBody(T, V) == V.s = "unit" \/ (V.fields # <<>> /\ NoArr(V.fields))
CanEq(T) == IF T.k = "enum" THEN \A k \in 1..Len(T.vars) : EqBody(T, T.vars[k]) ELSE T.fields # <<>> /\ NoArr(T.fields)
CanOrder(T) == T.k # "enum" /\ Len(T.fields) = 1 /\ T.fields[1].t \notin {"bool", "fp"} /\ NoArr(T.fields)
Exists(T, op) ==
  CASE op = "eq" -> Asked(T, "eq") /\ CanEq(T)
    [] op = "neq" -> Asked(T, "neq") /\ CanEq(T) /\ (T.k = "enum" => Asked(T, "eq"))
    [] op \in {"lt", "lte", "gt", "gte"} -> T.k # "enum" /\ Asked(T, op) /\ CanOrder(T)
    [] op = "ostream" -> IF T.k \in {"enum", "plain"} THEN Asked(T, "eostream") ELSE Asked(T, "ostream")
    [] op = "ctor" -> Asked(T, "ctor") /\ T.fields # <<>>
    [] op = "defctor" -> ~Asked(T, "priv") /\ ~Asked(T, "cctor")
    [] op = "trivdtor" -> ~Asked(T, "dtor")
    [] op = "trivcopy" -> ~Asked(T, "cctor") /\ ~Asked(T, "dtor")
    [] op = "trivassign" -> ~(Asked(T, "cctor") /\ Asked(T, "cassign"))
    [] OTHER ->
         LET dot == CHOOSE k \in 1..Len(op) : Ch(op, k) = "."
             nm == SubSeq(op, 1, dot - 1)
             V == T.vars[StrictAtoi(SubSeq(op, dot + 1, Len(op)))]
             base == Asked(T, "helper") /\ V.on
         IN CASE nm \in {"make", "is"} -> base
              [] OTHER -> base /\ V.fields # <<>> /\ Asked(T, nm)
PresDiff == { k \in 1..Len(job.obs.pres) : job.obs.pres[k].v # Exists(Ty[job.obs.pres[k].t], job.obs.pres[k].op) }

(* ---- attributes in front of them --------------------------------------------------- *)
At(T, k, ok, d) == LET j == FirstIdx(T.attrs, LAMBDA a : a.k = k) IN
                   IF j = 0 \/ ~ok THEN <<>> ELSE <<[a |-> T.attrs[j].v, d |-> d, s |-> T.x]>>
VAt(T, V, k, ok, d) == LET j == FirstIdx(V.attrs, LAMBDA a : a.k = k) IN
                       IF j = 0 \/ ~ok THEN <<>> ELSE <<[a |-> V.attrs[j].v, d |-> d, s |-> T.x]>>
TypeAttrs(T) ==
  LET cmp == At(T, "eq", Exists(T, "eq"), "operator==") \o At(T, "neq", Exists(T, "neq"), "operator!=")
             \o At(T, "lt", Exists(T, "lt"), "operator<") \o At(T, "lte", Exists(T, "lte"), "operator<=")
             \o At(T, "gt", Exists(T, "gt"), "operator>") \o At(T, "gte", Exists(T, "gte"), "operator>=")
      OneV(V) == LET hlp == Asked(T, "helper") IN
                 VAt(T, V, "variant-constructor", hlp, V.x) \o VAt(T, V, "variant-is", hlp, "Is" \o V.x)
                 \o VAt(T, V, "variant-const-cast", hlp /\ V.fields # <<>> /\ Asked(T, "ccast"), "As" \o V.x)
                 \o VAt(T, V, "variant-mut-cast", hlp /\ V.fields # <<>> /\ Asked(T, "mcast"), "As" \o V.x)
  IN CASE T.k = "plain" -> <<>>
       [] T.k = "enum" -> cmp \o At(T, "destructor", Asked(T, "dtor"), "~" \o T.x)
                          \o At(T, "copy-constructor", Asked(T, "cctor"), T.x)
                          \o At(T, "copy-assignment", Asked(T, "cctor") /\ Asked(T, "cassign"), "operator=")
                          \o ConcatAll([k \in 1..Len(T.vars) |-> OneV(T.vars[k])])
       [] OTHER -> cmp
WantAttrs == ConcatAll([k \in 1..Len(Ty) |-> TypeAttrs(Ty[k])])
Count(q, e) == Len(Filter(q, LAMBDA x : x = e))
AttrDiff == { e \in Elems(WantAttrs) \cup Elems(job.obs.attrs) : Count(WantAttrs, e) # Count(job.obs.attrs, e) }

(* ---- behaviour ----------------------------------------------------------------------- *)
Say(v) == PrintT("@@" \o ToString(job.id) \o "@" \o ToString(v))
Upfront ==
  IF job.obs.status # "ok" THEN <<[status |-> job.obs.status, err |-> job.obs.err]>>
  ELSE IF job.obs.comp # "" THEN <<[does_not_compile |-> job.obs.comp]>>
  ELSE IF PresDiff # {} THEN LET k == CHOOSE k \in PresDiff : TRUE p == job.obs.pres[k] IN
       <<[type |-> Ty[p.t].n, operation |-> p.op, exists |-> p.v, asked |-> Exists(Ty[p.t], p.op)]>>
  ELSE IF AttrDiff # {} THEN LET e == CHOOSE e \in AttrDiff : TRUE IN
       <<[attribute |-> e, expected |-> Count(WantAttrs, e), observed |-> Count(job.obs.attrs, e)]>>
  ELSE IF job.run # "0" THEN <<[program_ended_with |-> job.run]>>
  ELSE <<>>
Init == LET js == TraceJobs IN
        /\ job \in { js[k] : k \in 1..Len(js) }
        /\ pc = "start" /\ h = 1 /\ i = 1 /\ regs = <<>> /\ seen = <<>>
Begin == /\ pc = "start"
         /\ LET v == Upfront IN
            IF v # <<>> THEN Say(v) /\ pc' = "judged" ELSE pc' = "run"
         /\ UNCHANGED <<job, h, i, regs, seen>>
Do == pc = "run" /\ h <= Len(job.hists) /\ i <= Len(job.hists[h]) /\ Step /\ i' = i + 1 /\ UNCHANGED <<job, pc, h>>
(* a history ends: its variables go out of scope *)
Want == Append(seen, [i |-> 0, s |-> "0"])
EndHistory ==
  /\ pc = "run" /\ h <= Len(job.hists) /\ i > Len(job.hists[h])
  /\ LET o == IF h <= Len(job.obs.obs) THEN job.obs.obs[h] ELSE <<>>
         n == IF Len(o) < Len(Want) THEN Len(o) ELSE Len(Want)
         bad == { k \in 1..n : o[k] # Want[k] }
     IN IF bad # {} \/ Len(o) # Len(Want)
        THEN /\ LET k == IF bad = {} THEN n + 1 ELSE CHOOSE k \in bad : \A l \in bad : k <= l
                    e == IF k <= Len(Want) THEN Want[k] ELSE [i |-> -1, s |-> "nothing"]
                    g == IF k <= Len(o) THEN o[k] ELSE [i |-> -1, s |-> "nothing"]
                IN Say(<<[history |-> h, step |-> e.i, op |-> IF e.i > 0 THEN job.hists[h][e.i].op \o " " \o job.hists[h][e.i].what ELSE "end",
                          expected |-> e.s, observed |-> g.s]>>)
             /\ pc' = "judged" /\ UNCHANGED <<h, i, regs, seen>>
        ELSE h' = h + 1 /\ i' = 1 /\ regs' = <<>> /\ seen' = <<>> /\ UNCHANGED pc
  /\ UNCHANGED job
Accept == pc = "run" /\ h > Len(job.hists) /\ Say(<<>>) /\ pc' = "judged" /\ UNCHANGED <<job, h, i, regs, seen>>
Next == Begin \/ Do \/ EndHistory \/ Accept
OSpec == Init /\ [][Next]_vars
==============================================================================
