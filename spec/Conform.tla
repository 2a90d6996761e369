------------------------------- MODULE Conform -------------------------------
(* Trace validation: every behaviour of Generate over the jobs of a trace file *)
(* must end in the header the real cbindgen wrote for the same crate and       *)
(* configuration.  Each property looks at its own projection of the two        *)
(* headers (which declarations, which of their parts, and how they are lined   *)
(* up).  Verdicts are printed one per job; lib/vp.py collects them.            *)
EXTENDS Props, Json, IOUtils

TraceJobs == ndJsonDeserialize(IOEnv.VP_TRACE)
CONSTANT Prop

Types == {"struct", "union", "enum", "typedef", "opaque"}
All == Types \cup {"fn", "global", "const"}
Skeleton == {"k", "n", "tag", "td"}
Shape == Skeleton \cup {"gen", "fields", "vals", "t", "prim", "cls", "bits"}
Everything == Shape \cup {"attrs", "v", "cond", "ext", "doc"}

(* which declarations, which keys, how lined up                                 *)
(*   seq : position by position                                                 *)
(*   bag : the same declarations, in any order, equal key by key                *)
(*   join: declarations of the same kind and name, where both sides have them   *)
(*   ord : the declarations both sides have come in the same order              *)
Views ==
  [C01 |-> [ks |-> All, keys |-> Everything, how |-> "seq"],
   C03 |-> [ks |-> {"fn", "global"}, keys |-> {"k", "n", "ext"}, how |-> "bag"],
   C04 |-> [ks |-> Types, keys |-> {"k", "n", "tag", "td"}, how |-> "bag"],
   C06 |-> [ks |-> All, keys |-> {"k", "n", "t", "fields", "bits", "prim", "gen"}, how |-> "join"],
   C07 |-> [ks |-> All \ {"const"}, keys |-> Shape, how |-> "bag"],
   C08 |-> [ks |-> All, keys |-> {"k", "n", "cond", "fields", "vals"}, how |-> "bag"],
   C09 |-> [ks |-> {"const", "enum"}, keys |-> {"k", "n", "td", "t", "v", "attrs", "vals"}, how |-> "bag"],
   C10 |-> [ks |-> All, keys |-> Skeleton \cup {"fields", "vals", "t", "v"}, how |-> "bag"],
   C13 |-> [ks |-> All, keys |-> {"k", "n"}, how |-> "bag"],
   C16 |-> [ks |-> All, keys |-> Shape \cup {"v"}, how |-> "bag"],
   C18 |-> [ks |-> All, keys |-> {"k", "n", "doc", "fields", "vals"}, how |-> "join"],
   C19 |-> [ks |-> All, keys |-> {"k", "n"}, how |-> "ord"],
   C20 |-> [ks |-> All, keys |-> Shape \cup {"v", "attrs", "ext"}, how |-> "bag"],
   C22 |-> [ks |-> All, keys |-> Shape \cup {"v"}, how |-> "bag"],
   C17 |-> [ks |-> All, keys |-> Everything, how |-> "seq"],
   ALL |-> [ks |-> All, keys |-> Everything, how |-> "seq"]]
V == Views[Prop]

(* C18 looks at the docs of members, C08 at their conditions, ... *)
MemberKeys == CASE Prop = "C18" -> {"n", "doc"}
                [] Prop = "C08" -> {"n", "cond"}
                [] Prop = "C06" -> {"n", "t", "bits"}
                [] Prop = "C09" -> {"n", "v"}
                [] Prop = "C10" -> {"n", "t", "v"}
                [] Prop \in {"C01", "C17", "ALL"} -> {"n", "t", "bits", "doc", "v", "cond", "attrs"}
                [] Prop = "C20" -> {"n", "t", "bits", "v", "attrs"}
                [] OTHER -> {"n", "t", "bits", "v"}
RECURSIVE FieldsEq(_, _)
FieldsEq(e, o) ==
  /\ Len(e) = Len(o)
  /\ \A i \in 1..Len(e) : /\ \A k \in MemberKeys \cap {"n", "t", "bits", "doc"} : e[i][k] = o[i][k]
                          /\ "cond" \in MemberKeys => CondEq(e[i].cond, o[i].cond)
                          /\ FieldsEq(e[i].fs, o[i].fs)
ValsEq(e, o) ==
  /\ Len(e) = Len(o)
  /\ \A i \in 1..Len(e) : /\ \A k \in MemberKeys \cap {"n", "v", "attrs", "doc"} : e[i][k] = o[i][k]
                          /\ "cond" \in MemberKeys => CondEq(e[i].cond, o[i].cond)
DiffKeys(e, o) ==
  { k \in V.keys \ {"bits"} : CASE k = "cond" -> ~CondEq(e.cond, o.cond)
                                [] k = "fields" -> ~FieldsEq(e.fields, o.fields)
                                [] k = "vals" -> ~ValsEq(e.vals, o.vals)
                                [] OTHER -> e[k] # o[k] }
Sel(q) == Filter(q, LAMBDA d : d.k \in V.ks)
Show(e, o) == LET ks == DiffKeys(e, o) IN
  [decl |-> e.n, kind |-> e.k, keys |-> ks, expected |-> [k \in ks |-> e[k]], observed |-> [k \in ks |-> o[k]]]

SeqDiff(e, o) ==
  LET n == IF Len(e) < Len(o) THEN Len(e) ELSE Len(o)
      S == { i \in 1..n : DiffKeys(e[i], o[i]) # {} } IN
  IF S # {} THEN LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<Show(e[i], o[i])>>
  ELSE IF Len(e) > n THEN <<[missing |-> e[n + 1].n, kind |-> e[n + 1].k]>>
  ELSE IF Len(o) > n THEN <<[unexpected |-> o[n + 1].n, kind |-> o[n + 1].k]>> ELSE <<>>
Id(d) == <<d.k, d.n>>
Ids(q) == { Id(q[i]) : i \in 1..Len(q) }
At(q, id) == Filter(q, LAMBDA d : Id(d) = id)
JoinDiff(e, o, strict) ==
  LET bad(id) == LET a == At(e, id) b == At(o, id) IN
                 IF Len(a) # Len(b) THEN strict ELSE \E i \in 1..Len(a) : DiffKeys(a[i], b[i]) # {}
      S == { id \in Ids(e) \cup Ids(o) : bad(id) }
  IN IF S = {} THEN <<>>
     ELSE LET id == CHOOSE id \in S : TRUE
              a == At(e, id) b == At(o, id) IN
          IF Len(a) > Len(b) THEN <<[missing |-> id[2], kind |-> id[1]]>>
          ELSE IF Len(a) < Len(b) THEN <<[unexpected |-> id[2], kind |-> id[1]]>>
          ELSE LET i == CHOOSE i \in 1..Len(a) : DiffKeys(a[i], b[i]) # {} IN <<Show(a[i], b[i])>>
OrdDiff(e, o) ==
  LET both == Ids(e) \cap Ids(o)
      once == { id \in both : Len(At(e, id)) = 1 /\ Len(At(o, id)) = 1 }
      f(q) == Filter(q, LAMBDA d : Id(d) \in once) IN
  SeqDiff(f(e), f(o))

Obs == job.obs
(* a library that exports the same C symbol twice does not link, but the       *)
(* symbol file must still list exactly what the header declares                *)
SymfileDiff ==
  LET e == Symbols(C, lib) o == Obs.sym IN
  IF Elems(e) # Elems(o) THEN <<[symbols |-> Elems(e), symfile |-> Elems(o)]>>
  ELSE <<>>
(* runs of the same input: the digests of their outputs *)
Nondet == Prop = "C01" /\ \E i \in 2..Len(Obs.runs) : Obs.runs[i] # Obs.runs[1]
Verdict ==
  IF Nondet THEN <<"runs of the same input gave different output">>
  ELSE IF Prop = "C01" THEN <<>>
  ELSE IF pc = "panic" THEN (IF Obs.status = "panic" THEN <<>> ELSE <<"expected a panic">>)
  ELSE IF Obs.status # "ok" THEN <<[status |-> Obs.status, err |-> Obs.err]>>
  ELSE LET e == Sel(out) o == Sel(Obs.decls)
           d == CASE V.how = "seq" -> SeqDiff(e, o)
                  [] V.how = "bag" -> JoinDiff(e, o, TRUE)
                  [] V.how = "join" -> JoinDiff(e, o, FALSE)
                  [] OTHER -> OrdDiff(e, o)
       IN IF d # <<>> THEN d ELSE IF Prop \in {"C03", "ALL", "C13", "C22"} THEN SymfileDiff ELSE <<>>
Judge == /\ pc \in {"done", "panic"}
         /\ pc' = "judged"
         /\ LET v == Verdict IN PrintT("@@" \o ToString(job.id) \o "@" \o ToString(v))
         /\ UNCHANGED <<job, todo, lib, aux, out>>
CInit == LET cs == TraceJobs IN Start({ cs[i] : i \in 1..Len(cs) })
CNext == Next \/ Judge
CSpec == CInit /\ [][CNext]_gvars
==============================================================================
