------------------------------- MODULE Frame -------------------------------
(* What surrounds the declarations of a header: banners, include guard,       *)
(* includes, namespaces, extern "C", Cython's extern block, trailer.  One     *)
(* action per section, in the order a header is written; every piece is an    *)
(* event [k, v, view], view saying whether a C compiler, a C++ compiler or     *)
(* both see it.  Scopes is the stack of scopes open in the C++ view.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

VARIABLES job, pc, ev, scopes, cscopes
vars == <<job, pc, ev, scopes, cscopes>>
C == job.cfg
D == job.decls          \* declarations by group: consts, types, consts2, globals, fns
TraceJobs == ndJsonDeserialize(IOEnv.VP_TRACE)

IsC == C.lang = "C"
IsCxx == C.lang = "Cxx"
IsCy == C.lang = "Cython"
Compat == IsC /\ C.cpp_compat
E(k, v) == [k |-> k, v |-> v, w |-> "both"]
X(k, v) == [k |-> k, v |-> v, w |-> IF IsCxx THEN "both" ELSE "cpp"]
Text(k, s) == [i \in 1..Len(s) |-> E(k, s[i])]
Opt(c, e) == IF c THEN <<e>> ELSE <<>>
Namespaces == IF IsCxx \/ Compat THEN (IF C.namespace = "" THEN <<>> ELSE <<C.namespace>>) \o C.namespaces ELSE <<>>
HasLinked == D.globals # <<>> \/ D.fns # <<>>

Order == <<"pkg", "header", "guard", "pragma", "version", "autogen", "incs", "after", "open", "consts", "types", "consts2",
           "using", "extern", "globals", "fns", "unextern", "close", "unguard", "trailer", "done">>
NextPc == Order[(CHOOSE i \in 1..Len(Order) : Order[i] = pc) + 1]
Out(s) == /\ ev' = ev \o s /\ pc' = NextPc /\ UNCHANGED job
Keep == UNCHANGED <<scopes, cscopes>>
Plain(s) == Out(s) /\ Keep
Push(ns) == scopes' = scopes \o ns
Pop(n) == scopes' = SubSeq(scopes, 1, Len(scopes) - n)

Pkg == pc = "pkg" /\ Plain(Opt(C.package_version, E("pkg", job.version)))
Header == pc = "header" /\ Plain(Text("text", C.header))
HasGuard == C.include_guard # "" /\ ~IsCy
Guard == /\ pc = "guard" /\ Out(Opt(HasGuard, E("guard", C.include_guard)))
         /\ (IF HasGuard THEN scopes' = <<"guard">> /\ cscopes' = <<"guard">> ELSE Keep)
Pragma == pc = "pragma" /\ Plain(Opt(C.pragma_once /\ ~IsCy, E("once", "")))
Version == pc = "version" /\ Plain(Opt(C.include_version, E("version", "")))
Autogen == pc = "autogen" /\ Plain(Text("text", C.autogen_warning))
StdC == <<"stdarg.h", "stdbool.h">> \o (IF C.usz THEN <<"stddef.h">> ELSE <<>>) \o <<"stdint.h", "stdlib.h">>
StdCxx == <<"cstdarg">> \o (IF C.usz THEN <<"cstddef">> ELSE <<>>) \o <<"cstdint", "cstdlib", "ostream", "new">>
          \o (IF C.casts /\ ~C.assert_name THEN <<"cassert">> ELSE <<>>)
StdCy == <<[k |-> "cimport", v |-> "libc.stdint:int8_t,int16_t,int32_t,int64_t,intptr_t", w |-> "both"],
           [k |-> "cimport", v |-> "libc.stdint:uint8_t,uint16_t,uint32_t,uint64_t,uintptr_t", w |-> "both"],
           E("cyopen", "*"), E("cydecl", "bool"), E("cydecl", "va_list"), E("cyclose", "")>>
Std == IF C.no_includes THEN <<>> ELSE IF IsC THEN Text("sys", StdC) ELSE IF IsCxx THEN Text("sys", StdCxx) ELSE StdCy
Incs == pc = "incs" /\ Plain(Std \o (IF IsCy THEN Text("cimport", C.cimports) ELSE Text("sys", C.sys_includes) \o Text("inc", C.includes)))
After == pc = "after" /\ Plain(Text("text", C.after_includes))
Open == /\ pc = "open"
        /\ IF IsCy THEN Out(<<E("cyopen", IF C.cyheader = "" THEN "*" ELSE C.cyheader)>>) /\ Push(<<"cython">>) /\ UNCHANGED cscopes
           ELSE Out([i \in 1..Len(Namespaces) |-> X("ns", Namespaces[i])]) /\ Push(Namespaces) /\ UNCHANGED cscopes
Decls(q) == [i \in 1..Len(q) |-> E("decl", q[i])]
Consts == pc = "consts" /\ Plain(Decls(D.consts))
Types == pc = "types" /\ Plain(Decls(D.types))
Consts2 == pc = "consts2" /\ Plain(Decls(D.consts2))
Using == pc = "using" /\ Plain(IF IsCxx /\ HasLinked THEN Text("using", C.using_namespaces) ELSE <<>>)
Linkage == HasLinked /\ (IsCxx \/ Compat)
Extern == /\ pc = "extern" /\ Out(Opt(Linkage, X("extern", "C")))
          /\ Push(IF Linkage THEN <<"extern C">> ELSE <<>>) /\ UNCHANGED cscopes
Globals == pc = "globals" /\ Plain(Decls(D.globals))
Fns == pc = "fns" /\ Plain(Decls(D.fns) \o (IF IsCy /\ D.consts \o D.types \o D.consts2 \o D.globals \o D.fns = <<>> THEN <<E("pass", "")>> ELSE <<>>))
Unextern == /\ pc = "unextern" /\ Out(Opt(Linkage, X("end", "extern C"))) /\ Pop(IF Linkage THEN 1 ELSE 0) /\ UNCHANGED cscopes
Close == /\ pc = "close"
         /\ IF IsCy THEN Out(<<E("cyclose", "")>>) /\ Pop(1) /\ UNCHANGED cscopes
            ELSE Out([i \in 1..Len(Namespaces) |-> X("end", Namespaces[Len(Namespaces) + 1 - i])]) /\ Pop(Len(Namespaces)) /\ UNCHANGED cscopes
Unguard == /\ pc = "unguard" /\ Out(Opt(HasGuard, E("unguard", C.include_guard)))
           /\ (IF HasGuard THEN scopes' = <<>> /\ cscopes' = <<>> ELSE Keep)
Trailer == pc = "trailer" /\ Plain(Text("text", C.trailer))
View(q, w) == SelectSeq(q, LAMBDA e : e.w \in {"both", w})
Strip(q) == [i \in 1..Len(q) |-> [k |-> q[i].k, v |-> q[i].v]]
Cut(q, i) == SubSeq(q, i, IF i + 2 < Len(q) THEN i + 2 ELSE Len(q))
First(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                   d == { i \in 1..n : a[i] # b[i] }
                   i == IF d = {} THEN n + 1 ELSE CHOOSE x \in d : \A y \in d : x <= y
               IN [at |-> i, expected |-> Cut(a, i), got |-> Cut(b, i)]
Cmp(w, want, got) == IF want = got THEN <<>> ELSE <<[view |-> w, diff |-> First(want, got)]>>
Verdict == IF job.obs.status # "ok" THEN <<[status |-> job.obs.status, err |-> job.obs.err]>>
           ELSE (IF IsCxx THEN <<>> ELSE Cmp("c", Strip(View(ev, "c")), job.obs.c)) \o (IF IsCy THEN <<>> ELSE Cmp("cpp", Strip(View(ev, "cpp")), job.obs.cpp))
Done == /\ pc = "done" /\ pc' = "judged" /\ UNCHANGED <<job, ev, scopes, cscopes>>
        /\ LET v == Verdict IN PrintT("@@" \o ToString(job.id) \o "@" \o ToString(v))
Init == /\ LET cs == TraceJobs IN job \in { cs[i] : i \in 1..Len(cs) }
        /\ pc = "pkg" /\ ev = <<>> /\ scopes = <<>> /\ cscopes = <<>>
Next == Pkg \/ Header \/ Guard \/ Pragma \/ Version \/ Autogen \/ Incs \/ After \/ Open \/ Consts \/ Types \/ Consts2 \/ Using \/ Extern
        \/ Globals \/ Fns \/ Unextern \/ Close \/ Unguard \/ Trailer \/ Done
Spec == Init /\ [][Next]_vars

(* ---- the guarantees themselves, as invariants of the model ---- *)
Balanced == pc \in {"trailer", "done", "judged"} => scopes = <<>> /\ cscopes = <<>>
Guarded == (HasGuard /\ pc \in {"pragma", "incs", "open", "consts", "types", "globals", "fns", "close"}) => scopes # <<>> /\ scopes[1] = "guard"
\* linkage of everything that has a symbol: C linkage for C++ compilers, inside the namespaces
Linked == (pc = "fns" /\ (IsCxx \/ Compat) /\ HasLinked) =>
             scopes = (IF HasGuard THEN <<"guard">> ELSE <<>>) \o Namespaces \o <<"extern C">>
OnlyC == (IsC /\ ~Compat) => \A i \in 1..Len(ev) : ev[i].w = "both"
==============================================================================
