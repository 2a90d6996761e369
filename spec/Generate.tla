------------------------------ MODULE Generate ------------------------------
(* The generator as a state machine: one run of cbindgen over one crate with   *)
(* one configuration.  Items are loaded one at a time, the library goes        *)
(* through the transformation phases in order, exported items are visited one  *)
(* at a time to collect the types they need, and the header is laid out.       *)
(*                                                                             *)
(*   job   the program, the configuration and, in traces, the observation      *)
(*   pc    phase                                                               *)
(*   todo  items still to load / paths still to visit                          *)
(*   lib   the library (item maps)                                             *)
(*   aux   instantiations (mono) or [seen, order] (visit)                      *)
(*   out   the declarations of the header, once emitted                        *)
EXTENDS Emit

VARIABLES job, pc, todo, lib, aux, out
gvars == <<job, pc, todo, lib, aux, out>>

C == job.cfg
P == job.prog
Start(jobs) ==
  /\ job \in jobs
  /\ pc = "load"
  /\ todo = LoadOrder(job.prog)
  /\ lib = [EmptyLib EXCEPT !.opaques = StdOpaque]
  /\ aux = Mono0
  /\ out = <<>>

Go(p) == pc' = p /\ UNCHANGED job
Phase(p, q, l) == pc = p /\ Go(q) /\ lib' = l /\ UNCHANGED <<todo, aux, out>>

LoadOne == /\ pc = "load" /\ todo # <<>>
           /\ lib' = LoadItem(C, P, lib, Head(todo))
           /\ todo' = Tail(todo)
           /\ UNCHANGED <<job, pc, aux, out>>
LoadDone == pc = "load" /\ todo = <<>> /\ Go("transfer") /\ UNCHANGED <<todo, lib, aux, out>>
DoTransfer == Phase("transfer", "simplify", Transfer(lib))
DoSimplify == Phase("simplify", "sortfns", SimplifyLib(C, lib))
DoSortFns == Phase("sortfns", IF C.lang = "Cxx" THEN "exclude" ELSE "mono", SortFns(C, lib))
DoMono == /\ pc = "mono" /\ aux' = MonoAll(C, lib)
          /\ Go("mangle") /\ UNCHANGED <<todo, lib, out>>
DoMangle == Phase("mangle", IF aux.bad THEN "panic" ELSE "exclude", Monomorphise(C, lib, aux))
DoExclude == Phase("exclude", "elaborate", Exclude(C, lib))
DoElaborate == Phase("elaborate", "rename", Elaborate(C, lib))
DoRename == /\ pc = "rename" /\ lib' = RenameLib(C, lib)
            /\ Go("roots") /\ UNCHANGED <<todo, aux, out>>
DoRoots == /\ pc = "roots" /\ todo' = Roots(C, lib) /\ aux' = [seen |-> {}, order |-> <<>>]
           /\ Go("visit") /\ UNCHANGED <<lib, out>>
VisitOne == /\ pc = "visit" /\ todo # <<>>
            /\ aux' = DepAdd(C, lib, aux, Head(todo))
            /\ todo' = Tail(todo)
            /\ UNCHANGED <<job, pc, lib, out>>
VisitDone == /\ pc = "visit" /\ todo = <<>>
             /\ aux' = [aux EXCEPT !.order = SortItems(@)]
             /\ Go("emit") /\ UNCHANGED <<todo, lib, out>>
DoEmit == /\ pc = "emit" /\ out' = EmitAll(C, lib, aux.order)
          /\ Go("done") /\ UNCHANGED <<todo, lib, aux>>

Next == \/ LoadOne \/ LoadDone \/ DoTransfer \/ DoSimplify \/ DoSortFns \/ DoMono \/ DoMangle \/ DoExclude
        \/ DoElaborate \/ DoRename \/ DoRoots \/ VisitOne \/ VisitDone \/ DoEmit
=============================================================================
