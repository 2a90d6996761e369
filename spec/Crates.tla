-------------------------------- MODULE Crates --------------------------------
(* How cbindgen walks a crate: which source files are read, in which order     *)
(* items are taken from them, and which dependencies are followed.             *)
(*                                                                             *)
(* A job holds the crates (name, version, root file, files with their items,   *)
(* dependencies as locked) and the parse configuration.  The walk is a stack   *)
(* machine: a crate is its root file then its dependencies; a file or inline   *)
(* module is its own items in order, then its nested modules in order.         *)
(*                                                                             *)
(* A file path is a sequence of components relative to the crate directory.    *)
EXTENDS CfgCond, Json, IOUtils

VARIABLES job, pc, stack, done, read, taken, status
vars == <<job, pc, stack, done, read, taken, status>>

(* ---- paths ------------------------------------------------------------------ *)
Normal(p) ==
  FoldL(LAMBDA acc, c : IF c = ".." THEN SubSeq(acc, 1, Len(acc) - 1) ELSE IF c = "." THEN acc ELSE Append(acc, c), <<>>, p)
DirOf(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]
Stem(f) == IF EndsWith(f, ".rs") THEN SubSeq(f, 1, Len(f) - 3) ELSE f

Crate(c) == job.crates[c]
FileIdx(c, p) == FirstIdx(Crate(c).files, LAMBDA f : f.p = Normal(p))
Exists(c, p) == FileIdx(c, p) # 0
FileAt(c, p) == Crate(c).files[FileIdx(c, p)]

(* the binding crate: the one the command line names, or that of the manifest *)
Binding == job.binding
TopLevel(c) == Crate(c).n = Crate(Binding).n \/ Crate(c).n \in Elems(job.parse.extra)

StdCrates == {"std", "std_unicode", "alloc", "collections", "core", "proc_macro"}
Follow(n) ==
  /\ n \notin done
  /\ job.parse.deps
  /\ job.parse.hasinc => n \in Elems(job.parse.include)
  /\ n \notin StdCrates
  /\ n \notin Elems(job.parse.exclude)

(* dependencies are those of the lock file, however it is written; without one there are none *)
Deps(c) == IF job.lock = "none" THEN <<>> ELSE Crate(c).deps

(* ---- tasks ------------------------------------------------------------------- *)
CrateTask(c, g) == [t |-> "crate", c |-> c, cfgs |-> g]
DepTask(c, g) == [t |-> "dep", c |-> c, cfgs |-> g]
FileTask(c, p, mr, g) == [t |-> "file", c |-> c, p |-> p, mr |-> mr, cfgs |-> g]
ItemsTask(c, d, s, its, inl, mr, g) ==
  [t |-> "items", c |-> c, dir |-> d, sub |-> s, items |-> its, inl |-> inl, mr |-> mr, cfgs |-> g]
MissTask == [t |-> "miss"]

Push(q) == stack' = q \o Tail(stack)
DoCrate ==
  LET k == Head(stack) c == k.c IN
  /\ k.t = "crate"
  /\ done' = done \cup {Crate(c).n}
  /\ Push((IF Crate(c).root = <<>> THEN <<>> ELSE <<FileTask(c, Crate(c).root, TRUE, k.cfgs)>>)
          \o [i \in 1..Len(Deps(c)) |-> DepTask(Deps(c)[i].c, Append(k.cfgs, CfgOfList(Deps(c)[i].cfg)))])
  /\ UNCHANGED <<job, pc, read, taken, status>>
DoDep ==
  LET k == Head(stack) IN
  /\ k.t = "dep"
  /\ Push(IF Follow(Crate(k.c).n) THEN <<CrateTask(k.c, k.cfgs)>> ELSE <<>>)
  /\ UNCHANGED <<job, pc, done, read, taken, status>>
DoFile ==
  LET k == Head(stack) IN
  /\ k.t = "file"
  /\ IF ~Exists(k.c, k.p) \/ ~FileAt(k.c, k.p).ok
     THEN /\ status' = "err" /\ stack' = <<>> /\ read' = read
     ELSE LET d == DirOf(k.p)
              mr == k.mr \/ Base(k.p) = "mod.rs"
              s == IF mr THEN d ELSE Append(d, Stem(Base(k.p)))
          IN /\ Push(<<ItemsTask(k.c, d, s, FileAt(k.c, k.p).items, FALSE, mr, k.cfgs)>>)
             /\ read' = read \cup {[c |-> k.c, p |-> Normal(k.p)]}
             /\ status' = status
  /\ UNCHANGED <<job, pc, done, taken>>
(* a module's file: the path attribute if there is one, else name.rs, else name/mod.rs *)
ModTask(k, m) ==
  LET g == Append(k.cfgs, CfgOfList(m.cfg)) IN
  IF m.inl THEN ItemsTask(k.c, Append(k.dir, m.n), Append(k.sub, m.n), m.items, TRUE, k.mr, g)
  ELSE IF m.path # <<>> THEN FileTask(k.c, (IF k.inl /\ ~k.mr THEN k.sub ELSE k.dir) \o m.path, TRUE, g)
  ELSE LET a == Append(k.sub, m.n \o ".rs") b == k.sub \o <<m.n, "mod.rs">> IN
       IF Exists(k.c, a) THEN FileTask(k.c, a, FALSE, g)
       ELSE IF Exists(k.c, b) THEN FileTask(k.c, b, FALSE, g)
       ELSE MissTask
DoItems ==
  LET k == Head(stack)
      keep == Filter(k.items, LAMBDA i : i.skip = "")
      here == Filter(keep, LAMBDA i : i.k # "mod" /\ (i.k = "struct" \/ TopLevel(k.c)))
      mods == Filter(keep, LAMBDA i : i.k = "mod")
  IN /\ k.t = "items"
     /\ taken' = taken \o [i \in 1..Len(here) |->
                    [k |-> here[i].k, n |-> here[i].n, uid |-> here[i].uid, uses |-> here[i].uses,
                     cfg |-> CfgAppend(CfgJoin(k.cfgs), CfgOfList(here[i].cfg))]]
     /\ Push([i \in 1..Len(mods) |-> ModTask(k, mods[i])])
     /\ UNCHANGED <<job, pc, done, read, status>>
DoMiss == /\ Head(stack).t = "miss" /\ Push(<<>>) /\ UNCHANGED <<job, pc, done, read, taken, status>>
Finish == /\ pc = "walk" /\ stack = <<>> /\ pc' = "done" /\ UNCHANGED <<job, stack, done, read, taken, status>>

Walk == /\ pc = "walk" /\ stack # <<>>
        /\ \/ DoCrate \/ DoDep \/ DoFile \/ DoItems \/ DoMiss
Next == Walk \/ Finish
Start(jobs) ==
  /\ job \in jobs
  /\ pc = "walk" /\ done = {} /\ read = {} /\ taken = <<>> /\ status = "ok"
  /\ stack = IF job.single THEN <<FileTask(job.binding, job.crates[job.binding].root, TRUE, <<>>)>>
             ELSE <<CrateTask(job.binding, <<>>)>>

(* ---- what the header must then contain --------------------------------------- *)
Insert(q, it) ==
  LET i == LastIdx(q, LAMBDA o : o.n = it.n) IN
  IF i = 0 THEN Append(q, it)
  ELSE IF it.cfg.k # "none" /\ q[i].cfg.k # "none" THEN SubSeq(q, 1, i) \o <<it>> \o SubSeq(q, i + 1, Len(q))
  ELSE q
OfKind(kk) == Filter(taken, LAMBDA i : i.k = kk)
Unique(kk) == FoldL(Insert, <<>>, OfKind(kk))
Fns == OfKind("fn")
Statics == Unique("static")
Consts == Unique("const")
Structs == Unique("struct")
RECURSIVE Reach(_)
Reach(S) ==
  LET T == S \cup UNION { UNION { Elems(Structs[i].uses) : i \in { j \in 1..Len(Structs) : Structs[j].n = s } } : s \in S } IN
  IF T = S THEN S ELSE Reach(T)
Needed == Reach(UNION { Elems(Fns[i].uses) : i \in 1..Len(Fns) })
Emitted == Filter(Structs, LAMBDA s : s.n \in Needed)

View(q) == [i \in 1..Len(q) |-> [n |-> q[i].n, uid |-> q[i].uid, cond |-> ToCond(job, q[i].cfg)]]
Same(e, o) == /\ Len(e) = Len(o)
              /\ \A i \in 1..Len(e) : e[i].n = o[i].n /\ e[i].uid = o[i].uid /\ CondEq(e[i].cond, o[i].cond)
BagSame(e, o) ==
  LET cnt(q, x) == Cardinality({ i \in 1..Len(q) : q[i].n = x.n /\ q[i].uid = x.uid /\ CondEq(q[i].cond, x.cond) }) IN
  Len(e) = Len(o) /\ \A i \in 1..Len(e) : cnt(e, e[i]) = cnt(o, e[i])
Diff(what, e, o, ok) == IF ok THEN <<>> ELSE <<[what |-> what, expected |-> e, observed |-> o]>>
Verdict ==
  LET o == job.obs IN
  IF "runs" \in DOMAIN job
  THEN IF \E i \in 2..Len(job.runs) : job.runs[i] # job.runs[1] THEN <<"runs of the same tree gave different output">> ELSE <<>>
  ELSE IF o.status # status THEN <<[status |-> status, observed |-> o.status, err |-> o.err]>>
  ELSE IF status = "err" THEN (IF o.wrote THEN <<"wrote a header although a source could not be read">> ELSE <<>>)
  ELSE Diff("functions", View(Fns), o.fns, Same(View(Fns), o.fns))
       \o Diff("statics", View(Statics), o.statics, Same(View(Statics), o.statics))
       \o Diff("constants", View(Consts), o.consts, Same(View(Consts), o.consts))
       \o Diff("structs", View(Emitted), o.structs, BagSame(View(Emitted), o.structs))
       \o Diff("source files", read, Elems(o.deps), read = Elems(o.deps))
Judge == /\ pc = "done" /\ pc' = "judged"
         /\ LET v == Verdict IN PrintT("@@" \o ToString(job.id) \o "@" \o ToString(v))
         /\ UNCHANGED <<job, stack, done, read, taken, status>>

TraceJobs == ndJsonDeserialize(IOEnv.VP_TRACE)
CInit == LET cs == TraceJobs IN Start({ cs[i] : i \in 1..Len(cs) })
CSpec == CInit /\ [][Next \/ Judge]_vars
===============================================================================
