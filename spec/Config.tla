------------------------------- MODULE Config -------------------------------
(* How a configuration comes about.  A user edits a configuration file, has    *)
(* it loaded by one of the routes into cbindgen, and adjusts it with builder   *)
(* calls or command line flags:                                                *)
(*   lib    Builder::new(), with_config(Config::from_file(..)), with_..(..)    *)
(*   gen    cbindgen::generate (the file is found in the crate's directory)    *)
(*   genc   cbindgen::generate_with_config                                     *)
(*   root   command line; the file is found beside the input                   *)
(*   dashc  command line with --config                                         *)
(* Whatever the route, the header must be that of the effective configuration  *)
(* eff written out in full; and a value or key nobody documented is an error.  *)
EXTENDS Options

CONSTANTS Routes, Bases, MaxEntries, MaxCalls, MaxFlags, MaxLoads, UseCrate, WithBad
VARIABLES route, base, file, eff, err, phase, n, hist
vars == <<route, base, file, eff, err, phase, n, hist>>

Opts == LET s == FileOptions \o CrateOptions IN SelectSeq(s, LAMBDA o : UseCrate = o.crate \/ o.key = "language" \/ (UseCrate /\ o.key = "sort_by"))
Cli == route \in {"root", "dashc"}

(* ---- the file ------------------------------------------------------------ *)
InFile(k) == \E i \in 1..Len(file) : file[i].key = k
Entry(o, s, v) == [key |-> o.key, kind |-> o.kind, s |-> s, v |-> v, ok |-> TRUE]
BadEntry(o, raw) == [key |-> o.key, kind |-> "raw", s |-> <<raw>>, v |-> <<>>, ok |-> FALSE]
Load(f) == [k \in Keys |-> IF \E i \in 1..Len(f) : f[i].key = k THEN f[CHOOSE i \in 1..Len(f) : f[i].key = k].v ELSE Defaults[k]]
FileOk == \A i \in 1..Len(file) : file[i].ok
(* the old way of writing parse.expand: a list of crates, which asks for all features *)
Legacy == \E i \in 1..Len(file) : file[i].key = "parse.expand"
LegacyEntry(cs) == [key |-> "parse.expand", kind |-> "list", s |-> cs, v |-> cs, ok |-> TRUE]
LoadLegacy(f) == LET g == Load(f) IN
  IF ~Legacy THEN g ELSE LET e == f[CHOOSE i \in 1..Len(f) : f[i].key = "parse.expand"] IN
  [g EXCEPT !["parse.expand.crates"] = e.v, !["parse.expand.all_features"] = <<"true">>]
IsExpand(k) == k \in {"parse.expand", "parse.expand.crates", "parse.expand.all_features", "parse.expand.default_features", "parse.expand.features", "parse.expand.profile", "parse.expand.colour"}
(* `expand` is written either as a list or as a table *)
Fits(k) == ~InFile(k) /\ (IsExpand(k) => IF k = "parse.expand" THEN \A i \in 1..Len(file) : ~IsExpand(file[i].key) ELSE ~InFile("parse.expand"))

Step(x) == hist' = Append(hist, x)
Edit(e) == /\ phase = "edit" /\ n.e < MaxEntries /\ Fits(e.key) /\ ~(base # "" /\ e.key = "language")
           /\ file' = Append(file, e) /\ n' = [n EXCEPT !.e = @ + 1]
           /\ Step([a |-> "entry", key |-> e.key, kind |-> e.kind, s |-> e.s])
           /\ UNCHANGED <<route, base, eff, err, phase>>
EditGood == \E i \in 1..Len(Opts) : \E f \in Opts[i].forms : Edit(Entry(Opts[i], f.s, f.v))
EditLegacy == UseCrate /\ \E cs \in {<<"main">>, <<"da">>, <<"main", "da">>, <<>>} : Edit(LegacyEntry(cs))
EditBad == /\ WithBad /\ FileOk
           /\ \/ \E i \in 1..Len(Opts) : \E b \in Opts[i].bad : Edit(BadEntry(Opts[i], b))
              \/ \E i \in 1..Len(Unknowns) : \E b \in Unknowns[i].bad : Edit(BadEntry(Unknowns[i], b))

(* ---- loading it: everything said before is replaced ------------------------ *)
Read == /\ phase = "edit" /\ n.l < MaxLoads
        /\ n' = [n EXCEPT !.l = @ + 1]
        /\ eff' = IF FileOk THEN LoadLegacy(file) ELSE eff
        /\ err' = (err \/ ~FileOk)
        /\ phase' = IF route = "lib" THEN "edit" ELSE "flags"
        /\ file' = IF route = "lib" THEN <<>> ELSE file
        /\ Step([a |-> "load"])
        /\ UNCHANGED <<route, base>>

(* ---- builder calls --------------------------------------------------------- *)
Put(m, k, v) == IF \E i \in 1..Len(m) : m[i][1] = k THEN [i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]] ELSE Append(m, <<k, v>>)
Call(m, args, k, v) == /\ route = "lib" /\ n.c < MaxCalls /\ ~err
                       /\ n' = [n EXCEPT !.c = @ + 1]
                       /\ eff' = [eff EXCEPT ![k] = v]
                       /\ Step([a |-> "call", m |-> m, s |-> args])
                       /\ UNCHANGED <<route, base, file, err, phase>>
Defines == {<<"target_os", "linux">>, <<"feature", "fa">>}
CallOpt(o) ==
  \/ o.op = "set" /\ \E v \in { f.v : f \in o.forms } : Call(o.m, IF o.kind = "olist" THEN v[1] ELSE v, o.key, v)
  \/ o.op = "true" /\ Call(o.m, <<>>, o.key, <<"true">>)
  \/ o.op = "push" /\ \E f \in o.forms : Call(o.m, <<f.v[1]>>, o.key, Append(eff[o.key], f.v[1]))
  \/ o.key = "export.rename" /\ \E p \in {<<"Point", "Renamed">>, <<"Shape", "Figure">>, <<"Point", "P3">>} : Call(o.m, p, o.key, Put(eff[o.key], p[1], p[2]))
  \/ o.key = "defines" /\ \E d \in Defines : \E x \in {"DEF_A", "DEF_B"} : Call("with_define", d \o <<x>>, o.key, Put(eff[o.key], d[1] \o " = " \o d[2], x))
  \/ o.key = "defines" /\ \E x \in {"DEF_A", "DEF_C"} : Call("with_target_os_define", <<"linux", x>>, o.key, Put(eff[o.key], "target_os = linux", x))
Build == \E i \in 1..Len(Opts) : Opts[i].m # "" /\ CallOpt(Opts[i])

(* ---- command line flags ------------------------------------------------------ *)
Used(f) == \E i \in 1..Len(hist) : IF hist[i].a = "flag" THEN hist[i].f = f \/ {hist[i].f, f} \in {{"--lang", "-l"}, {"--style", "-s"}, {"-d", "--parse-dependencies"}} ELSE FALSE
Flag(f, args, k, v, ok) ==
  /\ phase = "flags" /\ Cli /\ n.f < MaxFlags /\ ~Used(f)
  /\ n' = [n EXCEPT !.f = @ + 1]
  /\ eff' = IF ok THEN [eff EXCEPT ![k] = v] ELSE eff
  /\ err' = (err \/ ~ok)
  /\ Step([a |-> "flag", f |-> f, s |-> args])
  /\ UNCHANGED <<route, base, file, phase>>
FlagLanguages == Sp("C", {"c", "C"}) \cup Sp("C++", {"c++", "C++"}) \cup Sp("Cython", {"cython", "Cython"})
Flags ==
  \/ \E p \in FlagLanguages : \E f \in {"--lang", "-l"} : Flag(f, <<p[1]>>, "language", <<p[2]>>, TRUE)
  \/ ~UseCrate /\ \E p \in Styles : \E f \in {"--style", "-s"} : Flag(f, <<p[1]>>, "style", <<p[2]>>, TRUE)
  \/ ~UseCrate /\ Flag("--cpp-compat", <<>>, "cpp_compat", <<"true">>, TRUE)
  \/ UseCrate /\ Flag("--package-version", <<>>, "package_version", <<"true">>, TRUE)
  \/ UseCrate /\ Flag("--only-target-dependencies", <<>>, "only_target_dependencies", <<"true">>, TRUE)
  \/ UseCrate /\ Flag("--clean", <<>>, "parse.clean", <<"true">>, TRUE)
  \/ UseCrate /\ \E f \in {"-d", "--parse-dependencies"} : Flag(f, <<>>, "parse.parse_deps", <<"true">>, TRUE)
  \/ UseCrate /\ \E p \in Profiles : Flag("--profile", <<p[1]>>, "parse.expand.profile", <<p[2]>>, TRUE)
  \/ WithBad /\ \E x \in {<<"--lang", "java">>, <<"--lang", "">>, <<"--style", "BOTH">>, <<"--profile", "check">>} : Flag(x[1], <<x[2]>>, "language", <<>>, FALSE)
  \/ WithBad /\ Flag("--no-such-flag", <<>>, "language", <<>>, FALSE)

Finish == /\ phase # "done"
          /\ (route = "lib" => file = <<>>) /\ (route # "lib" => phase = "flags")
          /\ phase' = "done" /\ UNCHANGED <<route, base, file, eff, err, n, hist>>

BaseFile(b) == IF b = "" THEN <<>> ELSE <<[key |-> "language", kind |-> "enum", s |-> <<b>>, v |-> <<b>>, ok |-> TRUE]>>
Init == /\ route \in Routes /\ base \in Bases
        /\ file = BaseFile(base) /\ eff = Defaults /\ err = FALSE /\ phase = "edit" /\ n = [e |-> 0, c |-> 0, f |-> 0, l |-> 0]
        /\ hist = IF base = "" THEN <<>> ELSE <<[a |-> "entry", key |-> "language", kind |-> "enum", s |-> <<base>>]>>
Next == EditGood \/ EditLegacy \/ EditBad \/ Read \/ Build \/ Flags \/ Finish
Spec == Init /\ [][Next]_vars

(* the command line of the macro expansion of crate c *)
On(k) == eff[k] = <<"true">>
Join(s) == LET RECURSIVE j(_) j(i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN " " ELSE "") \o s[i] \o j(i + 1) IN j(1)
ExpandArgs(c) ==
  <<"rustc", "--lib">> \o (IF eff["parse.expand.profile"] = <<"release">> THEN <<>> ELSE <<"--profile=check">>)
  \o (IF eff["parse.expand.features"] = <<>> THEN <<>> ELSE <<"--features=" \o Join(eff["parse.expand.features"][1])>>)
  \o (IF On("parse.expand.all_features") THEN <<"--all-features">> ELSE <<>>)
  \o (IF On("parse.expand.default_features") THEN <<>> ELSE <<"--no-default-features">>)
  \o (IF eff["parse.expand.profile"] = <<"release">> THEN <<"--release">> ELSE <<>>)
  \o <<"-p", c>>
In(x, s) == \E i \in 1..Len(s) : s[i] = x
(* da is a dependency of main, db one for another platform only, dx a dependency of da *)
Allowed(c) == In(c, eff["parse.expand.crates"]) \/ (~In(c, eff["parse.exclude"]) /\ (eff["parse.include"] = <<>> \/ In(c, eff["parse.include"][1])))
Reads == IF ~On("parse.parse_deps") THEN <<"main">>
         ELSE <<"main">> \o (IF Allowed("da") THEN <<"da">> \o (IF Allowed("dx") THEN <<"dx">> ELSE <<>>) ELSE <<>>)
              \o (IF Allowed("db") /\ ~On("only_target_dependencies") THEN <<"db">> ELSE <<>>)
Expands == SelectSeq(Reads, LAMBDA c : In(c, eff["parse.expand.crates"]))
Bound == SelectSeq(Reads, LAMBDA c : c = "main" \/ In(c, eff["parse.extra_bindings"]))
CrateView == IF ~UseCrate THEN <<>> ELSE
  <<[reads |-> Reads, bound |-> Bound, clean |-> On("parse.clean"), version |-> On("package_version"),
     expands |-> [i \in 1..Len(Expands) |-> [c |-> Expands[i], args |-> ExpandArgs(Expands[i])]]]>>
Changed == { k \in Keys : eff[k] # Defaults[k] }
RECURSIVE Diffs(_)
Diffs(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<[k |-> k, v |-> eff[k]]>> \o Diffs(S \ {k})
Emit == phase = "done" => PrintT("@@" \o ToString([route |-> route, hist |-> hist, err |-> err, eff |-> Diffs(Changed), crate |-> CrateView]))
Table == LET RECURSIVE t(_) t(i) == IF i > Len(AllOptions) THEN <<>> ELSE <<[k |-> AllOptions[i].key, kind |-> AllOptions[i].kind, def |-> AllOptions[i].def]>> \o t(i + 1) IN t(1)
ASSUME PrintT("@T" \o ToString(Table))

(* ---- model-level properties --------------------------------------------------- *)
(* an option nobody touched keeps its default; loading a file forgets what was said before *)
Untouched == phase = "done" => \A k \in Changed : \E i \in 1..Len(hist) : hist[i].a \in {"entry", "call", "flag"}
LoadForgets == [][(n'.l > n.l /\ FileOk) => eff' = LoadLegacy(file)]_vars
ErrSticks == [][err => err']_vars
FlagsWin == phase = "done" /\ ~err => \A i \in 1..Len(hist) : (IF hist[i].a = "flag" THEN hist[i].f = "--cpp-compat" ELSE FALSE) => eff["cpp_compat"] = <<"true">>
==============================================================================
