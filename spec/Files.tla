-------------------------------- MODULE Files --------------------------------
(* The files a run of cbindgen reads and writes, over histories of edits,      *)
(* runs, interrupted writes and tampering.                                     *)
(*                                                                             *)
(*   src   version of the source; "broken" does not parse                      *)
(*   cfg   version of the configuration                                        *)
(*   out   what the output file holds                                          *)
(*   dep   which sources and header the dependency file was last written for   *)
(*   sym   version the symbol file was last written for                        *)
(*   last  the observable outcome of the last action                           *)
(*   hist  the actions so far (bounded by MaxLen)                              *)
(*                                                                             *)
(* A header's text is the token <<"header", src, cfg>>; the replay driver      *)
(* (lib/files.py) computes its bytes by a run to standard output in a fresh    *)
(* directory.                                                                  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxLen, Mode
VARIABLES src, cfg, out, dep, sym, last, hist
vars == <<src, cfg, out, dep, sym, last, hist>>

Good == {"s1", "s2"}
Sources == Good \cup {"broken"}
Configs == {"c1", "c2"}
H(s, c) == <<"header", s, c>>
Nothing == [exit |-> 0, touched |-> FALSE, stdout |-> "none", ret |-> "none"]

Init == /\ src = "s1" /\ cfg = "c1" /\ out = <<"absent">> /\ dep = <<"absent">> /\ sym = <<"absent">>
        /\ last = Nothing /\ hist = <<>>

Record(a, o) == last' = o /\ hist' = Append(hist, [a |-> a, o |-> o, out |-> out', dep |-> dep', sym |-> sym'])

EditSrc(v) == v # src /\ src' = v /\ UNCHANGED <<cfg, out, dep, sym>> /\ Record(<<"src", v>>, Nothing)
EditCfg(v) == v # cfg /\ cfg' = v /\ UNCHANGED <<src, out, dep, sym>> /\ Record(<<"cfg", v>>, Nothing)
(* something else changes the output file: it is deleted, emptied, cut short   *)
(* (as by a crash in the middle of a write), extended, or replaced             *)
Tamper(k) ==
  LET cur == IF src = "broken" THEN H("s1", cfg) ELSE H(src, cfg)
      new == CASE k = "absent" -> <<"absent">> [] k = "empty" -> <<"empty">> [] k = "foreign" -> <<"foreign">>
               [] k = "prefix" -> <<"prefix">> \o Tail(cur) [] k = "longer" -> <<"longer">> \o Tail(cur)
               [] k = "space" -> <<"space">> \o Tail(cur) IN
  out # new /\ out' = new /\ UNCHANGED <<src, cfg, dep, sym>> /\ Record(<<"tamper">> \o new, Nothing)

Noop == Nothing
(* a run of the command line tool *)
RunCli(verify, extras) ==
  LET broken == src = "broken"
      new == H(src, cfg)
      changed == ~broken /\ out # new
      ok == ~broken /\ ~(verify /\ changed)
      o == [Nothing EXCEPT !.exit = IF broken THEN 1 ELSE IF ok THEN 0 ELSE 2, !.touched = changed]
  IN /\ out' = IF broken THEN out ELSE new
     /\ dep' = IF ok /\ extras THEN <<"dep", src>> ELSE dep
     /\ sym' = IF ok /\ extras THEN <<"sym", src, cfg>> ELSE sym
     /\ UNCHANGED <<src, cfg>>
     /\ Record(<<"cli", IF verify THEN "verify" ELSE "plain", IF extras THEN "extras" ELSE "bare">>, o)
(* to standard output: no file is touched, whatever else is asked for *)
RunStdout(verify, extras) ==
  LET broken == src = "broken"
      o == [Nothing EXCEPT !.exit = IF verify THEN 2 ELSE IF broken THEN 1 ELSE 0,
                           !.stdout = IF verify \/ broken THEN "none" ELSE "header"]
  IN /\ UNCHANGED <<src, cfg, out, dep, sym>>
     /\ Record(<<"stdout", IF verify THEN "verify" ELSE "plain", IF extras THEN "extras" ELSE "bare">>, o)
(* the library: write_to_file says whether it changed the file *)
RunApi ==
  LET broken == src = "broken"
      new == H(src, cfg)
      changed == ~broken /\ out # new
      o == [Nothing EXCEPT !.exit = IF broken THEN 1 ELSE 0, !.touched = changed,
                           !.ret = IF broken THEN "none" ELSE IF changed THEN "true" ELSE "false"]
  IN /\ out' = IF broken THEN out ELSE new
     /\ UNCHANGED <<src, cfg, dep, sym>>
     /\ Record(<<"api">>, o)
(* a nested run, started while an outer cbindgen expands the crate, writes nothing *)
RunNested(api) ==
  /\ UNCHANGED <<src, cfg, out, dep, sym>>
  /\ Record(<<"nested", IF api THEN "api" ELSE "cli">>, [Nothing EXCEPT !.ret = IF api THEN "false" ELSE "none"])

Tampers == {"absent", "empty", "foreign", "prefix", "longer", "space"}
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E v \in Sources : EditSrc(v)
     \/ \E v \in Configs : EditCfg(v)
     \/ \E k \in Tampers : Tamper(k)
     \/ \E v, e \in BOOLEAN : RunCli(v, e)
     \/ \E v, e \in BOOLEAN : RunStdout(v, e)
     \/ RunApi
     \/ \E a \in BOOLEAN : RunNested(a)
Spec == Init /\ [][Next]_vars

(* every complete history is printed for replay *)
Ends(a) == a[1] \in {"cli", "stdout", "api", "nested"}
Emit == (Len(hist) = MaxLen /\ Ends(hist[MaxLen].a)) => PrintT("@@" \o ToString(hist))

(* ---- properties of the model --------------------------------------------------- *)
LastA == IF hist = <<>> THEN <<"init">> ELSE hist[Len(hist)].a
(* after a successful run the output is the header of the current inputs *)
Fresh == LastA[1] \in {"cli", "api"} /\ last.exit = 0 => out = H(src, cfg)
(* a file is only rewritten when its contents change *)
NoNeedlessWrite == [][last'.touched => out' # out]_vars
UntouchedSame == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].a[1] # "tamper" /\ ~last'.touched) => out' = out]_vars
(* verification succeeds exactly when the output was already right *)
VerifyExact == [][(hist' # hist /\ hist'[Len(hist')].a[1] = "cli" /\ hist'[Len(hist')].a[2] = "verify")
                   => (last'.exit = 0 <=> (src # "broken" /\ out = H(src, cfg)))]_vars
(* a failing run leaves every file alone *)
FailSafe == [][(hist' # hist /\ last'.exit = 1) => (out' = out /\ dep' = dep /\ sym' = sym)]_vars
(* running twice is running once *)
Idempotent == (Len(hist) >= 2 /\ hist[Len(hist)].a[1] \in {"cli", "api"} /\ hist[Len(hist) - 1].a[1] \in {"cli", "api"}
               /\ hist[Len(hist) - 1].o.exit # 1) => ~last.touched
===============================================================================
