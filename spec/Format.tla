------------------------------- MODULE Format -------------------------------
(* Formatting options never change what is declared: Generate does not read   *)
(* them, so the header of every formatting must be its one output; and each   *)
(* option does what it says to the text.                                       *)
EXTENDS Conform

F == C.fmt
Eol == IF F.eol = "Native" THEN "LF" ELSE F.eol
Multi(b) == Len(b) > 1
Widest(b) == LET S == { Len(b[i]) : i \in 1..Len(b) } IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
HasCh(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
(* a comma in the middle of a line of a vertical argument list *)
MidComma(s) == \E i \in 1..Len(s) - 1 : Ch(s, i) = "," /\ Ch(s, i + 1) = " "
Argful(b) == \E i \in 1..Len(b.decl) : HasCh(b.decl[i], "(")
Simple(b) == Argful(b) /\ \A i \in 1..Len(b.h) : ~HasCh(b.h[i], "<") /\ ~HasCh(b.h[i], "#")
Skip(s) == LET t == CHOOSE i \in 1..(Len(s) + 1) : (i = Len(s) + 1 \/ Ch(s, i) # " ") /\ \A j \in 1..(i - 1) : Ch(s, j) = " " IN SubSeq(s, t, Len(s))
IsComment(s) == LET t == Skip(s) IN t = "" \/ Ch(t, 1) \in {"/", "*"} \/ (Len(t) >= 2 /\ SubSeq(t, Len(t) - 1, Len(t)) = "*/")
BlockOk(b) ==
  /\ b.same
  /\ (b.h = b.v => b.a = b.h)
  /\ (Widest(b.h) <= F.line_length => b.a = b.h)
  /\ (b.decl # <<>> /\ Widest(b.decl) > F.line_length => b.a = b.v)
  /\ (Simple(b) => \A i \in 1..Len(b.v) : IsComment(b.v[i]) \/ ~MidComma(b.v[i]) \/ b.v[i] \in { b.h[j] : j \in 1..Len(b.h) } \ { b.decl[j] : j \in 1..Len(b.decl) })
Bad == { i \in 1..Len(Obs.blocks) : ~BlockOk(Obs.blocks[i]) }
FormatDiff ==
  IF ~Obs.same_h \/ ~Obs.same_v THEN <<"argument layout changes the declarations">>
  ELSE IF ~Obs.aligned THEN <<"argument layout changes the sections">>
  ELSE IF \E i \in 1..Len(Obs.eols) : Obs.eols[i] # Eol THEN <<[line_endings |-> Obs.eols, configured |-> Eol]>>
  ELSE IF \E i \in 1..Len(Obs.indents) : Obs.indents[i].i # Obs.indents[i].d * F.tab_width \/ Obs.indents[i].t # "" THEN <<[indentation |-> Obs.indents, tab |-> F.tab_width]>>
  ELSE IF \E i \in 1..Len(Obs.br) : Obs.br[i] # F.braces THEN <<[braces |-> Obs.br, configured |-> F.braces]>>
  ELSE IF Bad # {} THEN LET i == CHOOSE i \in Bad : TRUE IN <<[layout |-> Obs.blocks[i], line_length |-> F.line_length]>>
  ELSE <<>>
FVerdict == LET v == Verdict IN IF v # <<>> \/ pc = "panic" \/ Obs.status # "ok" THEN v ELSE FormatDiff
FJudge == /\ pc \in {"done", "panic"}
          /\ pc' = "judged"
          /\ LET v == FVerdict IN PrintT("@@" \o ToString(job.id) \o "@" \o ToString(v))
          /\ UNCHANGED <<job, todo, lib, aux, out>>
FSpec == CInit /\ [][Next \/ FJudge]_gvars
==============================================================================
