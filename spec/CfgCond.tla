------------------------------ MODULE CfgCond ------------------------------
(* #[cfg] predicates, their mapping to preprocessor conditions, and semantic   *)
(* (truth-table) equivalence of conditions.                                    *)
(*   cfg : [k:"none"] | [k:"flag",n] | [k:"kv",n,v] | [k:"not",a] | [k:"any",as] | [k:"all",as]   *)
(*   cond: [k:"true"] | [k:"def",n] | [k:"not",a] | [k:"or",as] | [k:"and",as]                    *)
EXTENDS Str

NoCfg == [k |-> "none"]
CTrue == [k |-> "true"]

(* several cfg attributes on one item: all of them *)
CfgOfList(l) == IF l = <<>> THEN NoCfg ELSE IF Len(l) = 1 THEN l[1] ELSE [k |-> "all", as |-> l]
CfgAppend(p, c) == IF p.k = "none" THEN c ELSE IF c.k = "none" THEN p ELSE [k |-> "all", as |-> <<p, c>>]
RECURSIVE CfgJoin(_)
CfgJoin(l) == LET q == SelectSeq(l, LAMBDA c : c.k # "none") IN CfgOfList(q)

DefineKey(c) == IF c.k = "flag" THEN c.n ELSE c.n \o " = " \o c.v

(* unmapped atoms disappear from the conjunction / disjunction they are in *)
RECURSIVE ToCond(_, _)
ToCond(cfg, c) ==
  CASE c.k = "none" -> CTrue
    [] c.k \in {"flag", "kv"} ->
         LET i == FirstIdx(cfg.defines, LAMBDA d : d.k = DefineKey(c)) IN
         IF i = 0 THEN CTrue ELSE [k |-> "def", n |-> cfg.defines[i].v]
    [] c.k = "not" -> LET a == ToCond(cfg, c.a) IN IF a = CTrue THEN CTrue ELSE [k |-> "not", a |-> a]
    [] c.k = "any" -> LET as == SelectSeq([i \in 1..Len(c.as) |-> ToCond(cfg, c.as[i])], LAMBDA a : a # CTrue) IN
                      IF as = <<>> THEN CTrue ELSE IF Len(as) = 1 THEN as[1] ELSE [k |-> "or", as |-> as]
    [] c.k = "all" -> LET as == SelectSeq([i \in 1..Len(c.as) |-> ToCond(cfg, c.as[i])], LAMBDA a : a # CTrue) IN
                      IF as = <<>> THEN CTrue ELSE IF Len(as) = 1 THEN as[1] ELSE [k |-> "and", as |-> as]

CondAnd(a, b) == IF a = CTrue THEN b ELSE IF b = CTrue THEN a ELSE [k |-> "and", as |-> <<a, b>>]

RECURSIVE CondAtoms(_)
CondAtoms(c) == CASE c.k = "true" -> {}
                  [] c.k = "def" -> {c.n}
                  [] c.k = "not" -> CondAtoms(c.a)
                  [] OTHER -> UNION { CondAtoms(c.as[i]) : i \in 1..Len(c.as) }
RECURSIVE CondEval(_, _)
CondEval(c, on) == CASE c.k = "true" -> TRUE
                     [] c.k = "def" -> c.n \in on
                     [] c.k = "not" -> ~CondEval(c.a, on)
                     [] c.k = "or" -> \E i \in 1..Len(c.as) : CondEval(c.as[i], on)
                     [] OTHER -> \A i \in 1..Len(c.as) : CondEval(c.as[i], on)
CondEq(a, b) == \/ a = b
                \/ \A on \in SUBSET (CondAtoms(a) \cup CondAtoms(b)) : CondEval(a, on) <=> CondEval(b, on)

(* the cfg predicate itself, over a set of active keys (Rust's semantics) *)
RECURSIVE CfgEval(_, _)
CfgEval(c, on) == CASE c.k = "none" -> TRUE
                    [] c.k \in {"flag", "kv"} -> DefineKey(c) \in on
                    [] c.k = "not" -> ~CfgEval(c.a, on)
                    [] c.k = "any" -> \E i \in 1..Len(c.as) : CfgEval(c.as[i], on)
                    [] OTHER -> \A i \in 1..Len(c.as) : CfgEval(c.as[i], on)
=============================================================================
