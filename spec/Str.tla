-------------------------------- MODULE Str --------------------------------
(* String helpers used by every other module.  TLC gives strings Len, \o and  *)
(* SubSeq; everything else (character classes, order, case) is defined here.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

UpperAlphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerAlphabet == "abcdefghijklmnopqrstuvwxyz"
DigitAlphabet == "0123456789"

Ch(s, i) == SubSeq(s, i, i)
CharSet(s) == { Ch(s, i) : i \in 1..Len(s) }
Uppers == CharSet(UpperAlphabet)
Lowers == CharSet(LowerAlphabet)
Digits == CharSet(DigitAlphabet)

LowerFn == [c \in Uppers |-> Ch(LowerAlphabet, CHOOSE i \in 1..26 : Ch(UpperAlphabet, i) = c)]
UpperFn == [c \in Lowers |-> Ch(UpperAlphabet, CHOOSE i \in 1..26 : Ch(LowerAlphabet, i) = c)]
ToLowerC(c) == IF c \in Uppers THEN LowerFn[c] ELSE c
ToUpperC(c) == IF c \in Lowers THEN UpperFn[c] ELSE c
IsAlnum(c) == c \in Uppers \/ c \in Lowers \/ c \in Digits

RECURSIVE CatAll(_)
CatAll(q) == IF q = <<>> THEN "" ELSE Head(q) \o CatAll(Tail(q))

RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN ""
                ELSE IF Len(q) = 1 THEN q[1]
                ELSE q[1] \o sep \o Join(Tail(q), sep)

MapChars(s, F(_)) == CatAll([i \in 1..Len(s) |-> F(Ch(s, i))])
Lower(s) == MapChars(s, ToLowerC)
Upper(s) == MapChars(s, ToUpperC)

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE s \o Repeat(s, n - 1)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

RECURSIVE Replace(_, _, _)
Replace(s, a, b) == IF s = "" THEN "" ELSE IF StartsWith(s, a) THEN b \o Replace(Drop(s, Len(a)), a, b) ELSE Ch(s, 1) \o Replace(Drop(s, 1), a, b)

(* byte order of the characters that occur in identifiers and paths *)
OrderAlphabet == DigitAlphabet \o "<>" \o UpperAlphabet \o "_" \o LowerAlphabet
RankFn == [c \in CharSet(OrderAlphabet) |-> CHOOSE i \in 1..Len(OrderAlphabet) : Ch(OrderAlphabet, i) = c]
Rank(c) == RankFn[c]

RECURSIVE StrLt(_, _)
StrLt(a, b) ==
  IF b = "" THEN FALSE
  ELSE IF a = "" THEN TRUE
  ELSE LET x == Ch(a, 1) y == Ch(b, 1) IN
       IF x = y THEN StrLt(Drop(a, 1), Drop(b, 1)) ELSE Rank(x) < Rank(y)

(* stable sort by a strict order: position = number of predecessors *)
StableSort(q, Lt(_, _)) ==
  LET n == Len(q)
      Before(j, i) == Lt(q[j], q[i]) \/ (j < i /\ ~Lt(q[i], q[j]))
      Pos(i) == 1 + Cardinality({ j \in 1..n : j # i /\ Before(j, i) })
      pos == [i \in 1..n |-> Pos(i)]
  IN [p \in 1..n |-> q[CHOOSE i \in 1..n : pos[i] = p]]

RECURSIVE ConcatAll(_)
ConcatAll(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o ConcatAll(Tail(q))

MapSeq(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Elems(q) == { q[i] : i \in 1..Len(q) }
Filter(q, P(_)) == SelectSeq(q, P)
FoldL(Op(_, _), acc, q) == FoldLeft(Op, acc, q)
FirstIdx(q, P(_)) == LET S == { i \in 1..Len(q) : P(q[i]) } IN
                     IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
LastIdx(q, P(_)) == LET S == { i \in 1..Len(q) : P(q[i]) } IN
                     IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
=============================================================================
