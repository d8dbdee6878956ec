------------------------------ MODULE Tables ------------------------------
(* Lookup tables over sequences of records; TLC evaluates IndexById and     *)
(* Concat in linear time through tools/java/FltOverrides.java.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(s) == {s[i] : i \in DOMAIN s}
\* record with field id = i, for every id that occurs (the first one if several)
IndexById(s) ==
  [g \in {s[i].id : i \in DOMAIN s} |->
     s[CHOOSE i \in DOMAIN s : s[i].id = g /\ \A j \in DOMAIN s : s[j].id = g => i <= j]]
RECURSIVE Concat(_)
Concat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE SumInts(_)
SumInts(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + SumInts(Tail(s))
Distinct(s) == Cardinality(SeqSet(s)) = Len(s)
\* bags: element -> how often it occurs
Bag(s) == [x \in SeqSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
BagPlus(a, b) == [x \in DOMAIN a \cup DOMAIN b |->
  (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]
Only(b, S) == [x \in DOMAIN b \cap S |-> b[x]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
