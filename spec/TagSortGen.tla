----------------------------- MODULE TagSortGen -----------------------------
(* All tag sequences of a bounded length.                                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Init == x \in UNION {[1..n -> 1..Ask.tags] : n \in 0..Ask.max}
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
