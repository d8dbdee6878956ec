----------------------------- MODULE StreamsGen -----------------------------
(* All orders in which the threads of two ranks draw, up to a length.       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Orders == UNION {[1..n -> 0..(Ask.threads - 1)] : n \in 0..Ask.max}
Init == x \in [0..(Ask.ranks - 1) -> Orders]
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson([r \in 1..Ask.ranks |-> x[r - 1]])>>)
=============================================================================
