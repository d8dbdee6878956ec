---------------------------- MODULE ExchangeGen ----------------------------
(* All exchanges of a bounded size: for each rank the sequence of           *)
(* destinations of the items it submits.                                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Ranks == 0..(Ask.ranks - 1)
Msgs == UNION {[1..n -> Ranks] : n \in 0..Ask.max}
Init == x \in [1..Ask.ranks -> Msgs]
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
