---------------------------- MODULE DirectoryGen ----------------------------
(* All short lives of a directory: rounds of publishing (each id by one     *)
(* rank or by nobody, with the data of that round) and asking.  Ids nobody  *)
(* publishes may be asked for.                                              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Ids == 1..Ask.ids
Owner == 0..Ask.ranks              \* Ask.ranks: nobody
Lists == UNION {[1..n -> Ids] : n \in 0..Ask.max}
Round == [own : [Ids -> Owner], ask : [1..Ask.ranks -> Lists]]
Init == x \in [1..Ask.rounds -> Round]
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
