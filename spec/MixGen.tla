------------------------------- MODULE MixGen -------------------------------
(* Every arrangement of one target and up to two sources on a line through  *)
(* the box, each on any rank, with small and large search radii; the line's *)
(* axis periodic or not.                                                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Pt == [rank : 0..(Ask.ranks - 1), at : 1..Ask.places, r : 1..2]
Init == x \in [per : {0, 1}, trg : Pt, src : UNION {[1..n -> Pt] : n \in 0..Ask.max}]
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
