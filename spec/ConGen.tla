------------------------------- MODULE ConGen -------------------------------
(* Every set of up to two constraints between two bodies on two ranks: on   *)
(* which rank and in which queue each is collected, the pair, one- or       *)
(* two-sided, unilateral, rigid bilateral or spring.                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Block == [rank : 0..1, que : 0..1, pair : {<<0, 1>>, <<1, 0>>, <<1, 1>>}, one : {0, 1}, kind : 0..2]
Init == x \in [n : {<<2, 0>>, <<1, 1>>, <<0, 2>>}, b : UNION {[1..m -> Block] : m \in 0..Ask.max}]
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
