------------------------------- MODULE LCPGen -------------------------------
(* Every complementarity problem of up to two unknowns with a small integer *)
(* positive definite matrix, every right hand side in -2..2, starts at zero,*)
(* at one, outside, and at a mixed point.                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES x
Mats == {<<a, b, c>> \in (1..3) \X (-1..1) \X (1..3) : a * c > b * b}
Starts == {<<0, 0>>, <<1, 1>>, <<-3, 5>>, <<2, 0>>}
Init == x \in [a : {<<p>> : p \in 1..3}, b : {<<q>> : q \in -2..2}, s : {<<u>> : u \in {0, 1, -7, 2}}] \cup
              [a : Mats, b : (-2..2) \X (-2..2), s : Starts] \cup
              [a : {<<>>}, b : {<<>>}, s : {<<>>}]
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
