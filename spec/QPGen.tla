-------------------------------- MODULE QPGen -------------------------------
(* Every bounded quadratic problem of up to two unknowns with a small       *)
(* integer positive semidefinite matrix, every linear term in {-1,0,1},     *)
(* bounds per unknown, start inside, on or outside the bounds, and method.  *)
(* Kinds of bounds: 1 [0,1], 2 [-1,2], 3 [0,inf), 4 none.  Singular         *)
(* problems get finite bounds, so that all of them have a solution.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Bounded(d) == IF d > 0 THEN 1..4 ELSE 1..2
One == UNION {[a : {<<p>>}, b : {<<q>> : q \in -1..1}, bd : {<<k>> : k \in Bounded(p)}, s : {<<u>> : u \in {0, 1, -7}}, m : {0, 1}] : p \in 0..2}
Mats == {<<a, b, c>> \in (0..2) \X (-1..1) \X (0..3) : a * c >= b * b}
Two == UNION {[a : {A}, b : (-1..1) \X (-1..1), bd : Bounded(A[1] * A[3] - A[2] * A[2]) \X Bounded(A[1] * A[3] - A[2] * A[2]),
               s : {<<0, 0>>, <<1, 1>>, <<-5, 7>>}, m : {0, 1}] : A \in Mats}
Init == x \in One \/ x \in Two
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
