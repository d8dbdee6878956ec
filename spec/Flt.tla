-------------------------------- MODULE Flt --------------------------------
(* Real numbers for specifications that talk about geometry and mechanics.  *)
(* The definitions below give the meaning over the reals; TLC evaluates     *)
(* them with IEEE doubles through tools/java/FltOverrides.java (a TLC       *)
(* module override).  A number is an integer or a decimal string as written *)
(* in a trace ("0.25", "nan", "inf").  Comparisons with nan are FALSE, so a *)
(* trace holding a nan where a number is required is rejected.  All uses    *)
(* compare with an explicit tolerance that is far above double rounding.    *)
EXTENDS Reals, Sequences

FAdd(a, b) == a + b
FSub(a, b) == a - b
FMul(a, b) == a * b
FDiv(a, b) == a / b
FNeg(a)    == 0 - a
FLe(a, b)  == a <= b
FLt(a, b)  == a < b
FEq(a, b)  == a = b
FAbs(a)    == IF a < 0 THEN 0 - a ELSE a
FMin(a, b) == IF a <= b THEN a ELSE b
FMax(a, b) == IF a <= b THEN b ELSE a
FSqrt(a)   == CHOOSE r \in Real : r >= 0 /\ r * r = a
FSin(a)    == CHOOSE r \in Real : TRUE   \* sine
FCos(a)    == CHOOSE r \in Real : TRUE   \* cosine
FLn(a)     == CHOOSE r \in Real : TRUE   \* natural logarithm
FF32(a)    == CHOOSE r \in Real : TRUE   \* a rounded to single precision
FFinite(a) == a \in Real
FNear(a, b, tol) == FAbs(a - b) <= tol
FFloor(a)  == CHOOSE n \in Int : n <= a /\ a < n + 1
FRound(a)  == CHOOSE n \in Int : 2 * FAbs(a - n) <= 1

RECURSIVE FSumSeq(_), FMaxAbs(_)
FSumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + FSumSeq(Tail(s))
FMaxAbs(s) == IF s = <<>> THEN 0 ELSE FMax(FAbs(Head(s)), FMaxAbs(Tail(s)))

\* vectors are sequences of numbers
VAdd(u, v)   == [i \in 1..Len(u) |-> u[i] + v[i]]
VSub(u, v)   == [i \in 1..Len(u) |-> u[i] - v[i]]
VScale(s, u) == [i \in 1..Len(u) |-> s * u[i]]
VDot(u, v)   == FSumSeq([i \in 1..Len(u) |-> u[i] * v[i]])
VNorm(u)     == FSqrt(VDot(u, u))
VCross(u, v) == << u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1] >>
VNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FNear(u[i], v[i], tol)
VFinite(u)   == \A i \in 1..Len(u) : FFinite(u[i])
=============================================================================
