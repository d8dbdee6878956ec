-------------------------------- MODULE LCP --------------------------------
(* Linear complementarity problems (Collision/CPSolver): find x >= 0 with   *)
(* y = A x + b >= 0 and x.y = 0, A symmetric positive definite (given as a  *)
(* matrix, or as G diag(mob) G^T).  Three iterative solvers; each stops     *)
(* below the tolerance, at the iteration limit, or reports that it is stuck *)
(* (nonzero code).  The problem has one solution, which all of them find.   *)
EXTENDS Recorded, Geometry, Tables
VARIABLES solved
Columns(G, p) == [k \in 1..p |-> [j \in DOMAIN G |-> G[j][k]]]
Ax(o, x) ==
  IF o.op = "lcp" THEN [k \in DOMAIN x |-> VDot(o.A[k], x)]
  ELSE LET C == Columns(o.G, Len(o.mob))
           v == [k \in DOMAIN o.mob |-> FMul(o.mob[k], VDot(C[k], x))]
       IN [k \in DOMAIN x |-> VDot(o.G[k], v)]
Y(o, x) == VAdd(Ax(o, x), o.b)
MinMap(o, x) == LET y == Y(o, x) IN [k \in DOMAIN x |-> FMin(x[k], y[k])]
Residual(o, x) == VNorm(MinMap(o, x))
Off(o, k) == FSub(FSumSeq([j \in DOMAIN o.b |-> FAbs(o.A[k][j])]), o.A[k][k])
\* diagonally dominant matrices: bounds of the spectrum by rows
Dominant(o) == o.op = "lcp" /\ Len(o.b) > 0 /\ \A k \in DOMAIN o.b : FLe(FMul("1.5", Off(o, k)), o.A[k][k]) /\ FLt(0, o.A[k][k])
Lowest(o) == LET s == [k \in DOMAIN o.b |-> FSub(o.A[k][k], Off(o, k))] IN
             s[CHOOSE k \in DOMAIN s : \A j \in DOMAIN s : FLe(s[k], s[j])]
Highest(o) == FMaxAbs([k \in DOMAIN o.b |-> FAdd(o.A[k][k], Off(o, k))])
\* distance from the solution is at most this times the residual
Reach(o) == FDiv(FAdd(1, Highest(o)), Lowest(o))
Easy(o) == Dominant(o) /\ o.max >= 1000 /\ FLe("1e-6", o.tol) /\ \A k \in DOMAIN o.b : FLe("0.25", o.A[k][k]) /\ FLe(o.A[k][k], 4) /\ FLe(FMul(2, Off(o, k)), o.A[k][k]) /\ FLe(FAbs(o.b[k]), 10)
\* the solution of problems with one or two unknowns, by trying which of them are positive
Tiny(o) == o.op = "lcp" /\ Len(o.b) \in {1, 2} /\ Dominant(o)
Exact(o) ==
  LET A == o.A  b == o.b
      neg(q) == FLe(0, q) IN
  IF Len(b) = 1 THEN << FMax(0, FDiv(FNeg(b[1]), A[1][1])) >>
  ELSE LET det == FSub(FMul(A[1][1], A[2][2]), FMul(A[1][2], A[2][1]))
           both == << FDiv(FSub(FMul(A[1][2], b[2]), FMul(A[2][2], b[1])), det), FDiv(FSub(FMul(A[2][1], b[1]), FMul(A[1][1], b[2])), det) >>
           one == << FDiv(FNeg(b[1]), A[1][1]), 0 >>
           two == << 0, FDiv(FNeg(b[2]), A[2][2]) >>
           ok(x) == LET y == Y(o, x) IN \A k \in 1..2 : FLe("-1e-12", x[k]) /\ FLe("-1e-12", y[k])
       IN IF ok(<<0, 0>>) THEN <<0, 0>> ELSE IF ok(one) THEN one ELSE IF ok(two) THEN two ELSE both
Name == << "APGD: ", "BBPGD: ", "mmNewton: " >>
Done(o, s) == s.ret[1] = 0 /\ s.len[1] < o.max          \* the first record is that of the start
One(o, s) ==
  LET x == Concat(s.x)
      round == FMul("1e-12", FAdd(1, FMaxAbs(Y(o, x) \o o.b \o x)))
      C(n, c) == Chk(Name[s.m + 1] \o n, c)
  IN /\ C("each rank has its part", \A r \in DOMAIN s.x : Len(s.x[r]) = o.n[r])
     /\ C("every unknown is a number", VFinite(x))
     /\ C("no negative entry", \A k \in DOMAIN x : FLe(0, x[k]))
     /\ C("same outcome on all ranks", \A r \in DOMAIN s.ret : s.ret[r] = s.ret[1] /\ s.len[r] = s.len[1] /\ s.last[r] = s.last[1])
     /\ C("stops at the limit", s.len[1] <= o.max + 1)
     /\ C("stops below the tolerance", Done(o, s) => FLt(Residual(o, x), FAdd(FMul("1.000001", o.tol), round)))
     /\ C("recorded residual is that of the solution", Done(o, s) => FNear(s.last[1][2], Residual(o, x), FAdd(round, FMul("1e-6", Residual(o, x)))))
     /\ C("problem solved", Easy(o) /\ (s.m = 2 => Tiny(o)) => Done(o, s))
     /\ C("the solution", Tiny(o) /\ Done(o, s) => FLe(VNorm(VSub(x, Exact(o))), FMul(Reach(o), FAdd(o.tol, round))))
Agree(o) == Dominant(o) => \A a, b \in DOMAIN o.sols :
  Done(o, o.sols[a]) /\ Done(o, o.sols[b]) => FLe(VNorm(VSub(Concat(o.sols[a].x), Concat(o.sols[b].x))), FMul(FMul(2, Reach(o)), FAdd(o.tol, "1e-11")))
Solve(o) ==
  /\ \A k \in DOMAIN o.sols : One(o, o.sols[k])
  /\ Chk("solvers agree", Agree(o))
  /\ solved' = solved + 1
Init == i = 1 /\ solved = 0
Next == (More /\ Solve(Log[i])) \/ (Over /\ UNCHANGED solved)
=============================================================================
