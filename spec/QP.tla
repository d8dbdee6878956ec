--------------------------------- MODULE QP ---------------------------------
(* Bounded quadratic problems: minimise x.Ax/2 + b.x with lb <= x <= ub,    *)
(* A symmetric positive semidefinite (Constraint/BCQPSolver).  An iterative *)
(* solver starts at x0, records the residual of each iterate, and stops     *)
(* when it is below the tolerance, when it can make no progress, or at the  *)
(* iteration limit.                                                         *)
EXTENDS Recorded, Geometry, Tables
VARIABLES solved
Gradient(o, x) == [k \in DOMAIN x |-> FAdd(o.b[k], VDot(o.A[k], x))]
Eps == "2.220446049250313e-14"     \* as close as this to a bound is on the bound
\* what is left to gain: the gradient where the unknown is free to move
Projected(o, x) ==
  LET g == Gradient(o, x) IN
  [k \in DOMAIN x |-> IF FLt(x[k], FAdd(o.lb[k], Eps)) THEN FMin(g[k], 0)
                      ELSE IF FLt(FSub(o.ub[k], Eps), x[k]) THEN FMax(g[k], 0) ELSE g[k]]
Fixed(o) == \E k \in DOMAIN o.b : FLe(FSub(o.ub[k], o.lb[k]), Eps)
\* strongly diagonally dominant, of order one, with room for many iterations: these are always solved
Easy(o) ==
  /\ o.max >= 1000 /\ FLe("1e-6", o.tol) /\ ~Fixed(o)
  /\ \A k \in DOMAIN o.b :
       LET off == FSub(FSumSeq([j \in DOMAIN o.b |-> FAbs(o.A[k][j])]), o.A[k][k]) IN
       FLe("0.25", o.A[k][k]) /\ FLe(o.A[k][k], 4) /\ FLe(FMul(2, off), o.A[k][k]) /\ FLe(FAbs(o.b[k]), 10)
Last(s) == s[Len(s)]
Solve(o) ==
  LET x == Concat(o.x)
      H == o.hist[1]
      steps == o.len[1] - 1
      res == VNorm(Projected(o, x))
      round == FMul("1e-12", FAdd(1, FMaxAbs(Gradient(o, x) \o o.b \o x)))
      best == IF o.method = 1 THEN CHOOSE k \in DOMAIN H : \A j \in DOMAIN H : FLe(H[k].res, H[j].res) ELSE Len(H)
  IN /\ Chk("each rank has its part", \A r \in DOMAIN o.x : Len(o.x[r]) = o.n[r])
     /\ Chk("every unknown is a number", VFinite(x))
     /\ Chk("within the bounds", \A k \in DOMAIN x : FLe(o.lb[k], x[k]) /\ FLe(x[k], o.ub[k]))
     /\ Chk("same outcome on all ranks", \A r \in DOMAIN o.ret : o.ret[r] = o.ret[1] /\ o.len[r] = o.len[1] /\ o.ret[r] \in {0, 1})
     /\ Chk("stops at the limit", steps >= 0 /\ steps <= o.max /\ Last(H).at = steps)
     /\ Chk("iterates are numbered", \A k \in DOMAIN H : FEq(H[k].ite, H[k].at))
     /\ Chk("stops below the tolerance", (o.ret[1] = 0 /\ steps < o.max) => FLt(res, FAdd(FMul("1.000001", o.tol), round)))
     /\ Chk("recorded residual is that of the solution", Len(H) < 40 /\ ~Fixed(o) /\ o.ret[1] = 0 => FNear(H[best].res, res, FAdd(round, FMul("1e-6", res))))
     /\ Chk("problem solved", Easy(o) => (o.ret[1] = 0 /\ FLt(res, FAdd(FMul("1.000001", o.tol), round))))
     /\ solved' = solved + 1
Init == i = 1 /\ solved = 0
Next == (More /\ Solve(Log[i])) \/ (Over /\ UNCHANGED solved)
=============================================================================
