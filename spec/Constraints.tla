---------------------------- MODULE Constraints ----------------------------
(* Constraints between rigid bodies (Constraint/): a collector holds, on    *)
(* each rank, queues of blocks; a block says how a force of unit magnitude  *)
(* acts on the bodies I and J.  The unknown magnitudes are numbered rank by *)
(* rank, queue by queue, in the order of collection.  State: the bodies of  *)
(* each rank and the pool of blocks.                                        *)
(*   wrench of a unit magnitude on I:  (n_I, p_I x n_I); on J the same with *)
(*   n_J, p_J; a one-sided block acts on I only                             *)
EXTENDS Recorded, Geometry, Tables
VARIABLES n, pool
Scaled(S, v) == FMul(S, FAdd(1, FMaxAbs(v)))
Close(a, b) == VNear(a, b, Scaled("1e-10", b))
Rows(r) == Concat(pool[r])
Ranks == DOMAIN pool
AllRows == Concat([r \in Ranks |-> Rows(r)])
RowBase(r) == SumInts([q \in 1..(r - 1) |-> Len(Rows(q))])
N == SumInts(n)
On(g, p, nn) == [g |-> g, w |-> nn \o VCross(p, nn)]
Acts(b) == << On(b.I, b.pI, b.nI) >> \o IF b.one = 1 THEN <<>> ELSE << On(b.J, b.pJ, b.nJ) >>
Of(v, g) == SubSeq(v, 6 * g + 1, 6 * g + 6)          \* the six components of body g (0, 1, ...)
RelVel(b, v) == FSumSeq([k \in DOMAIN Acts(b) |-> VDot(Acts(b)[k].w, Of(v, Acts(b)[k].g))])
RowVel(v) == [k \in DOMAIN AllRows |-> RelVel(AllRows[k], v)]
\* force and torque on each body from magnitudes x, six numbers per body
Zero6 == <<0, 0, 0, 0, 0, 0>>
RECURSIVE Sum6(_)
Sum6(s) == IF s = <<>> THEN Zero6 ELSE VAdd(Head(s), Sum6(Tail(s)))
Parts(x) == Concat([k \in DOMAIN AllRows |-> [j \in DOMAIN Acts(AllRows[k]) |-> [g |-> Acts(AllRows[k])[j].g, w |-> VScale(x[k], Acts(AllRows[k])[j].w)]]])
Forces(x) ==
  LET P == Parts(x)
      body(g) == LET mine == SelectSeq(P, LAMBDA a : a.g = g) IN Sum6([k \in DOMAIN mine |-> mine[k].w])
  IN Concat([g \in 1..N |-> body(g - 1)])
Times(u, v) == [k \in DOMAIN u |-> FMul(u[k], v[k])]
Compliance(b) == IF b.bi = 1 /\ FLt(0, b.k) THEN FDiv(1, b.k) ELSE 0
Col(rows, F(_)) == [k \in DOMAIN rows |-> F(rows[k])]
PerRank(o, F(_)) == \A r \in Ranks : Len(o[r]) = Len(Rows(r)) /\ Close(o[r], Col(Rows(r), F))
PerBody(o) == \A r \in Ranks : Len(o[r]) = 6 * n[r]

Con(o) ==
  /\ n' = o.n /\ pool' = o.pool
  /\ Chk("local number of constraints", \A r \in DOMAIN o.pool : o.num[r] = Len(Concat(o.pool[r])))
\* the value in each column, entries of the same column add up
ColumnSums(c, v) == [x \in SeqSet(c) |-> FSumSeq([k \in 1..Cardinality({j \in DOMAIN c : c[j] = x}) |->
                        LET at == SelectSeq([j \in DOMAIN c |-> j], LAMBDA j : c[j] = x) IN v[at[k]]])]
RowOf(b) == LET a == Acts(b) IN
  ColumnSums(Concat([k \in DOMAIN a |-> [d \in 1..6 |-> 6 * a[k].g + d - 1]]), Concat([k \in DOMAIN a |-> a[k].w]))
SameRow(x, y) == DOMAIN x = DOMAIN y /\ \A c \in DOMAIN x : FNear(x[c], y[c], FMul("1e-12", FAdd(1, FAbs(y[c]))))
Build(o) ==
  /\ Chk("one row per constraint, in order", \A r \in Ranks : Len(o.rows[r]) = Len(Rows(r)) /\ \A k \in DOMAIN o.rows[r] : o.rows[r][k].row = RowBase(r) + k - 1)
  /\ Chk("unit wrenches on the two bodies", \A r \in Ranks : \A k \in DOMAIN o.rows[r] : SameRow(ColumnSums(o.rows[r][k].c, o.rows[r][k].v), RowOf(Rows(r)[k])))
  /\ Chk("gaps in row order", PerRank(o.d, LAMBDA b : b.d))
  /\ Chk("compliance in row order", PerRank(o.ik, Compliance))
  /\ Chk("bilateral flags in row order", PerRank(o.bi, LAMBDA b : b.bi))
  /\ Chk("guesses in row order", PerRank(o.g, LAMBDA b : b.g))
Trans(o) == Chk("relative velocity of each constraint", PerBody(o.v) /\ Close(Concat(o.out), RowVel(Concat(o.v))) /\ \A r \in Ranks : Len(o.out[r]) = Len(Rows(r)))
Force(o) == Chk("forces and torques on bodies", PerBody(o.out) /\ Close(Concat(o.out), Forces(Concat(o.x))))
Oper(o) ==
  LET x == Concat(o.x)  f == Forces(x)  v == Times(Concat(o.mob), f)
      y == VAdd(RowVel(v), Times(Col(AllRows, Compliance), x))
  IN /\ Chk("operator", Close(Concat(o.out), VAdd(VScale(o.a, y), VScale(o.b, Concat(o.y)))))
     /\ Chk("force of the operator", Close(Concat(o.f), f))
     /\ Chk("velocity of the operator", Close(Concat(o.v), v))
RECURSIVE Sum9(_)
Sum9(s) == IF s = <<>> THEN [k \in 1..9 |-> 0] ELSE VAdd(Head(s), Sum9(Tail(s)))
Stress(o) == \A r \in Ranks :
  LET of(kind) == LET c == SelectSeq(Rows(r), LAMBDA b : b.bi = kind /\ (o.side = 1 \/ b.one = 0)) IN Sum9([k \in DOMAIN c |-> c[k].s])
  IN Chk("stress sums", Close(o.uni[r], of(0)) /\ Close(o.bi[r], of(1)))
\* each block gets its magnitude, its stress is multiplied by it
After(res) == [r \in Ranks |-> [q \in DOMAIN pool[r] |-> [k \in DOMAIN pool[r][q] |-> [pool[r][q][k] EXCEPT !.g = res[r][q][k].g, !.s = res[r][q][k].s]]]]
SameShape(res) == \A r \in Ranks : Len(res[r]) = Len(pool[r]) /\ \A q \in DOMAIN pool[r] : Len(res[r][q]) = Len(pool[r][q])
StressOf(res) == \A r \in Ranks : \A q \in DOMAIN pool[r] : \A k \in DOMAIN pool[r][q] : Close(res[r][q][k].s, VScale(res[r][q][k].g, pool[r][q][k].s))
Magnitudes(res) == Concat([r \in Ranks |-> LET b == Concat(res[r]) IN [k \in DOMAIN b |-> b[k].g]])
Back(o) ==
  /\ Chk("same blocks", SameShape(o.res))
  /\ Chk("magnitudes go to their blocks", Close(Magnitudes(o.res), Concat(o.x)))
  /\ Chk("stress of the solved magnitude", StressOf(o.res))
  /\ pool' = After(o.res) /\ UNCHANGED n
\* the problem solved in a time step; a solve that got stuck reports its residual
Solve(o) ==
  LET g == Magnitudes(o.res)
      idx == DOMAIN AllRows
      mob == Concat(o.mob)
      only(kind) == [k \in idx |-> IF AllRows[k].bi = kind THEN g[k] ELSE 0]
      fb == Forces(only(1))  fu == Forces(only(0))
      grad == VAdd(VAdd(RowVel(Times(mob, VAdd(fu, fb))), [k \in idx |-> FMul(FDiv(Compliance(AllRows[k]), o.dt), g[k])]),
                   VAdd([k \in idx |-> FDiv(AllRows[k].d, o.dt)], RowVel(Concat(o.v))))
      res == [k \in idx |-> IF AllRows[k].bi = 0 /\ FLe(g[k], "1e-12") THEN FMin(grad[k], 0) ELSE grad[k]]
  IN /\ Chk("same blocks", SameShape(o.res))
     /\ Chk("unilateral forces push", VFinite(g) /\ \A k \in idx : AllRows[k].bi = 0 => FLe(0, g[k]))
     /\ Chk("reports a residual", FLt(o.log, "1e77"))
     /\ Chk("solved to the tolerance it reports", FLt(o.log, FMul("0.999", o.tol)) => FLe(VNorm(res), FAdd(o.tol, Scaled("1e-11", grad \o g))))
     /\ Chk("forces of the bilateral constraints", VNear(Concat(o.fb), fb, Scaled("1e-10", g)))
     /\ Chk("forces of the unilateral constraints", VNear(Concat(o.fu), fu, Scaled("1e-10", g)))
     /\ Chk("velocities of the bilateral constraints", VNear(Concat(o.vb), Times(mob, fb), Scaled("1e-10", g)))
     /\ Chk("velocities of the unilateral constraints", VNear(Concat(o.vu), Times(mob, fu), Scaled("1e-10", g)))
     /\ Chk("stress of the solved magnitude", StressOf(o.res))
     /\ pool' = After(o.res) /\ UNCHANGED n
Keep == UNCHANGED <<n, pool>>
Init == i = 1 /\ n = <<>> /\ pool = <<>>
Do(e) == CASE e.op = "con" -> Con(e)
           [] e.op = "build" -> Build(e) /\ Keep
           [] e.op = "trans" -> Trans(e) /\ Keep
           [] e.op = "force" -> Force(e) /\ Keep
           [] e.op = "oper" -> Oper(e) /\ Keep
           [] e.op = "stress" -> Stress(e) /\ Keep
           [] e.op = "back" -> Back(e)
           [] e.op = "solve" -> Solve(e)
Next == (More /\ Do(Log[i])) \/ (Over /\ Keep)
=============================================================================
