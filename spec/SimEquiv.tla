------------------------------ MODULE SimEquiv ------------------------------
(* The same scenario run several times: with other numbers of ranks and     *)
(* threads (no thermal noise), or again with the same numbers and seed      *)
(* (with noise).  A run is abstracted to what it is about, the table of     *)
(* particles by id, forgetting which rank holds a particle, its place there *)
(* and its index; the runs must go through the same sequence of tables, up  *)
(* to rounding and the solver's tolerance.  Each event holds the observed   *)
(* states of all runs after the same call (e.runs).                         *)
(* The first line of the trace is the configuration.                        *)
EXTENDS Recorded, Geometry, Tables
VARIABLES moved,     \* steps taken since the runs started
          settled,   \* FALSE once a run had a solve that missed its tolerance, or a contact that is not well conditioned
          table      \* what all runs hold: set of ids
Cfg == Log[1]
Box == VSub(Cfg.hi, Cfg.lo)
T(e, k) == IndexById(e.runs[k].st)
Pairs(e) == {k \in DOMAIN e.runs : k > 1}
SameBody(p, q) == p.grp = q.grp /\ p.imm = q.imm /\ FEq(p.r, q.r) /\ FEq(p.l, q.l) /\ FEq(p.rc, q.rc) /\ FEq(p.lc, q.lc)
\* how far runs may have come apart after n steps, relative to the size of the motion in a step
Grow == << "1e-9", "1e-5", "1e-4", "1e-3", "3e-3", "1e-2" >>
Reach(n) == Grow[IF n < 6 THEN n + 1 ELSE 6]
Size(e) == FMaxAbs(Concat([j \in DOMAIN e.runs[1].st |-> IF "v" \in DOMAIN e.runs[1].st[j] THEN e.runs[1].st[j].v \o e.runs[1].st[j].w ELSE <<0>>]) \o <<1>>)
SamePlace(p, q, t) ==
  /\ VNear(MinImage(VSub(p.p, q.p), Cfg.pbc, Box), <<0, 0, 0>>, t)
  /\ VNear(Axis(p.q), Axis(q.q), FMul(10, t)) /\ VNear(AxisX(p.q), AxisX(q.q), FMul(10, t))
SameMotion(p, q, t) ==
  \A f \in {"v", "w", "vN", "wN", "vR", "wR"} : VNear(p[f], q[f], IF f \in {"v", "w"} THEN t ELSE FMul("0.1", t))
Agree(e, n) ==
  \A k \in Pairs(e) :
    LET A == T(e, 1)
        B == T(e, k)
    IN /\ Chk("same particles", DOMAIN A = DOMAIN B /\ Len(e.runs[1].st) = Len(e.runs[k].st))
       /\ Chk("same bodies", \A g \in DOMAIN A : SameBody(A[g], B[g]))
       /\ settled' => Chk("same places", \A g \in DOMAIN A : SamePlace(A[g], B[g], FMul(Reach(n), FAdd("0.01", FMul(Cfg.dt, Size(e))))))
       /\ (settled' /\ e.op = "run") =>
            Chk("same motion", \A g \in DOMAIN A : SameMotion(A[g], B[g], FMul(Reach(n), Size(e))))
\* a contact whose direction or place depends on the last digits: nearly parallel rods, centre lines that (nearly) meet
Long(p) == FLe(FMul(2, p.rc), p.lc)
Ends(p, c) == <<SegEnd(c, Axis(p.q), p.lc, -1), SegEnd(c, Axis(p.q), p.lc, 1)>>
Delicate(p, q) ==
  LET c == VAdd(p.p, MinImage(VSub(q.p, p.p), Cfg.pbc, Box))
      E == Ends(p, p.p)
      F == Ends(q, c)
      far == FLt(FMul("1.5", FAdd(FAdd(p.rc, q.rc), FMul("0.5", FAdd(p.lc, q.lc)))), VNorm(VSub(p.p, c)))
      d == IF Long(p) /\ Long(q) THEN SegSeg(E[1], E[2], F[1], F[2])
           ELSE IF Long(p) THEN PointSeg(c, E[1], E[2]) ELSE IF Long(q) THEN PointSeg(p.p, F[1], F[2]) ELSE VNorm(VSub(p.p, c))
  IN ~far /\ (FLt(d, "0.02") \/ (Long(p) /\ Long(q) /\ FLt(VNorm(VCross(Axis(p.q), Axis(q.q))), "0.02")))
Sensitive(st) == \E a, b \in DOMAIN st : a < b /\ Delicate(st[a], st[b])
Start(e) ==
  /\ settled' = (settled /\ (e.op = "prepare" => ~Sensitive(e.runs[1].st)))
  /\ moved' = moved
  /\ Agree(e, moved)
  /\ table' = DOMAIN T(e, 1)
Solved(e) == \A k \in DOMAIN e.runs : FLt(e.runs[k].res, Cfg.resTol)
Step(e) ==
  /\ settled' = (settled /\ Solved(e))
  /\ moved' = moved + 1
  /\ Agree(e, moved')
  /\ Chk("same ids as before", DOMAIN T(e, 1) = table)
  /\ Chk("same step", \A k \in DOMAIN e.runs : e.runs[k].step = e.runs[1].step /\ e.runs[k].snap = e.runs[1].snap)
  /\ table' = table
\* links, as a bag of pairs, on every rank of every run
Links(e) ==
  /\ Chk("same links", \A k \in DOMAIN e.runs : \A r \in DOMAIN e.runs[k].lk : Bag(e.runs[k].lk[r].fw) = Bag(e.runs[1].lk[1].fw))
  /\ UNCHANGED <<moved, settled, table>>
\* what is said about all particles: bounding box, order, volume
Whole(e) ==
  /\ settled => Chk("same " \o e.op, \A k \in Pairs(e) : \A m \in DOMAIN e.runs[1].all :
        FNear(e.runs[1].all[m], e.runs[k].all[m], FMul(FAdd("2e-5", Reach(moved)), FAdd(1, FAbs(e.runs[1].all[m])))))
  /\ UNCHANGED <<moved, settled, table>>
Do(e) ==
  CASE e.op \in {"init", "prepare", "restart"} -> Start(e)
    [] e.op = "run" -> Step(e)
    [] e.op = "links" -> Links(e)
    [] e.op \in {"order", "volume", "bbox"} -> Whole(e)
Init == i = 2 /\ moved = 0 /\ settled = TRUE /\ table = {}
Next == (More /\ Do(Log[i])) \/ (Over /\ UNCHANGED <<moved, settled, table>>)
=============================================================================
