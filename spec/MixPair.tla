------------------------------ MODULE MixPair ------------------------------
(* Mixed-pair interaction (MPI/MixPairInteraction.hpp).  State: the targets *)
(* and sources of the last update, on their ranks.  A computation visits,   *)
(* for each target, every periodic image of a source closer than the larger *)
(* of the two search radii, once, and returns one result per local target,  *)
(* in local order.                                                          *)
EXTENDS Recorded, Geometry, Tables
VARIABLES now   \* the last update
Update(o) == now' = o
Most == 4       \* images per axis that can be in range of a generated case
SrcOf(o) == IndexById(Concat(o.src))
Box(o) == [k \in 1..3 |-> FSub(o.hi[k], o.lo[k])]
\* images of source s (multiples of the box) closer to target t than its range plus e
Within(o, box, t, s, e) ==
  LET d == VSub(s.p, t.p)
      R == FAdd(FMax(t.r, s.r), e)
      at(k, c) == FAdd(d[k], FMul(c, box[k]))
      along(k) == IF o.per[k] = 1 THEN {c \in (0 - Most)..Most : FLt(FAbs(at(k, c)), R)} ELSE IF FLt(FAbs(d[k]), R) THEN {0} ELSE {}
  IN {m \in along(1) \X along(2) \X along(3) : FLt(VNorm(<<at(1, m[1]), at(2, m[2]), at(3, m[3])>>), R)}
\* which image of source s a visit at displacement d is; <<>> if none
Which(o, box, t, s, d) ==
  LET e == VSub(d, VSub(s.p, t.p))
      m == [k \in 1..3 |-> IF o.per[k] = 1 THEN FRound(FDiv(e[k], box[k])) ELSE 0]
  IN IF \A k \in 1..3 : FNear(e[k], FMul(m[k], box[k]), Tol) THEN <<m[1], m[2], m[3]>> ELSE <<>>
Visits(src, box, t, f) ==
  LET seen == [j \in DOMAIN f.v |-> <<f.v[j].s, IF f.v[j].s \in DOMAIN src THEN Which(now, box, t, src[f.v[j].s], f.v[j].d) ELSE <<>> >>]
      S == {seen[j] : j \in DOMAIN seen}
  IN /\ Chk("result of this target", f.t = t.id)
     /\ Chk("all recorded", f.n = Len(f.v))
     /\ Chk("images of sources", \A x \in S : x[2] # <<>>)
     /\ Chk("each once", Cardinality(S) = f.n)
     /\ Chk("exactly those in range",
            \A g \in DOMAIN src :
              LET got == {x[2] : x \in {y \in S : y[1] = g}}
              IN Within(now, box, t, src[g], "-1e-9") \subseteq got /\ got \subseteq Within(now, box, t, src[g], "1e-9"))
Force(o) ==
  LET src == SrcOf(now)
      box == Box(now)
  IN /\ Chk("one result per local target", Len(o.res) = Len(now.trg) /\ \A r \in DOMAIN o.res : Len(o.res[r]) = Len(now.trg[r]))
     /\ \A r \in DOMAIN o.res : \A k \in DOMAIN o.res[r] : Visits(src, box, now.trg[r][k], o.res[r][k])
     /\ UNCHANGED now
Init == i = 1 /\ now = [op |-> "none"]
Do(e) == CASE e.op = "update" -> Update(e) [] e.op = "force" -> Force(e)
Next == (More /\ Do(Log[i])) \/ (Over /\ UNCHANGED now)
=============================================================================
