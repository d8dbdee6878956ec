------------------------------- MODULE Points -------------------------------
(* Distributing the points of rank 0 over the ranks and collecting them     *)
(* (Util/PointDistribution.hpp).  State: the points each rank holds.        *)
EXTENDS Recorded, Tables
VARIABLES held
Whole(s, dim) == Len(s) % dim = 0
\* every rank takes a contiguous share of whole points
Distribute(o) ==
  /\ Chk("ranks", Len(o.out) = Len(o.in))
  /\ Chk("order and content", Concat(o.out) = o.in[1])
  /\ Chk("whole points", \A r \in DOMAIN o.out : Whole(o.out[r], o.dim))
CollectOne(o) ==
  /\ Chk("order and content", o.out[1] = Concat(o.in))
  /\ Chk("nothing left elsewhere", \A r \in DOMAIN o.out : r > 1 => o.out[r] = <<>>)
CollectAll(o) == Chk("order and content", \A r \in DOMAIN o.out : o.out[r] = Concat(o.in))
Init == i = 1 /\ held = <<>>
Do(e) == (CASE e.op = "pdist" -> Distribute(e) [] e.op = "pone" -> CollectOne(e) [] e.op = "pall" -> CollectAll(e)) /\ held' = e.out
Next == (More /\ Do(Log[i])) \/ (Over /\ UNCHANGED held)
=============================================================================
