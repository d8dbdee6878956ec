------------------------------ MODULE Exchange ------------------------------
(* Many-to-many exchange (MPI/CommMPI.hpp).  Every submitted item arrives   *)
(* once, at its destination, labelled with its sender, and the items from   *)
(* one sender to one receiver keep their order.                             *)
EXTENDS Recorded
VARIABLES done      \* number of items delivered so far
To(s, r) == \* values submitted for rank r, in order
  LET m == SelectSeq(s, LAMBDA x : x[1] = r) IN [k \in DOMAIN m |-> m[k][2]]
From(v, s) == LET m == SelectSeq(v, LAMBDA x : x[1] = s) IN [k \in DOMAIN m |-> m[k][2]]
Deliver(o) ==
  LET R == DOMAIN o.send IN
  /\ Chk("ranks", DOMAIN o.recv = R)
  /\ Chk("sizes agree", \A r \in R : Len(o.recv[r]) = o.n[r])
  /\ Chk("labels", \A r \in R : \A k \in DOMAIN o.recv[r] : o.recv[r][k][1] + 1 \in R)
  /\ Chk("each item once, to its destination, in order",
         \A r, s \in R : From(o.recv[r], s - 1) = To(o.send[s], r - 1))
  /\ done' = done + 1
Init == i = 1 /\ done = 0
Next == (More /\ Deliver(Log[i])) \/ (Over /\ UNCHANGED done)
=============================================================================
