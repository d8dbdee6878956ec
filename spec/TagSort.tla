------------------------------ MODULE TagSort ------------------------------
(* Sorting data by tags (Util/SortUtil.hpp).  Pairs are <<tag, item>>; the  *)
(* items of a case are the positions 1, 2, ... of the pairs in the input.   *)
EXTENDS Recorded
VARIABLES done
Stable(a, b) == b[1] > a[1] \/ (b[1] = a[1] /\ b[2] > a[2])
Sort(o) ==
  /\ Chk("sizes", Len(o.out) = Len(o.in) /\ o.n = Len(o.in))
  /\ Chk("pairs kept", \A k \in DOMAIN o.out : o.out[k][2] \in DOMAIN o.in /\ o.out[k] = o.in[o.out[k][2]])
  /\ Chk("each once", Cardinality({o.out[k][2] : k \in DOMAIN o.out}) = Len(o.in))
  /\ Chk("ascending and stable", \A k \in 1..(Len(o.out) - 1) : Stable(o.out[k], o.out[k + 1]))
  /\ done' = done + 1
Init == i = 1 /\ done = 0
Next == (More /\ Sort(Log[i])) \/ (Over /\ UNCHANGED done)
=============================================================================
