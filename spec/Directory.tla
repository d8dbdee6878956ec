----------------------------- MODULE Directory -----------------------------
(* The distributed directory (Trilinos/ZDD.hpp).  State: what has been      *)
(* published for each id since the directory was made.  A build by all      *)
(* ranks replaces the data of the ids they publish; a find answers every    *)
(* rank's list of ids in the order of the list.                             *)
EXTENDS Recorded, Tables
VARIABLES dir,  \* id -> stamp of the data published last
          ever  \* all <<id, stamp>> ever published
Pairs(o) == Concat(o)
New(o) == dir' = [g \in {} |-> 0] /\ ever' = {}
Publish(o) ==
  LET P == Pairs(o.pub)
      got == {P[k][1] : k \in DOMAIN P}
  IN /\ dir' = [g \in DOMAIN dir \cup got |->
               IF g \in got THEN P[CHOOSE k \in DOMAIN P : P[k][1] = g][2] ELSE dir[g]]
     /\ ever' = ever \cup SeqSet(P)
\* answer for id g: the data published for g; for an id nobody published, no other id's data
Answer(g, a) ==
  IF g \in DOMAIN dir THEN a = <<g, dir[g], 1>>
  ELSE <<a[1], a[2]>> \notin ever
Find(o) ==
  /\ Chk("ranks", Len(o.got) = Len(o.ask))
  /\ Chk("one answer per request", \A r \in DOMAIN o.ask : Len(o.got[r]) = Len(o.ask[r]))
  /\ Chk("published data", \A r \in DOMAIN o.ask : \A k \in DOMAIN o.ask[r] :
           o.ask[r][k] \in DOMAIN dir => Answer(o.ask[r][k], o.got[r][k]))
  /\ Chk("unpublished id", \A r \in DOMAIN o.ask : \A k \in DOMAIN o.ask[r] :
           o.ask[r][k] \notin DOMAIN dir => Answer(o.ask[r][k], o.got[r][k]))
  /\ UNCHANGED <<dir, ever>>
Init == i = 1 /\ dir = [g \in {} |-> 0] /\ ever = {}
Do(e) == CASE e.op = "new" -> New(e) [] e.op = "publish" -> Publish(e) [] e.op = "find" -> Find(e)
Next == (More /\ Do(Log[i])) \/ (Over /\ UNCHANGED <<dir, ever>>)
=============================================================================
