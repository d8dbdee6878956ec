------------------------------ MODULE Streams ------------------------------
(* Random number pools (Util/TRngPool.hpp).  A pool turns one master        *)
(* sequence, fixed by its seed, into one stream per thread of each rank.    *)
(* pools: what each live pool has drawn; known: the streams seen so far for *)
(* each (seed, ranks, threads), which a pool has to repeat.                 *)
EXTENDS Recorded, Flt, Integers
VARIABLES pools, known
Key(pl) == << pl.seed, pl.ranks, pl.threads >>
Owner(r, t) == << r, t >>
Owners(pl) == (0..(pl.ranks - 1)) \X (0..(pl.threads - 1))
Min2(a, b) == IF a < b THEN a ELSE b

New(o) ==
  LET pl == [seed |-> o.seed, ranks |-> o.ranks, threads |-> o.threads, mu |-> "1", sigma |-> "1",
             drawn |-> [w \in (0..(o.ranks - 1)) \X (0..(o.threads - 1)) |-> <<>>]]
  IN /\ pools' = [p \in (DOMAIN pools) \cup {o.p} |-> IF p = o.p THEN pl ELSE pools[p]]
     /\ known' = [k \in (DOMAIN known) \cup {Key(pl)} |-> IF k \in DOMAIN known THEN known[k] ELSE pl.drawn]
LogN(o) == /\ pools' = [pools EXCEPT ![o.p].mu = o.mu, ![o.p].sigma = o.sigma]
           /\ UNCHANGED known
Drop(o) == /\ pools' = [p \in (DOMAIN pools) \ {o.p} |-> pools[p]]
           /\ UNCHANGED known

\* the number is the draw, transformed to its distribution
Value(pl, d) ==
  CASE d.k = "u" -> FEq(d.v, d.u) /\ FLe(0, d.v) /\ FLt(d.v, 1)
    [] d.k = "n" -> FNear(d.v, d.z, "1e-12")
    [] d.k = "l" -> FNear(FLn(d.v), FAdd(pl.mu, FMul(pl.sigma, d.z)), "1e-9")
Draw(o) ==
  LET pl == pools[o.p]
      new(w) == SelectSeq(o.by[w[1] + 1], LAMBDA d : d.t = w[2])
      drawn == [w \in Owners(pl) |-> pl.drawn[w] \o [k \in DOMAIN new(w) |-> new(w)[k].pos[1]]]
      at(w) == {drawn[w][k] : k \in DOMAIN drawn[w]}
      all == UNION {at(w) : w \in Owners(pl)}
      count == [w \in Owners(pl) |-> Len(drawn[w])]
      equal == \A v, w \in Owners(pl) : count[v] = count[w]
      old == known[Key(pl)]
      total == Cardinality(Owners(pl)) * (CHOOSE n \in {count[w] : w \in Owners(pl)} : TRUE)
  IN /\ Chk("one draw of the seed's sequence for each number",
            \A w \in Owners(pl) : \A k \in DOMAIN new(w) : Len(new(w)[k].pos) = 1 /\ new(w)[k].seed = pl.seed)
     /\ Chk("distribution", \A w \in Owners(pl) : \A k \in DOMAIN new(w) : Value(pl, new(w)[k]))
     /\ Chk("never the same draw twice in a stream", \A w \in Owners(pl) : Cardinality(at(w)) = count[w])
     /\ Chk("streams share no draw", \A v, w \in Owners(pl) : v # w => at(v) \cap at(w) = {})
     /\ Chk("together they use all draws", equal => all = 0..(total - 1))
     /\ Chk("the same streams as any pool of this seed and these counts",
            \A w \in Owners(pl) : LET n == Min2(Len(old[w]), count[w]) IN SubSeq(old[w], 1, n) = SubSeq(drawn[w], 1, n))
     /\ pools' = [pools EXCEPT ![o.p].drawn = drawn]
     /\ known' = [known EXCEPT ![Key(pl)] = [w \in Owners(pl) |-> IF count[w] > Len(old[w]) THEN drawn[w] ELSE old[w]]]
Step(o) ==
  CASE o.op = "pool" -> New(o)
    [] o.op = "logn" -> LogN(o)
    [] o.op = "drop" -> Drop(o)
    [] o.op = "draw" -> Draw(o)
Init == i = 1 /\ pools = <<>> /\ known = <<>>
Next == (More /\ Step(Log[i])) \/ (Over /\ UNCHANGED << pools, known >>)
=============================================================================
