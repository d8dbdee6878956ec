------------------------------- MODULE Noise -------------------------------
(* Thermal motion.  In each step every particle that can move is given a    *)
(* velocity and angular velocity drawn from a Gaussian of zero mean and     *)
(* covariance 2 kT / dt times its mobility, independently of everything     *)
(* drawn before and of the other particles.  (The code adds the random      *)
(* finite difference drift, which is below the statistical resolution for   *)
(* the parameters used.)                                                    *)
(*                                                                          *)
(* The observed velocities are brought to the particle's frame and divided  *)
(* by the expected deviation; what remains has to look like independent     *)
(* standard normal numbers: the specification keeps the sums that tell, and *)
(* at the end compares them with their expectation, six deviations wide.    *)
(* First line of the trace: kT, dt, viscosity, the particles.               *)
EXTENDS Recorded, Geometry, Tables
VARIABLES n,     \* steps seen
          sum,   \* sums: see Zero
          fix,   \* what does not change: the bodies by id, those that move in the order of the file, scales, members of each kind
          last   \* the normalized numbers of the step before: component -> sequence over particles
Cfg == Log[1]
Mono == Cfg.mono = 1
K == IF Mono THEN 1..3 ELSE 1..6
Bodies == fix.bodies
Movers == fix.movers
M == Len(Movers)
Pi == "3.14159265358979323846"
\* drag along and across the axis, and of rotation, for every particle
DragOf(p) ==
  LET mu == Cfg.mu
  IN IF FLt(p.l, FMul(2, p.r))
     THEN LET a == FAdd(FMul("0.5", p.l), p.r)
              t == FMul(FMul(6, Pi), FMul(a, mu))
          IN [ball |-> TRUE, para |-> t, perp |-> t, rot |-> FMul(FMul(8, Pi), FMul(FMul(a, a), FMul(a, mu)))]
     ELSE LET b == FNeg(FAdd(1, FMul(2, FLn(FDiv(p.r, p.l)))))
              k == FMul(FMul(8, Pi), FMul(p.l, mu))
          IN [ball |-> FALSE, para |-> FDiv(k, FMul(2, b)), perp |-> FDiv(k, FAdd(b, 2)),
              rot |-> FDiv(FMul(FMul(FMul(2, Pi), mu), FMul(p.l, FMul(p.l, p.l))), FMul(3, FAdd(b, 2)))]
ScaleOf(p) == LET f(x) == FSqrt(FDiv(FMul(x, Cfg.dt), FMul(2, Cfg.kbt)))
                  d == DragOf(p)
              IN [ball |-> d.ball, para |-> f(d.para), perp |-> f(d.perp), rot |-> f(d.rot)]
Normal(x) ==
  LET s == fix.scale[x.id]
      u == Axis(x.q)
      e == AxisX(x.q)
  IN IF Mono
     THEN LET side == <<FNeg(u[2]), u[1], 0>> IN
          IF s.ball THEN <<FMul(s.para, x.v[1]), FMul(s.para, x.v[2]), FMul(s.rot, x.w[3])>>
          ELSE <<FMul(s.para, VDot(u, x.v)), FMul(s.perp, VDot(side, x.v)), FMul(s.rot, x.w[3])>>
     ELSE (IF s.ball THEN VScale(s.para, x.v)
           ELSE <<FMul(s.para, VDot(u, x.v)), FMul(s.perp, VDot(e, x.v)), FMul(s.perp, VDot(VCross(u, e), x.v))>>)
          \o VScale(s.rot, x.w)
Kinds == {"ball", "rod", "short"}
Members == fix.members
Fix == LET B == TLCEval(IndexById(Cfg.parts))
           V == TLCEval(SelectSeq(Cfg.parts, LAMBDA p : p.imm = 0))
       IN [bodies |-> B, movers |-> V, scale |-> TLCEval([g \in DOMAIN B |-> ScaleOf(B[g])]),
           members |-> [kind \in Kinds |-> SelectSeq([j \in 1..Len(V) |-> j], LAMBDA j : V[j].kind = kind)]]
Square(s) == TLCEval([j \in DOMAIN s |-> FMul(s[j], s[j])])
Few(s, I) == [j \in DOMAIN I |-> s[I[j]]]
KK == K \X K
Up == {x \in KK : x[1] < x[2]}
Zero == [one |-> [k \in K |-> 0], two |-> [k \in K |-> 0], four |-> [k \in K |-> 0], all |-> [k \in K |-> 0],
         cross |-> [x \in Up |-> 0], lag |-> [x \in KK |-> 0], next |-> [x \in KK |-> 0], nexts |-> 0,
         ranks |-> [x \in KK |-> 0], rankn |-> 0, kind |-> [c \in Kinds |-> [k \in K |-> 0]]]
Components(zs) == TLCEval([k \in K |-> [j \in DOMAIN zs |-> zs[j][k]]])
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* sum over pairs of sequences of the product of their common part
Common(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN <<SubSeq(a, 1, m), SubSeq(b, 1, m)>>
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN FAdd(f[x], Total(f, S \ {x}))
Moving(s) == SelectSeq(s, LAMBDA x : Bodies[x.id].imm = 0)
Still(s) == SelectSeq(s, LAMBDA x : Bodies[x.id].imm = 1)
\* (the bounds of the quantifiers have one element: it is worked out once)
Noise(e) ==
  \E all \in {Concat(e.st)} :
  \E zr \in {[r \in DOMAIN e.st |-> LET s == Moving(e.st[r]) IN [h \in DOMAIN s |-> [id |-> s[h].id, z |-> Normal(s[h])]]]} :
  \E T \in {IndexById(Concat(zr))} :
  \E byId \in {[j \in 1..M |-> T[Movers[j].id].z]} :
  \E Z \in {Components(byId)} :
  \E ZR \in {[r \in DOMAIN zr |-> Components([h \in DOMAIN zr[r] |-> zr[r][h].z])]} :
  \E sq \in {[k \in K |-> Square(Z[k])]} :
  \E tot \in {[k \in K |-> FSumSeq(Z[k])]} :
  LET here == {r \in DOMAIN zr : Len(zr[r]) > 1}
      RR == {x \in (DOMAIN zr) \X (DOMAIN zr) : x[1] < x[2] /\ Len(zr[x[1]]) > 0 /\ Len(zr[x[2]]) > 0}
  IN
  /\ Chk("every particle once", Len(all) = Len(Cfg.parts) /\ {all[j].id : j \in DOMAIN all} = DOMAIN Bodies)
  /\ Chk("numbers", \A j \in DOMAIN all : VFinite(all[j].v) /\ VFinite(all[j].w))
  /\ Chk("none for what cannot move", LET s == Still(all) IN \A j \in DOMAIN s : \A k \in 1..3 : FEq(s[j].v[k], 0) /\ FEq(s[j].w[k], 0))
  /\ Chk("none out of the plane", Mono => \A j \in DOMAIN all : FEq(all[j].v[3], 0) /\ FEq(all[j].w[1], 0) /\ FEq(all[j].w[2], 0))
  /\ Chk("no outliers", \A k \in K : FLe(FMaxAbs(Z[k]), "6.7"))
  \* numbers are not used twice: no two of a step are equal, none equals one of the step before
  /\ Chk("not used twice", \A k \in K : Cardinality({Z[k][j] : j \in 1..M}) >= M)
  /\ n > 0 => Chk("not used again", \A k \in K : {last[k][j] : j \in 1..M} \cap {Z[k][j] : j \in 1..M} = {})
  /\ sum' = TLCEval([one |-> [k \in K |-> FAdd(sum.one[k], tot[k])],
             two |-> [k \in K |-> FAdd(sum.two[k], FSumSeq(sq[k]))],
             four |-> [k \in K |-> FAdd(sum.four[k], VDot(sq[k], sq[k]))],
             all |-> [k \in K |-> FAdd(sum.all[k], FMul(tot[k], tot[k]))],
             cross |-> [x \in Up |-> FAdd(sum.cross[x], VDot(Z[x[1]], Z[x[2]]))],
             lag |-> [x \in KK |-> IF n = 0 THEN 0 ELSE FAdd(sum.lag[x], VDot(last[x[1]], Z[x[2]]))],
             next |-> [x \in KK |-> FAdd(sum.next[x], Total([r \in here |-> VDot(Front(ZR[r][x[1]]), Tail(ZR[r][x[2]]))], here))],
             nexts |-> FAdd(sum.nexts, Total([r \in here |-> Len(zr[r]) - 1], here)),
             ranks |-> [x \in KK |-> FAdd(sum.ranks[x], Total([y \in RR |-> LET c == Common(ZR[y[1]][x[1]], ZR[y[2]][x[2]]) IN VDot(c[1], c[2])], RR))],
             rankn |-> FAdd(sum.rankn, Total([y \in RR |-> Len(Common(zr[y[1]], zr[y[2]])[1])], RR)),
             kind |-> [c \in Kinds |-> [k \in K |-> FAdd(sum.kind[c][k], FSumSeq(Few(sq[k], Members[c])))]]])
  /\ last' = Z /\ n' = n + 1 /\ fix' = fix
Within(x, mean, dev) == FLe(FAbs(FSub(x, mean)), FMul("6.3", dev))
Judge(e) ==
  LET N == n * M
      L == (n - 1) * M
  IN
  /\ Chk("enough", n = e.steps)
  /\ Chk("mean", \A k \in K : Within(sum.one[k], 0, FSqrt(N)))
  /\ Chk("variance", \A k \in K : Within(sum.two[k], N, FSqrt(2 * N)))
  /\ Chk("variance of each kind", \A c \in Kinds : LET m == n * Len(Members[c]) IN m > 500 => \A k \in K : Within(sum.kind[c][k], m, FSqrt(2 * m)))
  /\ Chk("fourth moment", \A k \in K : Within(sum.four[k], 3 * N, FSqrt(96 * N)))
  /\ Chk("components independent", \A x \in Up : Within(sum.cross[x], 0, FSqrt(N)))
  /\ Chk("steps independent", \A x \in KK : Within(sum.lag[x], 0, FSqrt(L)))
  /\ Chk("neighbours independent", \A x \in KK : Within(sum.next[x], 0, FSqrt(sum.nexts)))
  /\ Chk("ranks independent", FLt(500, sum.rankn) => \A x \in KK : Within(sum.ranks[x], 0, FSqrt(sum.rankn)))
  /\ Chk("no common motion", \A k \in K : Within(sum.all[k], N, FMul(M, FSqrt(2 * n))))
  /\ UNCHANGED <<n, sum, last, fix>>
Init == i = 2 /\ n = 0 /\ fix = Fix /\ sum = Zero /\ last = [k \in K |-> <<>>]
Next == (More /\ IF Log[i].op = "noise" THEN Noise(Log[i]) ELSE Judge(Log[i])) \/ (Over /\ UNCHANGED <<n, sum, last, fix>>)
=============================================================================
