----------------------------- MODULE SimSystem -----------------------------
(* The particle system: particles spread over ranks, links, time stepping,   *)
(* constraints, output, additions and restart.                               *)
(*                                                                           *)
(* An action takes what was observed of one call of the interface (o: a      *)
(* record; o.st is, per rank, the sequence of particles the rank holds) and  *)
(* relates it to the state before.  Each conjunct belongs to one property;   *)
(* Checked selects the properties that constrain the behaviour (all of them  *)
(* in the bounded models MCSim*, the one being decided in SimTrace).         *)
EXTENDS Geometry, Tables

CONSTANTS Cfg,      \* configuration: ranks, box, physical constants, options
          Checked   \* ids of the properties that constrain the behaviour

VARIABLES loc,      \* rank -> sequence of particles held
          links,    \* bag of <<prev, next>>: link -> how often it was given
          phase,    \* "none" | "ready" | "prepared" | "dead"
          step, snap,
          ext,      \* [F, V]: id -> six values, external force and velocity of the coming step
          disk,     \* snapshot number -> what it must hold
          seedUp,   \* how many times the random seed has been moved on by restarts
          drawn     \* numbers drawn from the random streams, with the snapshot number at the time
vars == <<loc, links, phase, step, snap, ext, disk, seedUp, drawn>>

\* clause of property p, named n
Chk(p, n, e) == (p \in Checked) => IF e THEN TRUE ELSE PrintT(<<"REJECT", p, n>>) /\ FALSE

Ranks   == 1..Cfg.ranks
All(st) == Concat(st)
Tab(st) == IndexById(All(st))
Ids(st) == {p.id : p \in SeqSet(All(st))}
NoExt   == [F |-> <<>>, V |-> <<>>]
Per     == Cfg.pbc
Box     == VSub(Cfg.hi, Cfg.lo)
Mono    == Cfg.mono = 1
Fixed   == Cfg.fixed = 1
MidZ    == FMul("0.5", FAdd(Cfg.lo[3], Cfg.hi[3]))
Zero3   == <<0, 0, 0>>
Zero6   == <<0, 0, 0, 0, 0, 0>>
VT      == Cfg.vtol      \* tolerance for velocities and forces of this scenario

-----------------------------------------------------------------------------
(* C01 *)
SameAttr(p, q) == p.id = q.id /\ p.grp = q.grp /\ p.imm = q.imm /\ FEq(p.r, q.r) /\ FEq(p.l, q.l)
\* every particle of T (a table) is held exactly once in st, with its attributes, and nothing else is
Holds(st, T) ==
  /\ DOMAIN st = Ranks
  /\ Len(All(st)) = Cardinality(DOMAIN T)
  /\ Ids(st) = DOMAIN T
  /\ LET X == Tab(st) IN \A g \in DOMAIN T : SameAttr(X[g], T[g])
Wrapped(st, T) ==
  LET X == Tab(st) IN
  \A g \in DOMAIN T \cap DOMAIN X :
     /\ InBox(X[g].p, Cfg.lo, Cfg.hi, Per)
     /\ \A k \in 1..3 :
          IF Mono /\ k = 3 THEN TRUE
          ELSE IF Per[k] = 1
               THEN FNear(MinImage(VSub(X[g].p, T[g].p), Per, Box)[k], 0, Tol)
               ELSE FEq(X[g].p[k], T[g].p[k])

-----------------------------------------------------------------------------
(* C04: contiguous numbering *)
RECURSIVE Before(_, _)
Before(st, r) == IF r = 1 THEN 0 ELSE Before(st, r - 1) + Len(st[r - 1])
Numbered(st, mp) ==
  /\ \A r \in Ranks : \A i \in DOMAIN st[r] : st[r][i].gi = Before(st, r) + i - 1 /\ st[r][i].rk = r - 1
  /\ \A r \in Ranks : /\ mp[r].n = 6 * Len(st[r])
                      /\ mp[r].tot = 6 * Len(All(st))
                      /\ Len(st[r]) > 0 => mp[r].lo = 6 * Before(st, r)

-----------------------------------------------------------------------------
(* C03 *)
Turned(l) == [i \in DOMAIN l |-> <<l[i][2], l[i][1]>>]
LinkMapsAre(lk, L) ==
  \A r \in Ranks : Bag(lk[r].fw) = L /\ Bag(Turned(lk[r].rv)) = L

-----------------------------------------------------------------------------
(* Bodies and constraints *)
SphereLike(p) == FLt(p.lc, FMul(2, p.rc))           \* as a collision body
ERad(p) == IF SphereLike(p) THEN FAdd(FMul("0.5", p.lc), p.rc) ELSE p.rc
ELen(p) == IF SphereLike(p) THEN 0 ELSE p.lc
Minus(p, c) == SegEnd(c, Axis(p.q), ELen(p), -1)
Plus(p, c)  == SegEnd(c, Axis(p.q), ELen(p), 1)
\* q's centre, imaged next to p
NearCentre(p, q) == VAdd(p.p, MinImage(VSub(q.p, p.p), Per, Box))
BodyDist(p, q) ==
  LET c == NearCentre(p, q) IN
  IF SphereLike(p) /\ SphereLike(q) THEN VNorm(VSub(p.p, c))
  ELSE IF SphereLike(p) THEN PointSeg(p.p, Minus(q, c), Plus(q, c))
  ELSE IF SphereLike(q) THEN PointSeg(c, Minus(p, p.p), Plus(p, p.p))
  ELSE SegSeg(Minus(p, p.p), Plus(p, p.p), Minus(q, c), Plus(q, c))
Sep(p, q) == FSub(BodyDist(p, q), FAdd(ERad(p), ERad(q)))
Buf(p, q) == FMul(Cfg.colBuf, FAdd(ERad(p), ERad(q)))
Reach(p, q) == FMul(FAdd(1, Cfg.colBuf), FAdd(FAdd(ERad(p), ERad(q)), FMul("0.5", FAdd(ELen(p), ELen(q)))))
FarApart(p, q) == FLt(FAdd(Reach(p, q), Tol), VNorm(VSub(p.p, NearCentre(p, q))))

CollisionSize(st) == \A p \in SeqSet(All(st)) :
  /\ FNear(p.rc, FMul(p.r, Cfg.dRatio), Tol) /\ FNear(p.lc, FMul(p.l, Cfg.lRatio), Tol)

Blocks(bl)  == Concat(bl)
PairBlks(bl) == SelectSeq(Blocks(bl), LAMBDA b : b.one = 0 /\ b.bi = 0)
SideBlks(bl) == SelectSeq(Blocks(bl), LAMBDA b : b.one = 1)
LinkBlks(bl) == SelectSeq(Blocks(bl), LAMBDA b : b.bi = 1)

(* C08: T is the prepared table *)
PairsComplete(bl, T) ==
  LET B == PairBlks(bl)
      K == [i \in DOMAIN B |-> <<B[i].i, B[i].j>>]
      S == SeqSet(K)
  IN /\ Cardinality(S) = Len(K)
     /\ \A x \in S : x[1] # x[2] /\ <<x[2], x[1]>> \notin S /\ x[1] \in DOMAIN T /\ x[2] \in DOMAIN T
     /\ \A g \in DOMAIN T : \A h \in DOMAIN T :
          g < h =>
            LET has == <<g, h>> \in S \/ <<h, g>> \in S IN
            IF FarApart(T[g], T[h]) THEN ~has
            ELSE LET d == FSub(Sep(T[g], T[h]), Buf(T[g], T[h])) IN
                 IF has THEN FLe(d, Tol) ELSE FLe(FNeg(Tol), d)

(* C09 *)
OnBody(p, c, x) == \* x on the centre line of p placed at c
  FLe(PointSeg(x, Minus(p, c), Plus(p, c)), "1e-7")
PairGeometry(b, T) ==
  LET p == T[b.i]
      q == T[b.j]
      ci == VSub(b.lI, b.pI)
      cj == VSub(b.lJ, b.pJ)
      d == VSub(b.lI, b.lJ)
      n == VNorm(d)
      sep == Sep(p, q)
  IN /\ b.gi = p.gi /\ b.gj = q.gi
     /\ VNear(ci, p.p, Tol) /\ IsImage(cj, q.p, Per, Box)
     /\ OnBody(p, ci, b.lI) /\ OnBody(q, cj, b.lJ)
     /\ FNear(b.d, sep, "1e-7")
     /\ FNear(n, FAdd(sep, FAdd(ERad(p), ERad(q))), "1e-7")
     /\ FLt("1e-6", n) =>
          /\ VNear(b.nI, VScale(FDiv(1, n), d), "1e-6")
          /\ VNear(b.nJ, VScale(-1, b.nI), Tol)
     /\ FNear(VNorm(b.nI), 1, Tol) /\ VNear(VAdd(b.nI, b.nJ), Zero3, Tol)
     /\ FEq(b.k, 0) /\ FEq(b.lb, 0)

(* C10 *)
BoundaryPoints(p) == \* <<point, contact radius>>: the centre of a sphere-like body, both ends of a rod
  IF SphereLike(p) THEN << <<p.p, ERad(p)>> >> ELSE << <<Minus(p, p.p), p.rc>>, <<Plus(p, p.p), p.rc>> >>
ContactDist(p, r) == FMul(FAdd(1, FMul(2, Cfg.colBuf)), r)
SideOK(bl, T) ==
  LET B == SideBlks(bl)
      Want == UNION {{<<g, i, k>> : i \in DOMAIN BoundaryPoints(T[g]), k \in DOMAIN Cfg.bnd} : g \in DOMAIN T}
      \* the constraints of g that stand for its i-th point at boundary k
      Match(g, i, k) == {m \in DOMAIN B :
           /\ B[m].i = g /\ B[m].j = g
           /\ VNear(B[m].lI, BoundaryPoints(T[g])[i][1], "1e-7")
           /\ LET x == BoundaryPoints(T[g])[i] IN
              /\ FNear(B[m].d, FSub(Signed(Cfg.bnd[k], x[1]), x[2]), "1e-7")
              /\ FLt("1e-6", OffCentre(Cfg.bnd[k], x[1])) =>
                   VNear(B[m].nI, Inward(Cfg.bnd[k], x[1]), "1e-6")
              /\ FNear(VNorm(B[m].nI), 1, "1e-6")
              /\ VNear(B[m].pI, VSub(x[1], T[g].p), "1e-7")
              /\ B[m].gi = T[g].gi /\ B[m].bi = 0 /\ FEq(B[m].lb, 0)}
      Due(w)  == LET x == BoundaryPoints(T[w[1]])[w[2]] IN FSub(ContactDist(T[w[1]], x[2]), Signed(Cfg.bnd[w[3]], x[1]))
  IN /\ \A w \in Want : LET d == Due(w)
                            m == Match(w[1], w[2], w[3]) IN
          /\ FLt(Tol, d) => Cardinality(m) >= 1
          /\ FLt(d, FNeg(Tol)) => Cardinality(m) = 0
     /\ Len(B) <= Cardinality({w \in Want : FLe(FNeg(Tol), Due(w))})
     /\ Len(B) >= Cardinality({w \in Want : FLt(Tol, Due(w))})

(* C11 *)
LinksOK(bl, T) ==
  LET B == LinkBlks(bl)
      K == [i \in DOMAIN B |-> <<B[i].i, B[i].j>>]
  IN /\ Bag(K) = Only(links, {x \in DOMAIN links : x[1] \in DOMAIN T /\ x[2] \in DOMAIN T})
     /\ \A m \in DOMAIN B :
          LET b == B[m]
              p == T[b.i]
              q == T[b.j]
              c == NearCentre(p, q)
              e == SegEnd(p.p, Axis(p.q), p.l, 1)
              f == SegEnd(c, Axis(q.q), q.l, -1)
              d == VSub(e, f)
              n == VNorm(d)
          IN /\ b.one = 0 /\ b.gi = p.gi /\ b.gj = q.gi
             /\ VNear(b.lI, e, "1e-7") /\ VNear(b.lJ, f, "1e-7")
             /\ VNear(b.pI, VSub(e, p.p), "1e-7") /\ VNear(b.pJ, VSub(f, c), "1e-7")
             /\ FNear(b.d, FSub(n, FAdd(FAdd(p.r, q.r), Cfg.linkGap)), "1e-7")
             /\ FEq(b.k, Cfg.linkKappa)
             /\ FLt("1e-6", n) => VNear(b.nI, VScale(FDiv(1, n), d), "1e-6")
             /\ VNear(b.nJ, VScale(-1, b.nI), Tol)

-----------------------------------------------------------------------------
(* Mechanics *)
Pi == "3.14159265358979323846"
Drag(p) ==
  LET mu == Cfg.mu IN
  IF FLt(p.l, FMul(2, p.r))
  THEN LET a == FAdd(FMul("0.5", p.l), p.r)
           t == FMul(FMul(6, Pi), FMul(a, mu))
       IN [para |-> t, perp |-> t, rot |-> FMul(FMul(8, Pi), FMul(FMul(a, a), FMul(a, mu)))]
  ELSE LET b == FNeg(FAdd(1, FMul(2, FLn(FDiv(p.r, p.l)))))
           k == FMul(FMul(8, Pi), FMul(p.l, mu))
       IN [para |-> FDiv(k, FMul(2, b)), perp |-> FDiv(k, FAdd(b, 2)),
           rot |-> FDiv(FMul(FMul(FMul(2, Pi), mu), FMul(p.l, FMul(p.l, p.l))), FMul(3, FAdd(b, 2)))]
\* velocity (3) and angular velocity (3) of p under force F (3) and torque T (3)
MobV(p, F) ==
  IF p.imm = 1 THEN Zero3
  ELSE LET u == Axis(p.q)
           d == Drag(p)
           along == VScale(VDot(u, F), u)
       IN VAdd(VScale(FDiv(1, d.para), along), VScale(FDiv(1, d.perp), VSub(F, along)))
MobW(p, T) == IF p.imm = 1 THEN Zero3 ELSE VScale(FDiv(1, Drag(p).rot), T)
Flat2(v) == IF Mono THEN <<v[1], v[2], 0>> ELSE v       \* velocity allowed in the plane
FlatW(w) == IF Mono THEN <<0, 0, w[3]>> ELSE w
First3(x) == <<x[1], x[2], x[3]>>
Last3(x)  == <<x[4], x[5], x[6]>>
ExtOf(t, g) == IF g \in DOMAIN t THEN t[g] ELSE Zero6

Near(a, b) == VNear(a, b, FMul(VT, FAdd(1, FMax(FMaxAbs(a), FMaxAbs(b)))))

\* C15: y is the particle after the step, p before
NonBrownOK(p, y) ==
  LET F == ExtOf(ext.F, p.id)
      V == ExtOf(ext.V, p.id)
  IN /\ Near(y.vN, Flat2(VAdd(MobV(p, First3(F)), First3(V))))
     /\ Near(y.wN, FlatW(VAdd(MobW(p, Last3(F)), Last3(V))))
     /\ Near(y.fN, First3(F)) /\ Near(y.tN, Last3(F))
     /\ FEq(Cfg.kbt, 0) => VNear(y.vR, Zero3, 0) /\ VNear(y.wR, Zero3, 0)
SumOK(y) ==
  /\ Near(y.v, VAdd(VAdd(y.vN, y.vR), VAdd(y.vC, y.vB)))
  /\ Near(y.w, VAdd(VAdd(y.wN, y.wR), VAdd(y.wC, y.wB)))
  /\ Near(y.f, VAdd(y.fN, VAdd(y.fC, y.fB)))
  /\ Near(y.t, VAdd(y.tN, VAdd(y.tC, y.tB)))
MovedBy(p, y, v, w) ==
  IF Fixed THEN \A k \in 1..3 : FEq(y.p[k], p.p[k]) /\ VNear(y.q, p.q, 0)
  ELSE /\ VNear(y.p, VAdd(p.p, VScale(Cfg.dt, v)), Tol)
       /\ VNear(Axis(y.q), Rotate(Axis(p.q), VScale(Cfg.dt, w)), "1e-6")
       /\ VNear(AxisX(y.q), Rotate(AxisX(p.q), VScale(Cfg.dt, w)), "1e-6")
       /\ UnitQ(y.q)

\* C16
Restricted(p, y) ==
  /\ p.imm = 1 => VNear(y.p, p.p, Tol) /\ VNear(Axis(y.q), Axis(p.q), Tol) /\ VNear(AxisX(y.q), AxisX(p.q), Tol)
  /\ Fixed => VNear(y.p, p.p, 0) /\ VNear(y.q, p.q, 0)
  /\ Mono => /\ FNear(y.p[3], MidZ, "1e-6") /\ FNear(Axis(y.q)[3], 0, "1e-6")
             /\ FNear(y.v[3], 0, "1e-6") /\ FNear(y.w[1], 0, "1e-6") /\ FNear(y.w[2], 0, "1e-6")
Flattened(st, T) ==
  LET X == Tab(st) IN
  \A g \in DOMAIN X \cap DOMAIN T :
    LET a == Axis(T[g].q)
        h == FSqrt(FAdd(FMul(a[1], a[1]), FMul(a[2], a[2])))
    IN IF Mono
       THEN /\ FNear(X[g].p[3], MidZ, Tol) /\ FNear(Axis(X[g].q)[3], 0, Tol) /\ UnitQ(X[g].q)
            /\ FLt("1e-6", h) => VNear(Axis(X[g].q), <<FDiv(a[1], h), FDiv(a[2], h), 0>>, "1e-6")
       ELSE VNear(X[g].q, T[g].q, 0)

-----------------------------------------------------------------------------
(* C14 *)
VSum(s) == <<FSumSeq([i \in DOMAIN s |-> s[i][1]]), FSumSeq([i \in DOMAIN s |-> s[i][2]]), FSumSeq([i \in DOMAIN s |-> s[i][3]])>>
\* force and torque of constraint b on particle g, for unit magnitude
NormOn(b, g) == IF b.i = g THEN b.nI ELSE b.nJ
LeverOn(b, g) == IF b.i = g THEN b.pI ELSE b.pJ
ForceOn(B, g)  == VSum([k \in DOMAIN B |-> VScale(B[k].g, NormOn(B[k], g))])
TorqueOn(B, g) == VSum([k \in DOMAIN B |-> VScale(B[k].g, VCross(LeverOn(B[k], g), NormOn(B[k], g)))])
Touching(B, g) == SelectSeq(B, LAMBDA b : b.i = g \/ (b.one = 0 /\ b.j = g))
\* closing rate of the gap of b under the velocities of the table X
PointVel(y, lever) == VAdd(y.v, VCross(y.w, lever))
GapRate(b, X) ==
  LET a == VDot(b.nI, PointVel(X[b.i], b.pI)) IN
  IF b.one = 1 THEN a ELSE FAdd(a, VDot(b.nJ, PointVel(X[b.j], b.pJ)))
\* (gap at the end of the step, plus the stretch of a spring) / dt
Slack(b, X) ==
  FAdd(FAdd(FDiv(b.d, Cfg.dt), GapRate(b, X)), IF b.bi = 1 THEN FDiv(b.g, FMul(b.k, Cfg.dt)) ELSE 0)
SolvedBlock(b, X) ==
  LET s == Slack(b, X)
      \* the solver's tolerance, plus rounding of the terms that cancel
      t == FAdd(FMul("1.01", Cfg.resTol), FMul("1e-10", FAdd(FAbs(FDiv(b.d, Cfg.dt)), FAdd(1, FMaxAbs(X[b.i].v)))))
  IN /\ IF b.bi = 1 THEN FLe(FAbs(s), t)
        ELSE /\ FLe(0, b.g)
             /\ FLe(FNeg(t), s)
             /\ FLt("1e-10", b.g) => FLe(FAbs(s), t)
BodyTensors(r, h) == \* moment tensors of a sphero-cylinder: across and along its axis
  LET be == FDiv(h, FMul(2, r))
      b2 == FMul(be, be)
      b3 == FMul(b2, be)
      r5 == FMul(Pi, FMul(r, FMul(FMul(r, r), FMul(r, r))))
      P(a, b, c, d, q) == FMul(r5, FDiv(FAdd(FAdd(FMul(a, b3), FMul(b, b2)), FAdd(FMul(c, be), d)), q))
  IN [nA |-> P(0, 0, 15, 8, 30), nC |-> P(10, 20, 15, 4, 15),
      gA |-> P(20, 40, 45, 16, 30), gC |-> P(0, 0, 15, 8, 15)]
AlongAcross(along, across, u, x) == VAdd(VScale(across, x), VScale(FMul(FSub(along, across), VDot(u, x)), u))
Unit3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
\* row-major: (sum over both bodies) centre (x) force + rigidity correction N_il e_jkl (G^-1 torque)_k
BodyStress(c, u, r, h, f, lever) ==
  LET T == BodyTensors(r, h)
      y == AlongAcross(FDiv(1, T.gC), FDiv(1, T.gA), u, VCross(lever, f))
      \* column j of the correction: N applied to (e_j x y)_l = e_jkl y_k e_l ... with sign of Levi-Civita
      col(j) == AlongAcross(T.nC, T.nA, u, VCross(Unit3[j], y))
  IN [m \in 1..9 |-> LET i == 1 + ((m - 1) \div 3)
                         j == 1 + ((m - 1) % 3)
                     IN FAdd(FMul(c[i], f[j]), col(j)[i])]
UnitStress(b, T) ==
  LET p == T[b.i]
      q == T[b.j]
      sz(y) == IF b.bi = 1 THEN <<Axis(y.q), y.r, y.l>>
               ELSE <<IF SphereLike(y) THEN <<0, 0, 1>> ELSE Axis(y.q), ERad(y), ELen(y)>>
      a == sz(p)
      c == sz(q)
      \* forces of a unit magnitude on the two bodies
  IN VAdd(BodyStress(VSub(b.lI, b.pI), a[1], a[2], a[3], b.nI, b.pI),
          BodyStress(VSub(b.lJ, b.pJ), c[1], c[2], c[3], b.nJ, b.pJ))
StressOK(b, T) ==
  IF b.one = 1 THEN \A k \in 1..9 : FEq(b.st[k], 0)
  ELSE LET u == UnitStress(b, T) IN VNear(b.st, VScale(b.g, u), FMul("1e-7", FMul(FAbs(b.g), FAdd(1, FMaxAbs(u)))))

SolutionOK(bl, T, X) ==
  LET B == Blocks(bl)
      U == SelectSeq(B, LAMBDA b : b.bi = 0)
      L == SelectSeq(B, LAMBDA b : b.bi = 1)
  IN \A g \in DOMAIN X :
       LET u == Touching(U, g)
           l == Touching(L, g)
           y == X[g]
       IN /\ Near(y.fC, ForceOn(u, g)) /\ Near(y.tC, TorqueOn(u, g))
          /\ Near(y.fB, ForceOn(l, g)) /\ Near(y.tB, TorqueOn(l, g))
          /\ Near(y.vC, MobV(T[g], y.fC)) /\ Near(y.wC, MobW(T[g], y.tC))
          /\ Near(y.vB, MobV(T[g], y.fB)) /\ Near(y.wB, MobW(T[g], y.tB))

-----------------------------------------------------------------------------
(* Output *)
Interval == LET n == FRound(FDiv(Cfg.timeSnap, Cfg.dt)) IN IF n < 1 THEN 1 ELSE n
Due(s) == s % Interval = 0
PerFolder == IF Cfg.ranks >= 400 THEN 1 ELSE 400 \div Cfg.ranks
FolderOf(n) == <<(n \div PerFolder) * PerFolder, (n \div PerFolder) * PerFolder + PerFolder - 1>>
F32(v) == [k \in DOMAIN v |-> FF32(v[k])]
SameF32(v, w) == Len(v) = Len(w) /\ \A k \in DOMAIN v : FEq(v[k], FF32(w[k]))
\* rank file of the parallel output: the particles of that rank, in local order
PieceOK(f, D, r) ==
  /\ Len(f) = Len(D.at[r])
  /\ \A i \in DOMAIN f :
       LET x == f[i]
           y == D.tab[D.at[r][i]]
           u == Axis(y.q)
       IN /\ x.id = y.id /\ x.grp = y.grp /\ x.imm = y.imm
          /\ FEq(x.r, FF32(y.r)) /\ FEq(x.l, FF32(y.l))
          /\ FEq(x.rc, FF32(y.rc)) /\ FEq(x.lc, FF32(y.lc))
          /\ VNear(x.a, SegEnd(y.p, u, y.l, -1), Tol) /\ VNear(x.b, SegEnd(y.p, u, y.l, 1), Tol)
          /\ VNear(x.z, u, "1e-6") /\ VNear(x.x, AxisX(y.q), "1e-6")
          /\ SameF32(x.v, y.v) /\ SameF32(x.w, y.w)
          /\ SameF32(x.vC, y.vC) /\ SameF32(x.wC, y.wC) /\ SameF32(x.vB, y.vB) /\ SameF32(x.wB, y.wB)
          /\ SameF32(x.vN, y.vN) /\ SameF32(x.wN, y.wN) /\ SameF32(x.vR, y.vR) /\ SameF32(x.wR, y.wR)
          /\ SameF32(x.f, y.f) /\ SameF32(x.t, y.t) /\ SameF32(x.fC, y.fC) /\ SameF32(x.tC, y.tC)
          /\ SameF32(x.fB, y.fB) /\ SameF32(x.tB, y.tB) /\ SameF32(x.fN, y.fN) /\ SameF32(x.tN, y.tN)
ConPieceOK(f, B) ==
  /\ Len(f) = Len(B)
  /\ \A i \in DOMAIN f :
       LET x == f[i]
           b == B[i]
       IN /\ x.i = b.i /\ x.j = b.j /\ x.gi = b.gi /\ x.gj = b.gj /\ x.one = b.one /\ x.bi = b.bi
          /\ VNear(x.lI, b.lI, 0) /\ VNear(x.lJ, b.lJ, 0)
          /\ SameF32(x.pI, b.pI) /\ SameF32(x.pJ, b.pJ) /\ SameF32(x.nI, b.nI) /\ SameF32(x.nJ, b.nJ)
          /\ FEq(x.d, FF32(b.d)) /\ FEq(x.g, FF32(b.g)) /\ FEq(x.k, FF32(b.k)) /\ SameF32(x.st, b.st)
Rel(a, b, t) == FNear(a, b, FMul(t, FAdd(1, FAbs(b))))
AsciiOK(f, D) == \* the text file: every particle once, eight digits
  /\ Len(f) = Cardinality(DOMAIN D.tab)
  /\ {f[i].id : i \in DOMAIN f} = DOMAIN D.tab
  /\ \A i \in DOMAIN f :
       LET x == f[i]
           y == D.tab[x.id]
           u == Axis(y.q)
           a == SegEnd(y.p, u, y.l, -1)
           b == SegEnd(y.p, u, y.l, 1)
       IN /\ x.grp = y.grp /\ x.imm = y.imm /\ Rel(x.r, y.r, "1e-7")
          /\ \A k \in 1..3 : Rel(x.a[k], a[k], "1e-7") /\ Rel(x.b[k], b[k], "1e-7")

-----------------------------------------------------------------------------
(* Actions *)
vacant == IndexById(<<>>)
InitTab == IndexById(Cfg.init)           \* the particles of the initial file
LinkBag == Bag(Cfg.links)
FromFile == Cfg.gen = 0

\* C27: particles as the file says (before any step has moved them)
AsInFile(X) ==
  \A g \in DOMAIN InitTab \cap DOMAIN X :
    /\ VNear(X[g].p, InitTab[g].p, Tol) /\ UnitQ(X[g].q)
    /\ FLt("1e-7", X[g].l) => VNear(Axis(X[g].q), InitTab[g].u, "1e-7")
AttrOfFile(X) == \A g \in DOMAIN InitTab \cap DOMAIN X :
    X[g].grp = InitTab[g].grp /\ X[g].imm = InitTab[g].imm /\ FEq(X[g].r, InitTab[g].r) /\ FNear(X[g].l, InitTab[g].l, Tol)
\* C27: particles generated from the configuration
Generated(X) ==
  /\ DOMAIN X = 0..(Cfg.gen - 1)
  /\ \A g \in DOMAIN X :
       LET y == X[g] IN
       /\ FNear(FMul(2, y.r), Cfg.diameter, Tol) /\ y.imm = 0
       /\ IF FLt(0, Cfg.sigma)
          THEN FLt(0, y.l) /\ FLe(FMul(2, y.l), FMin(FMin(Cfg.iedge[1], Cfg.iedge[2]), Cfg.iedge[3]))
          ELSE FEq(y.l, Cfg.length)
       /\ UnitQ(y.q)
       /\ (Cfg.pre = 0 \/ Fixed) =>
            /\ \A k \in 1..3 : FLe(FSub(Cfg.ilo[k], Tol), y.p[k]) /\ FLe(y.p[k], FAdd(Cfg.ihi[k], Tol))
            /\ Cfg.circ = 1 =>
                 LET m2 == FMul("0.5", FAdd(Cfg.ilo[2], Cfg.ihi[2]))
                     m3 == FMul("0.5", FAdd(Cfg.ilo[3], Cfg.ihi[3]))
                 IN FLe(VNorm(<<FSub(y.p[2], m2), FSub(y.p[3], m3)>>),
                        FAdd(Tol, FMul("0.5", FMin(Cfg.iedge[2], Cfg.iedge[3]))))
            /\ LET o == Cfg.orient
                   set(k) == FLe(-1, o[k]) /\ FLe(o[k], 1)
                   u == Axis(y.q)
               IN /\ (set(1) /\ set(2) /\ set(3)) => VNear(u, VScale(FDiv(1, VNorm(o)), o), "1e-7")
                  \* a component given as zero stays zero
                  /\ (set(1) \/ set(2) \/ set(3)) => \A k \in 1..3 : (set(k) /\ FEq(o[k], 0)) => FNear(u[k], 0, "1e-7")
  /\ \* not all at one place
     (Cfg.gen > 3) => Cardinality({X[g].p : g \in DOMAIN X}) = Cfg.gen

Initialize(o) ==
  LET X == Tab(o.st) IN
  /\ phase = "none"
  /\ FromFile =>
       /\ Chk("C01", "init-holds", DOMAIN o.st = Ranks /\ Ids(o.st) = DOMAIN InitTab /\ Len(All(o.st)) = Len(Cfg.init))
       /\ Chk("C27", "init-ids", Ids(o.st) = DOMAIN InitTab /\ Len(All(o.st)) = Len(Cfg.init))
       /\ Chk("C27", "init-attributes", AttrOfFile(X))
       /\ (Cfg.pre = 0 \/ Fixed) => Chk("C27", "init-positions", AsInFile(X))
  /\ ~FromFile =>
       /\ Chk("C01", "init-count", Len(All(o.st)) = Cfg.gen /\ Cardinality(DOMAIN X) = Cfg.gen)
       /\ Chk("C27", "init-generated", Generated(X))
  /\ Chk("C03", "init-links", LinkMapsAre(o.lk, LinkBag))
  /\ Chk("C27", "init-links", \A r \in Ranks : Bag(o.lk[r].fw) = LinkBag)
  /\ Chk("C17", "init-counters", o.step = 0 /\ o.snap = 0)
  /\ loc' = o.st /\ links' = LinkBag /\ phase' = "ready" /\ step' = 0 /\ snap' = 0
  /\ ext' = NoExt /\ disk' = vacant /\ seedUp' = 0 /\ drawn' = <<>>

Prepare(o) ==
  LET T == Tab(loc) IN
  /\ phase \in {"ready", "prepared"}
  /\ Chk("C01", "prepare-holds", Holds(o.st, T))
  /\ Chk("C01", "prepare-wrapped", Wrapped(o.st, T))
  /\ Chk("C04", "prepare-numbered", Numbered(o.st, o.mp))
  /\ Chk("C08", "collision-size", CollisionSize(o.st))
  /\ Chk("C16", "prepare-plane", Flattened(o.st, T))
  /\ Chk("C15", "prepare-step", o.step = step)
  /\ Chk("C17", "prepare-counters", o.step = step /\ o.snap = snap)
  /\ loc' = o.st /\ phase' = "prepared" /\ ext' = NoExt
  /\ UNCHANGED <<links, step, snap, disk, seedUp, drawn>>

ToTab(s) == LET I == IndexById(s) IN [g \in DOMAIN I |-> I[g].x]
SetForce(o) ==
  /\ phase = "prepared"
  /\ ext' = [ext EXCEPT !.F = ToTab(o.tab)]
  /\ UNCHANGED <<loc, links, phase, step, snap, disk, seedUp, drawn>>
SetVel(o) ==
  /\ phase = "prepared"
  /\ ext' = [ext EXCEPT !.V = ToTab(o.tab)]
  /\ UNCHANGED <<loc, links, phase, step, snap, disk, seedUp, drawn>>

\* what a snapshot written now has to hold: prepared positions, velocities of the step
Snapshot(o, T, X) ==
  LET at == [r \in Ranks |-> [i \in DOMAIN loc[r] |-> loc[r][i].id]] IN
  [tab |-> [g \in DOMAIN T |-> [X[g] EXCEPT !.p = T[g].p, !.q = T[g].q]],
   at |-> at, links |-> links, step |-> step, bl |-> o.bl, seedUp |-> seedUp]

KeepsOwners(st) == \A r \in Ranks : [i \in DOMAIN st[r] |-> st[r][i].id] = [i \in DOMAIN loc[r] |-> loc[r][i].id]
BlocksName(bl, T) == \A b \in SeqSet(Blocks(bl)) : b.i \in DOMAIN T /\ b.j \in DOMAIN T
\* each particle moved by what the step reports for it
Moves(T, X) == \A g \in DOMAIN T \cap DOMAIN X : T[g].imm = 0 => MovedBy(T[g], X[g], X[g].v, X[g].w)

Run(o) ==
  LET T == Tab(loc)
      X == Tab(o.st)
      C == DOMAIN T \cap DOMAIN X
  IN
  /\ phase = "prepared"
  /\ Chk("C01", "run-holds", Holds(o.st, T))
  /\ Chk("C01", "run-owners", KeepsOwners(o.st))
  /\ Chk("C08", "pairs", PairsComplete(o.bl, T))
  /\ Chk("C09", "pair-names", BlocksName(o.bl, T))
  /\ Chk("C09", "pair-geometry", \A b \in SeqSet(PairBlks(o.bl)) : PairGeometry(b, T))
  /\ Chk("C10", "boundaries", SideOK(o.bl, T))
  /\ Chk("C11", "links", LinksOK(o.bl, T))
  /\ Chk("C14", "solution", SolutionOK(o.bl, T, X))
  \* the solver reports its residual; a solve that ended for another reason promises no more than bounds
  /\ Chk("C14", "gap", IF FLt(o.res, Cfg.resTol) THEN \A b \in SeqSet(Blocks(o.bl)) : SolvedBlock(b, X)
                       ELSE \A b \in SeqSet(Blocks(o.bl)) : b.bi = 0 => FLe(0, b.g))
  /\ Chk("C14", "stress", \A b \in SeqSet(Blocks(o.bl)) : StressOK(b, T))
  /\ Chk("C14", "total", \A g \in C : SumOK(X[g]))
  /\ Chk("C15", "non-brownian", \A g \in C : T[g].imm = 0 => NonBrownOK(T[g], X[g]))
  /\ Chk("C15", "total", \A g \in C : SumOK(X[g]))
  /\ Chk("C15", "moved", Moves(T, X))
  /\ Chk("C15", "step", o.step = step + 1)
  /\ Chk("C16", "restricted", \A g \in C : Restricted(T[g], X[g]))
  /\ Chk("C17", "schedule", o.step = step + 1 /\ o.snap = snap + (IF Due(step) THEN 1 ELSE 0))
  /\ loc' = o.st /\ phase' = "ready" /\ step' = step + 1
  /\ snap' = snap + (IF Due(step) THEN 1 ELSE 0)
  /\ disk' = IF Due(step) /\ DOMAIN X = DOMAIN T THEN (snap :> Snapshot(o, T, X)) @@ disk ELSE disk
  /\ ext' = NoExt
  /\ UNCHANGED <<links, seedUp, drawn>>

\* o.req[r]: what rank r adds, o.ids[r]: the ids it was given
AddParticles(o) ==
  LET T == Tab(loc)
      X == Tab(o.st)
      given == Concat(o.ids)
      top == Max({-1} \cup DOMAIN T)
  IN
  /\ phase = "ready"
  /\ Chk("C02", "one-id-each", \A r \in Ranks : Len(o.ids[r]) = Len(o.req[r]))
  /\ Chk("C02", "fresh", Distinct(given) /\ \A i \in DOMAIN given : given[i] > top)
  /\ Chk("C02", "named", \A r \in Ranks : \A i \in DOMAIN o.req[r] :
        LET g == o.ids[r][i]
            q == o.req[r][i]
        IN g \in DOMAIN X /\ FEq(X[g].r, q.r) /\ FEq(X[g].l, q.l) /\ X[g].grp = q.grp /\ X[g].imm = q.imm
           /\ VNear(X[g].p, q.p, 0) /\ VNear(X[g].q, q.q, 0))
  /\ Chk("C02", "others-kept", DOMAIN T \subseteq DOMAIN X /\ \A g \in DOMAIN T : SameAttr(X[g], T[g]))
  /\ Chk("C01", "add-holds", /\ Len(All(o.st)) = Cardinality(DOMAIN T) + Len(given)
                             /\ DOMAIN X = DOMAIN T \cup SeqSet(given)
                             /\ \A g \in DOMAIN T : SameAttr(X[g], T[g]) /\ VNear(X[g].p, T[g].p, 0))
  /\ loc' = o.st
  /\ UNCHANGED <<links, phase, step, snap, ext, disk, seedUp, drawn>>

AddLinks(o) ==
  LET more == BagPlus(links, Bag(Concat(o.req))) IN
  /\ phase \in {"ready", "prepared"}
  /\ Chk("C03", "add-links", LinkMapsAre(o.lk, more))
  /\ links' = more
  /\ UNCHANGED <<loc, phase, step, snap, ext, disk, seedUp, drawn>>
LinksSeen(o) ==
  /\ Chk("C03", "links", LinkMapsAre(o.lk, links))
  /\ UNCHANGED vars

\* C28: bounding boxes of the particles of a rank and of all particles
EndMin(y, k) == LET u == Axis(y.q) IN FMin(SegEnd(y.p, u, y.l, -1)[k], SegEnd(y.p, u, y.l, 1)[k])
EndMax(y, k) == LET u == Axis(y.q) IN FMax(SegEnd(y.p, u, y.l, -1)[k], SegEnd(y.p, u, y.l, 1)[k])
BoxIs(s, lo, hi) == \A k \in 1..3 :
  /\ \A i \in DOMAIN s : FLe(lo[k], FAdd(EndMin(s[i], k), Tol)) /\ FLe(FSub(EndMax(s[i], k), Tol), hi[k])
  /\ \E i \in DOMAIN s : FNear(lo[k], EndMin(s[i], k), Tol)
  /\ \E i \in DOMAIN s : FNear(hi[k], EndMax(s[i], k), Tol)
BBox(o) ==
  /\ Chk("C28", "local-box", \A r \in Ranks : Len(loc[r]) > 0 => BoxIs(loc[r], o.bb[r].ll, o.bb[r].lh))
  /\ Chk("C28", "global-box", Len(All(loc)) > 0 => \A r \in Ranks : BoxIs(All(loc), o.bb[r].gl, o.bb[r].gh))
  /\ UNCHANGED vars
MeanOver(f(_)) == LET s == All(loc) IN FDiv(FSumSeq([i \in DOMAIN s |-> f(s[i])]), Len(s))
\* as printed, six digits
Printed(x, y) == FNear(x, y, FAdd("1e-9", FMul("6e-6", FAbs(y))))
Order(o) == \* polar and nematic order of all particles
  /\ Chk("C28", "polar-order", \A k \in 1..3 : LET m(y) == Axis(y.q)[k] IN FNear(o.P[k], MeanOver(m), "1e-5"))
  /\ Chk("C28", "nematic-order", \A m \in 1..9 :
        LET i == 1 + ((m - 1) \div 3)
            j == 1 + ((m - 1) % 3)
            q(y) == FSub(FMul(Axis(y.q)[i], Axis(y.q)[j]), IF i = j THEN FDiv(1, 3) ELSE 0)
        IN FNear(o.Q[m], MeanOver(q), "1e-5"))
  /\ UNCHANGED vars
VolOf(y) == FMul(Pi, FAdd(FMul(y.l, FMul(y.r, y.r)), FMul(FDiv(4, 3), FMul(y.r, FMul(y.r, y.r)))))
Volume(o) ==
  /\ LET s == All(loc)
         v == FSumSeq([i \in DOMAIN s |-> VolOf(s[i])])
     IN /\ Chk("C28", "volume", FNear(o.vol, v, FMul("1e-5", v)))
        /\ Chk("C28", "volume-fraction",
               LET f == FDiv(v, FMul(Box[1], FMul(Box[2], Box[3]))) IN FNear(o.frac, f, FMul("1e-5", f)))
  /\ UNCHANGED vars
\* mean constraint stress of the step, two-sided constraints, in units of number times kT
StressSum(bl, bi, m) ==
  LET B == SelectSeq(Blocks(bl), LAMBDA b : b.one = 0 /\ b.bi = bi) IN FSumSeq([i \in DOMAIN B |-> B[i].st[m]])
Stress(o) ==
  /\ LET s == FMul(Len(All(loc)), Cfg.kbt)
         big(bi) == FMaxAbs([m \in 1..9 |-> FDiv(StressSum(o.bl, bi, m), s)])
     IN Chk("C28", "stress", \A m \in 1..9 :
          /\ FNear(o.uni[m], FDiv(StressSum(o.bl, 0, m), s), FMul("1e-5", FAdd("1e-9", big(0))))
          /\ FNear(o.bis[m], FDiv(StressSum(o.bl, 1, m), s), FMul("1e-5", FAdd("1e-9", big(1)))))
  /\ UNCHANGED vars

\* the run ends (or is cut off): only what is on disk is left
Stop(o) ==
  /\ phase' = "none"
  /\ UNCHANGED <<loc, links, step, snap, ext, disk, seedUp, drawn>>

\* o.euler = 1: continue with the step whose snapshot was taken
Restart(o) ==
  LET last == Max(DOMAIN disk)
      D == disk[last]
      T == D.tab
      X == Tab(o.st)
      moved(g) == IF o.euler = 1 /\ ~Fixed THEN VAdd(T[g].p, VScale(Cfg.dt, T[g].v)) ELSE T[g].p
      turned(g) == IF o.euler = 1 /\ ~Fixed THEN Rotate(Axis(T[g].q), VScale(Cfg.dt, T[g].w)) ELSE Axis(T[g].q)
      vtol(g) == FAdd("1e-6", FMul("1e-6", FMul(Cfg.dt, FAdd(FMaxAbs(T[g].v), FMaxAbs(T[g].w)))))
  IN
  /\ phase = "none" /\ DOMAIN disk # {}
  /\ Chk("C18", "restart-holds", Len(All(o.st)) = Cardinality(DOMAIN T) /\ DOMAIN X = DOMAIN T /\ DOMAIN o.st = Ranks)
  /\ Chk("C18", "restart-attributes", \A g \in DOMAIN T \cap DOMAIN X :
        /\ X[g].grp = T[g].grp /\ X[g].imm = T[g].imm
        /\ Rel(X[g].r, T[g].r, "1e-6") /\ Rel(X[g].l, T[g].l, "1e-6"))
  /\ Chk("C18", "restart-advanced", \A g \in DOMAIN T \cap DOMAIN X :
        /\ VNear(MinImage(VSub(X[g].p, moved(g)), Per, Box), Zero3, vtol(g))
        /\ UnitQ(X[g].q) /\ VNear(Axis(X[g].q), turned(g), vtol(g)))
  /\ Chk("C18", "restart-links", LinkMapsAre(o.lk, D.links))
  /\ Chk("C18", "restart-counters", o.step = D.step + 1 /\ o.snap = last + 1)
  /\ Chk("C17", "restart-counters", o.step = D.step + 1 /\ o.snap = last + 1)
  /\ Chk("C01", "restart-holds", Len(All(o.st)) = Cardinality(DOMAIN T) /\ DOMAIN X = DOMAIN T)
  /\ Chk("C03", "restart-links", LinkMapsAre(o.lk, D.links))
  /\ loc' = o.st /\ links' = D.links /\ phase' = "ready"
  /\ step' = D.step + 1 /\ snap' = last + 1 /\ ext' = NoExt
  /\ disk' = [n \in {m \in DOMAIN disk : m <= last} |-> disk[n]]
  /\ seedUp' = D.seedUp + 1
  \* what was drawn after the snapshot does not belong to this history any more
  /\ drawn' = SelectSeq(drawn, LAMBDA x : x.snap <= last)

\* numbers drawn from the streams: after a restart they are not those of an earlier stretch of the run
Draw(o) ==
  /\ Chk("C18", "fresh-randomness", \A i \in DOMAIN drawn : SeqSet(Concat(o.u)) \cap drawn[i].u = {})
  /\ drawn' = Append(drawn, [snap |-> snap, u |-> SeqSet(Concat(o.u))])
  /\ UNCHANGED <<loc, links, phase, step, snap, ext, disk, seedUp>>

\* what is found on disk after the run: o.snap is one snapshot
DiskSnap(o) ==
  /\ Chk("C17", "snapshot-expected", o.snap \in DOMAIN disk)
  /\ o.snap \in DOMAIN disk =>
       LET D == disk[o.snap] IN
       /\ Chk("C17", "folder", o.folder = FolderOf(o.snap))
       /\ Chk("C17", "pieces-listed", o.listed = o.files /\ Len(o.files) = Cfg.ranks)
       /\ Chk("C17", "constraint-pieces-listed", o.clisted = o.cfiles /\ Len(o.cfiles) = Cfg.ranks)
       /\ Chk("C17", "arrays-declared", o.declared = 1)
       /\ Chk("C23", "arrays-declared", o.declared = 1)
       /\ Chk("C17", "pieces", \A r \in Ranks : PieceOK(o.part[r], D, r))
       /\ Chk("C17", "constraint-pieces", \A r \in Ranks : ConPieceOK(o.con[r], D.bl[r]))
       /\ Chk("C17", "text", AsciiOK(o.ascii, D))
       /\ Chk("C17", "text-time", Rel(o.time, FMul(D.step, Cfg.dt), "1e-6") /\ o.count = Cardinality(DOMAIN D.tab))
       /\ Chk("C17", "text-links", Bag(o.alinks) = D.links)
  /\ UNCHANGED vars
\* o.all: every snapshot number found; o.info: the step-info file
DiskAll(o) ==
  /\ Chk("C17", "all-snapshots", SeqSet(o.all) = DOMAIN disk /\ Distinct(o.all) /\ DOMAIN disk = 0..(Cardinality(DOMAIN disk) - 1))
  /\ DOMAIN disk # {} =>
       LET last == Max(DOMAIN disk) IN
       /\ Chk("C17", "info", o.info.step = disk[last].step /\ o.info.snap = last /\ o.info.ok = 1)
       /\ Chk("C18", "info-seed", o.info.seed = Cfg.seed + disk[last].seedUp)
  /\ UNCHANGED vars

Start ==
  /\ loc = <<>> /\ links = <<>> /\ phase = "none" /\ step = 0 /\ snap = 0
  /\ ext = NoExt /\ disk = vacant /\ seedUp = 0 /\ drawn = <<>>
=============================================================================
