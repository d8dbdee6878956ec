------------------------------- MODULE Images -------------------------------
(* Periodic images and random points (Util/GeoUtil.hpp).                    *)
EXTENDS Recorded, Geometry
VARIABLES done
Period(o) == FSub(o.hi, o.lo)
Size(o, x) == FAdd(FAbs(x), FAdd(FAbs(o.lo), FAbs(o.hi)))
\* the code adds or subtracts the period as often as needed, with one rounding each time
Eps(o) == IF "t" \in DOMAIN o /\ o.t = "float" THEN "2e-7" ELSE "5e-16"
Slack(o, x) == FMul(Eps(o), FMul(Size(o, x), FAdd(4, FDiv(FAbs(FSub(x, o.lo)), Period(o)))))
Multiple(o, y, x) == FNear(FSub(y, x), FMul(Period(o), FRound(FDiv(FSub(y, x), Period(o)))), Slack(o, x))
Inside(o, y) == FLe(o.lo, y) /\ FLt(y, o.hi)
Wrap(o) ==
  /\ Chk("in the half-open interval", Inside(o, o.y))
  /\ Chk("image of the coordinate", Multiple(o, o.y, o.x) \/
         \* an image that rounds up to the upper end is the lower end
         (FEq(o.y, o.lo) /\ FNear(FMul(Period(o), FRound(FDiv(FSub(o.hi, o.x), Period(o)))), FSub(o.hi, o.x), Slack(o, o.x))))
Near(o) ==
  /\ Chk("target in the half-open interval", Inside(o, o.u))
  /\ Chk("target is an image", Multiple(o, o.u, o.t))
  /\ Chk("image of the coordinate", Multiple([lo |-> o.lo, hi |-> o.hi], o.y, o.x))
  /\ Chk("nearest to the target", FLe(FAbs(FSub(o.y, o.u)), FAdd(FDiv(Period(o), 2), FAdd(Slack(o, o.x), Slack(o, o.t)))))
\* ---- random points: N x N of them, from uniform numbers on a lattice
Count(o, P(_)) == Cardinality({k \in DOMAIN o.pts : P(o.pts[k])})
Share(o, P(_), part) == FNear(Count(o, P), FMul(part, Len(o.pts)), FMul("2.5", o.n))
Circle(o) ==
  LET rad(p) == FDiv(VNorm(p), o.r)
      half(p) == FLe(rad(p), FSqrt("0.5"))
      core(p) == FLe(rad(p), "0.5")
      qx(p) == FLt(0, p[1])
      qy(p) == FLt(0, p[2])
      mix(p) == half(p) /\ qx(p) /\ qy(p)
  IN /\ Chk("in the circle", \A k \in DOMAIN o.pts : VFinite(o.pts[k]) /\ FLe(rad(o.pts[k]), "1.000000001"))
     /\ Chk("uniform", Share(o, half, "0.5") /\ Share(o, core, "0.25") /\ Share(o, qx, "0.5") /\ Share(o, qy, "0.5") /\ Share(o, mix, "0.125"))
Sphere(o) ==
  LET z(p) == FDiv(p[3], o.r)
      above(t) == LET f(p) == FLt(t, z(p)) IN Count(o, f)
      qx(p) == FLt(0, p[1])
      qy(p) == FLt(0, p[2])
      mix(p) == qx(p) /\ qy(p) /\ FLt(0, p[3])
  IN /\ Chk("on the sphere", \A k \in DOMAIN o.pts : FNear(FDiv(VNorm(o.pts[k]), o.r), 1, "1e-9"))
     /\ Chk("uniform", Share(o, qx, "0.5") /\ Share(o, qy, "0.5") /\ Share(o, mix, "0.125") /\
            \A t \in {"-0.5", "0", "0.5"} : FNear(above(t), FMul(FDiv(FSub(1, t), 2), Len(o.pts)), FMul("2.5", o.n)))
Step(o) ==
  /\ CASE o.op = "wrap" -> Wrap(o)
       [] o.op = "near" -> Near(o)
       [] o.op = "circle" -> Circle(o)
       [] o.op = "sphere" -> Sphere(o)
  /\ done' = done + 1
Init == i = 1 /\ done = 0
Next == (More /\ Step(Log[i])) \/ (Over /\ UNCHANGED done)
=============================================================================
