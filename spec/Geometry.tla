----------------------------- MODULE Geometry -----------------------------
(* Geometry of sphero-cylinders in a (partly) periodic box.                *)
EXTENDS Flt, Integers, Sequences

Tol == "1e-9"          \* far above rounding, far below any modelled length

\* axis of a body with unit quaternion q = <<x, y, z, w>>: image of the z axis, and of the x axis
Axis(q)  == << FMul(2, FAdd(FMul(q[1], q[3]), FMul(q[2], q[4]))),
               FMul(2, FSub(FMul(q[2], q[3]), FMul(q[1], q[4]))),
               FSub(1, FMul(2, FAdd(FMul(q[1], q[1]), FMul(q[2], q[2])))) >>
AxisX(q) == << FSub(1, FMul(2, FAdd(FMul(q[2], q[2]), FMul(q[3], q[3])))),
               FMul(2, FAdd(FMul(q[1], q[2]), FMul(q[3], q[4]))),
               FMul(2, FSub(FMul(q[1], q[3]), FMul(q[2], q[4]))) >>
UnitQ(q) == Len(q) = 4 /\ FNear(VNorm(q), 1, Tol)

\* v rotated by the rotation vector th (angle |th| about th)
Rotate(v, th) ==
  LET a == VNorm(th) IN
  IF FLt(a, "1e-12") THEN v
  ELSE LET k == VScale(FDiv(1, a), th)
           c == FCos(a)
           s == FSin(a)
       IN VAdd(VAdd(VScale(c, v), VScale(s, VCross(k, v))), VScale(FMul(FSub(1, c), VDot(k, v)), k))

\* ---- periodic images; per[k] is 1 on a periodic axis, box[k] its length
ImageShift(d, per, box) == \* the multiple of the box length nearest to d, componentwise
  [k \in 1..3 |-> IF per[k] = 1 THEN FMul(box[k], FRound(FDiv(d[k], box[k]))) ELSE 0]
MinImage(d, per, box)   == VSub(d, ImageShift(d, per, box))
IsImage(x, y, per, box) == \* x and y are periodic images of each other
  VNear(MinImage(VSub(x, y), per, box), <<0, 0, 0>>, Tol)
InBox(x, lo, hi, per) == \A k \in 1..3 : per[k] = 1 => FLe(lo[k], x[k]) /\ FLt(x[k], hi[k])

\* ---- distances
Clamp01(t) == FMax(0, FMin(1, t))
SegEnd(c, u, len, sgn) == VAdd(c, VScale(FMul(sgn, FMul("0.5", len)), u))
NearestOnSeg(p, a, b) ==
  LET d == VSub(b, a)
      dd == VDot(d, d)
  IN IF FLe(dd, 0) THEN a ELSE VAdd(a, VScale(Clamp01(FDiv(VDot(VSub(p, a), d), dd)), d))
PointSeg(p, a, b) == VNorm(VSub(p, NearestOnSeg(p, a, b)))
\* minimum distance of two segments: attained at an end of one of them, or at the critical
\* point of the two lines when both parameters fall inside
SegSeg(a, b, c, d) ==
  LET u == VSub(b, a)
      v == VSub(d, c)
      w == VSub(a, c)
      uu == VDot(u, u)  uv == VDot(u, v)  vv == VDot(v, v)  uw == VDot(u, w)  vw == VDot(v, w)
      D == FSub(FMul(uu, vv), FMul(uv, uv))
      ends == FMin(FMin(PointSeg(a, c, d), PointSeg(b, c, d)), FMin(PointSeg(c, a, b), PointSeg(d, a, b)))
  IN IF FLe(D, FMul("1e-14", FMul(uu, vv))) THEN ends
     ELSE LET s == FDiv(FSub(FMul(uv, vw), FMul(vv, uw)), D)
              t == FDiv(FSub(FMul(uu, vw), FMul(uv, uw)), D)
          IN IF FLe(0, s) /\ FLe(s, 1) /\ FLe(0, t) /\ FLe(t, 1)
             THEN FMin(ends, VNorm(VSub(VAdd(w, VScale(s, u)), VScale(t, v)))) ELSE ends

\* ---- boundaries: [kind, c (centre), r (radius), n (unit axis or normal), in (1: allowed side inside)]
\* signed distance to the surface: positive on the allowed side
Signed(b, x) ==
  LET cx == VSub(x, b.c) IN
  CASE b.kind = "wall"   -> VDot(cx, b.n)
    [] b.kind = "sphere" -> IF b.in = 1 THEN FSub(b.r, VNorm(cx)) ELSE FSub(VNorm(cx), b.r)
    [] b.kind = "tube"   -> LET rad == VNorm(VSub(cx, VScale(VDot(cx, b.n), b.n)))
                            IN IF b.in = 1 THEN FSub(b.r, rad) ELSE FSub(rad, b.r)
\* unit vector towards the allowed side at the foot point of x (undefined on the centre / axis)
Inward(b, x) ==
  LET cx == VSub(x, b.c)
      e == IF b.kind = "tube" THEN VSub(cx, VScale(VDot(cx, b.n), b.n)) ELSE cx
      s == IF b.in = 1 THEN -1 ELSE 1
  IN IF b.kind = "wall" THEN b.n ELSE VScale(FDiv(s, VNorm(e)), e)
OffCentre(b, x) ==
  LET cx == VSub(x, b.c) IN
  CASE b.kind = "wall" -> "1"
    [] b.kind = "sphere" -> VNorm(cx)
    [] b.kind = "tube" -> VNorm(VSub(cx, VScale(VDot(cx, b.n), b.n)))
=============================================================================
