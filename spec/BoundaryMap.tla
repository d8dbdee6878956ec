---------------------------- MODULE BoundaryMap ----------------------------
(* Projection on a boundary (Boundary/Boundary.cpp): the nearest point p of *)
(* the surface and the vector d from the surface towards the allowed side   *)
(* whose length is the distance.  On the surface, the centre or the axis    *)
(* several answers are right, but d always has a direction.                 *)
EXTENDS Recorded, Geometry
VARIABLES done
Unit(v) == VScale(FDiv(1, VNorm(v)), v)
Project(o) ==
  LET b == [o.b EXCEPT !.n = Unit(o.b.n)]
      scale == FAdd(FAdd(1, b.r), FAdd(VNorm(b.c), VNorm(o.x)))
      \* next to the centre or axis the direction, and with it the foot point, hangs on rounding
      tol == FMul(IF FLt(OffCentre(b, o.x), FMul("1e-8", scale)) THEN "1e-8" ELSE "1e-11", scale)
      s == FAbs(Signed(b, o.x))
      len == VNorm(o.d)
      at == Inward(b, o.p)
  IN /\ Chk("finite", Len(o.p) = 3 /\ Len(o.d) = 3 /\ VFinite(o.p) /\ VFinite(o.d))
     /\ Chk("on the surface", FLe(FAbs(Signed(b, o.p)), tol))
     /\ Chk("nearest", FNear(VNorm(VSub(o.x, o.p)), s, tol))
     /\ Chk("length", FNear(len, s, tol))
     /\ Chk("direction", FLt(0, len) /\ VNear(VScale(FDiv(1, len), o.d), at, "1e-3"))
     /\ done' = done + 1
Init == i = 1 /\ done = 0
Next == (More /\ Project(Log[i])) \/ (Over /\ UNCHANGED done)
=============================================================================
