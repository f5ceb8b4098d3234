-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* The geometry the transform constructors stand for (C10): exact matrices *)
(* from exact parameters.  Rotations take the sine and cosine of the       *)
(* angle, axes are given as unit vectors.                                  *)
(***************************************************************************)
EXTENDS Xf
Lin(a, b, c) == <<<<a[1], a[2], a[3], R0>>, <<b[1], b[2], b[3], R0>>, <<c[1], c[2], c[3], R0>>, <<R0, R0, R0, R1>>>>
GTr(v) == <<<<R1, R0, R0, v[1]>>, <<R0, R1, R0, v[2]>>, <<R0, R0, R1, v[3]>>, <<R0, R0, R0, R1>>>>
GSc(v) == Lin(<<v[1], R0, R0>>, <<R0, v[2], R0>>, <<R0, R0, v[3]>>)
\* right-handed rotation about the unit axis u: v -> c v + (1-c)(u.v)u + s (u x v)
RotVec(u, s, c, v) == VAdd(VAdd(VScale(v, c), VScale(u, RMul(RSub(R1, c), VDot(u, v)))), VScale(VCross(u, v), s))
UX == <<R1, R0, R0>>
UY == <<R0, R1, R0>>
UZ == <<R0, R0, R1>>
GRot(u, s, c) == MTr(Lin(RotVec(u, s, c, UX), RotVec(u, s, c, UY), RotVec(u, s, c, UZ)))
\* camera basis x, y, z (unit, right-handed) at pos
GView(pos, x, y, z) ==
    <<<<x[1], x[2], x[3], RNeg(VDot(x, pos))>>, <<y[1], y[2], y[3], RNeg(VDot(y, pos))>>,
      <<z[1], z[2], z[3], RNeg(VDot(z, pos))>>, <<R0, R0, R0, R1>>>>
GViewInv(pos, x, y, z) ==
    <<<<x[1], y[1], z[1], pos[1]>>, <<x[2], y[2], z[2], pos[2]>>, <<x[3], y[3], z[3], pos[3]>>, <<R0, R0, R0, R1>>>>
\* cot: cotangent of half the field of view.  z in [-far, -near] goes to
\* [1, 0] with the sign convention w = z of the library (x, y, w negated together)
GPersp(cot, n, f) ==
    LET g == RDiv(f, RSub(f, n))
    IN  <<<<RNeg(cot), R0, R0, R0>>, <<R0, RNeg(cot), R0, R0>>, <<R0, R0, g, RMul(n, g)>>, <<R0, R0, R1, R0>>>>
=============================================================================
