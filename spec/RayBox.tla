------------------------------- MODULE RayBox -------------------------------
(***************************************************************************)
(* A ray against an axis-aligned box, exactly (C15, C16).  The stay of a   *)
(* ray in the box is the set of parameters t in [0, ext] whose point is in *)
(* the closed box: an interval, by slabs.  Parameters are extended reals   *)
(* (ext may be infinite).                                                  *)
(***************************************************************************)
EXTENDS Box
At(o, d, t) == [k \in B3 |-> RAdd(o[k], RMul(d[k], t))]
\* one slab: the parameters for which coordinate k is in range, widened by
\* the factor g of relative error (negative: narrowed)
Spread(t, g) == RMul(RAbs(t), g)
Slab(b, o, d, k, g) ==
    IF RSgn(d[k]) = 0
    THEN IF RLe(b.lo[k], o[k]) /\ RLe(o[k], b.hi[k]) THEN <<NInf, PInf>> ELSE <<PInf, NInf>>
    ELSE LET p == RDiv(RSub(b.lo[k], o[k]), d[k])
             q == RDiv(RSub(b.hi[k], o[k]), d[k])
             n == RMin(p, q) f == RMax(p, q)
         IN  <<Fin(RSub(n, Spread(n, g))), Fin(RAdd(f, Spread(f, g)))>>
Max3(a, b, c) == EMax(EMax(a, b), c)
Min3(a, b, c) == EMin(EMin(a, b), c)
\* <<first, last>>, empty when first > last
LineStay(b, o, d, g) ==
    LET x == Slab(b, o, d, 1, g) y == Slab(b, o, d, 2, g) z == Slab(b, o, d, 3, g)
    IN  <<Max3(x[1], y[1], z[1]), Min3(x[2], y[2], z[2])>>
Stay(b, o, d, ext, g) ==
    LET s == LineStay(b, o, d, g) IN <<EMax(s[1], Fin(R0)), EMin(s[2], ext)>>
NonEmptyStay(s) == ELe(s[1], s[2])
OnFace(b, p, k, sgn, tol) == RNear(p[k], IF sgn > 0 THEN b.hi[k] ELSE b.lo[k], tol)
InsideTol(b, p, tol) == \A k \in B3 : RLe(RSub(b.lo[k], tol[k]), p[k]) /\ RLe(p[k], RAdd(b.hi[k], tol[k]))
StrictlyInside(b, p) == \A k \in B3 : RLt(b.lo[k], p[k]) /\ RLt(p[k], b.hi[k])
=============================================================================
