-------------------------------- MODULE Xf ---------------------------------
(***************************************************************************)
(* Exact projective transforms: a pair of 4x4 matrices [m, i], what they   *)
(* do to points, vectors, normals, rays and boxes (C09, C11, C12, C14),    *)
(* and how far a float evaluation of it may be off.                        *)
(***************************************************************************)
EXTENDS Mat
I3 == 1 .. 3
XId == [m |-> MId, i |-> MId]
XMul(a, b) == [m |-> MMul(a.m, b.m), i |-> MMul(b.i, a.i)]
XInv(a) == [m |-> a.i, i |-> a.m]
Row3(m, r, v) == RAdd(RAdd(RMul(m[r][1], v[1]), RMul(m[r][2], v[2])), RMul(m[r][3], v[3]))
RowP(m, r, p) == RAdd(Row3(m, r, p), m[r][4])
MapV(m, v) == [r \in I3 |-> Row3(m, r, v)]
PointW(m, p) == RowP(m, 4, p)
MapP(m, p) == LET w == PointW(m, p) IN [r \in I3 |-> RDiv(RowP(m, r, p), w)]
\* by the transposed matrix: i is the inverse of the transform
MapN(i, n) == [c \in I3 |-> RAdd(RAdd(RMul(n[1], i[1][c]), RMul(n[2], i[2][c])), RMul(n[3], i[3][c]))]
Affine(m) == m[4] = <<R0, R0, R0, R1>> 
RayAt(o, d, t) == [k \in I3 |-> RAdd(o[k], RMul(d[k], t))]

(* the least box containing the image of the box [lo, hi] (m affine) *)
HullLo(m, lo, hi) == [r \in I3 |-> RAdd(m[r][4], RSum([c \in I3 |-> RMin(RMul(m[r][c], lo[c]), RMul(m[r][c], hi[c]))]))]
HullHi(m, lo, hi) == [r \in I3 |-> RAdd(m[r][4], RSum([c \in I3 |-> RMax(RMul(m[r][c], lo[c]), RMul(m[r][c], hi[c]))]))]
CornersOf3(lo, hi) == {<<x, y, z>> : x \in {lo[1], hi[1]}, y \in {lo[2], hi[2]}, z \in {lo[3], hi[3]}}
VMaxAbs(a, b) == [k \in I3 |-> RMax(RAbs(a[k]), RAbs(b[k]))]

(* Tolerances.  t: per-entry uncertainty of the matrix (0 when the matrix  *)
(* itself was recorded); k: units of rounding.                             *)
M0 == MZero
KE(k, w) == RMul(RInt(k), Eps(w))
Tiny(k, w) == RMul(RInt(k), RPow2(EMinSub(w)))
ErrV(m, t, v, r, k, w) == LET a == VAbs(v) IN RAdd(RAdd(Row3(t, r, a), RMul(KE(k, w), Row3(MAbs(m), r, a))), Tiny(k, w))
ErrP(m, t, p, r, k, w) == LET a == VAbs(p) IN RAdd(RAdd(RowP(t, r, a), RMul(KE(k, w), RowP(MAbs(m), r, a))), Tiny(k, w))
VecOk(o, m, t, v, k, w) ==
    LET x == MapV(m, v) IN \A r \in I3 : RLe(RAbs(RSub(o[r], x[r])), ErrV(m, t, v, r, k, w))
NrmOk(o, i, t, n, k, w) == VecOk(o, MTr(i), MTr(t), n, k, w)
\* the perspective division is determined when w is clear of zero
WClear(m, t, p, k, w) == RLt(RMul(RInt(4), ErrP(m, t, p, 4, k, w)), RAbs(PointW(m, p)))
PointOk(o, m, t, p, k, w) ==
    LET q == PointW(m, p)
        aq == RAbs(q)
        dq == IF Affine(m) /\ t[4] = MZero[4] THEN R0 ELSE ErrP(m, t, p, 4, k, w)
        x == MapP(m, p)
    IN  \A r \in I3 :
           RLe(RAbs(RSub(o[r], x[r])),
               RAdd(RDiv(RAdd(ErrP(m, t, p, r, k, w), RMul(RAbs(x[r]), dq)), RSub(aq, dq)),
                    RAdd(RMul(KE(k, w), RAbs(x[r])), Tiny(k, w))))

(* The matrices of a product computed in floats *)
MulOk(o, a, b, k, w) == MNear(o, MMul(a, b), MAdd(MScale(MMul(MAbs(a), MAbs(b)), KE(k, w)), MScale([i \in Ix |-> [j \in Ix |-> R1]], Tiny(k, w))))
=============================================================================
