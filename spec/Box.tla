-------------------------------- MODULE Box --------------------------------
(***************************************************************************)
(* Axis-aligned boxes as closed sets of points: [lo, hi], two sequences of *)
(* three rationals; a box with lo > hi in some coordinate is empty (C13).  *)
(***************************************************************************)
EXTENDS Vec
B3 == 1 .. 3
Box(lo, hi) == [lo |-> lo, hi |-> hi]
OfCorners(p, q) == Box([k \in B3 |-> RMin(p[k], q[k])], [k \in B3 |-> RMax(p[k], q[k])])
IsEmpty(b) == \E k \in B3 : RLt(b.hi[k], b.lo[k])
Inside(b, p) == \A k \in B3 : RLe(b.lo[k], p[k]) /\ RLe(p[k], b.hi[k])
\* the least box containing two boxes: an empty one is neutral
BUnion(a, b) == IF IsEmpty(a) THEN b ELSE IF IsEmpty(b) THEN a
                ELSE Box([k \in B3 |-> RMin(a.lo[k], b.lo[k])], [k \in B3 |-> RMax(a.hi[k], b.hi[k])])
BInter(a, b) == Box([k \in B3 |-> RMax(a.lo[k], b.lo[k])], [k \in B3 |-> RMin(a.hi[k], b.hi[k])])
SameSet(a, b) == a = b \/ (IsEmpty(a) /\ IsEmpty(b))
Overlap(a, b) == \A k \in B3 : RLt(b.lo[k], a.hi[k]) /\ RLt(a.lo[k], b.hi[k])
Extent(b) == [k \in B3 |-> RSub(b.hi[k], b.lo[k])]
Centre(b) == [k \in B3 |-> RHalf(RAdd(b.lo[k], b.hi[k]))]
Within(a, b) == IsEmpty(a) \/ \A k \in B3 : RLe(b.lo[k], a.lo[k]) /\ RLe(a.hi[k], b.hi[k])
=============================================================================
