------------------------------- MODULE MCIVec -------------------------------
(***************************************************************************)
(* Design model of interval vectors: for every pair of 2-vectors of small  *)
(* integer intervals and every choice of members, the images computed from *)
(* the members lie in the hulls of module IVec, and the hull bounds are    *)
(* attained by some choice (so the hulls are exact).                       *)
(***************************************************************************)
EXTENDS IVec, TLC, Json
CONSTANTS N
VARIABLES a, b, pc
Pairs == {<<x, y>> \in (-N .. N) \X (-N .. N) : x <= y}
S(p) == Iv(Fin(RInt(p[1])), Fin(RInt(p[2])))
Init == a \in Pairs \X Pairs /\ b \in Pairs \X Pairs /\ pc = 0
Next == UNCHANGED <<a, b, pc>> /\ FALSE
Spec == Init /\ [][Next]_<<a, b, pc>>
A == [k \in 1 .. 2 |-> S(a[k])]
B == [k \in 1 .. 2 |-> S(b[k])]
Ms(v) == {<<x, y>> : x \in v[1][1] .. v[1][2], y \in v[2][1] .. v[2][2]}
Dots == {u[1] * v[1] + u[2] * v[2] : u \in Ms(a), v \in Ms(b)}
Crosses == {u[1] * v[2] - u[2] * v[1] : u \in Ms(a), v \in Ms(b)}
Sqs == {u[1] * u[1] + u[2] * u[2] : u \in Ms(a)}
IsHull(h, xs) == /\ \A x \in xs : MemberOf(Fin(RInt(x)), h)
                 /\ \E x \in xs : Fin(RInt(x)) = h.lo
                 /\ \E x \in xs : Fin(RInt(x)) = h.hi
DotHull == IsHull(HDot(A, B), Dots)
CrossHull == IsHull(HSub(HMul(A[1], B[2]), HMul(A[2], B[1])), Crosses)
SqHull == IsHull(HSqNorm(A), Sqs)
Export == (a[1] = b[2] \/ a[2] = b[1]) => PrintT("SCN " \o ToJson([iv |-> <<a[1], a[2], b[1], b[2]>>]))
=============================================================================
