------------------------------ MODULE MCCamera ------------------------------
(***************************************************************************)
(* Design model: for a family of cameras, film positions and lens points,  *)
(* what the rules of the thin lens say agrees with the closed form that    *)
(* the recorded rays are compared with.                                    *)
(***************************************************************************)
EXTENDS Camera, TLC, Json
CONSTANTS Big
VARIABLES c, px, py, q
vars == <<c, px, py, q>>
Hs == IF Big THEN {1, 2, 3, 4} ELSE {1, 2}
Grid == IF Big THEN 0 .. 8 ELSE {0, 1, 4, 6, 8}
Lens == {<<R0, R0>>, <<R1, R0>>, <<RFrac(-3, 5), RFrac(4, 5)>>, <<RFrac(1, 4), RFrac(-1, 2)>>}
Cams == {[fd |-> RInt(f), th |-> RFrac(h, 2), fl |-> RFrac(l, 2), lr |-> RFrac(r, 4), ar |-> RFrac(a, 2)] :
            f \in {2, 5}, h \in Hs, l \in {1, 3}, r \in {0, 1, 3}, a \in {2, 3}}
Init == c \in Cams /\ px = -1 /\ py = -1 /\ q = <<>>
Sample == px = -1 /\ px' \in Grid /\ py' \in Grid /\ q' \in Lens /\ UNCHANGED c
Next == Sample
Spec == Init /\ [][Next]_vars
P == RFrac(px, 8)
O == RFrac(py, 8)
Ready == px >= 0
F == Focus(c, P, O)
L == LensPoint(c, q)
Conjugate == RAdd(RInv(c.fd), RInv(FilmDistance(c))) = RInv(c.fl)
ByTheRules == Ready => F = ChiefAt(c, P, O, RNeg(c.fd))
OnLens == Ready => RLe(VSq(L), RSq(c.lr)) /\ L[3] = R0
\* linear in the film position: the field of view at the edges, zero in the middle
Sweep == Ready => /\ RMul(F[1], RInt(4)) = RMul(RMul(RInt(px - 4), c.th), c.fd)
                  /\ RMul(RMul(F[2], RInt(4)), c.ar) = RMul(RMul(RInt(py - 4), c.th), c.fd)
Upright == Ready => RSgn(F[1]) = RSgn(RInt(px - 4)) /\ RSgn(F[2]) = RSgn(RInt(py - 4))
Export == ~Ready \/ PrintT("SCN " \o ToJson([px |-> px, py |-> py,
             fd |-> RFloorInt(c.fd), h |-> RFloorInt(RMul(R2, c.th)), l |-> RFloorInt(RMul(R2, c.fl)),
             r |-> RFloorInt(RMul(RInt(4), c.lr)), a |-> RFloorInt(RMul(R2, c.ar))]))
=============================================================================
