------------------------------ MODULE MCRayBox ------------------------------
(***************************************************************************)
(* Design model: for all lattice rays and boxes the slab computation is    *)
(* the ray's stay by definition.  Membership of the ray's point can change *)
(* only where a coordinate crosses a face plane, so comparing at those     *)
(* parameters, between consecutive ones and beyond them is complete.       *)
(***************************************************************************)
EXTENDS RayBox, FiniteSets, TLC, Json
CONSTANTS Big
XS == IF Big THEN -2 .. 3 ELSE -1 .. 2
ZS == IF Big THEN -1 .. 2 ELSE -1 .. 1
DX == IF Big THEN -2 .. 2 ELSE -1 .. 2
DZ == IF Big THEN -1 .. 2 ELSE -1 .. 1
Exts == IF Big THEN {0, 1, 2, 100} ELSE {0, 1, 100}
VARIABLES o, d, bx, ext, pc
vars == <<o, d, bx, ext, pc>>
Boxes == {<<<<0, 0, 0>>, <<2, 1, 1>>>>, <<<<0, 0, 0>>, <<2, 1, 0>>>>, <<<<0, 1, 0>>, <<2, 1, 0>>>>}
I(p) == [k \in B3 |-> RInt(p[k])]
Init == /\ o \in XS \X XS \X ZS
        /\ d \in (DX \X DX \X DZ) \ {<<0, 0, 0>>}
        /\ bx \in Boxes /\ ext \in Exts /\ pc = 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
B == Box(I(bx[1]), I(bx[2]))
E == RInt(ext)
S == Stay(B, I(o), I(d), Fin(E), R0)
Planes == {RDiv(RSub(q[2], RInt(o[q[1]])), RInt(d[q[1]])) :
             q \in {<<k, x>> \in B3 \X {RInt(0), RInt(1), RInt(2)} : d[k] # 0}}
Crit == Planes \cup {R0, E}
Probes == Crit \cup {RHalf(RAdd(c[1], c[2])) : c \in Crit \X Crit}
InRange(t) == RSgn(t) >= 0 /\ RLe(t, E)
ByDefinition ==
    \A t \in Probes : InRange(t) => (Inside(B, At(I(o), I(d), t)) <=> (ELe(S[1], Fin(t)) /\ ELe(Fin(t), S[2])))
EndsInside == NonEmptyStay(S) => \A e \in {1, 2} : IsFin(S[e]) /\ InRange(S[e][2]) /\ Inside(B, At(I(o), I(d), S[e][2]))
\* a ray that starts outside enters through a face: the entry point is on the boundary
EntersByFace == (NonEmptyStay(S) /\ ~Inside(B, I(o))) =>
    LET p == At(I(o), I(d), S[1][2]) IN \E k \in B3 : p[k] = B.lo[k] \/ p[k] = B.hi[k]
Export == PrintT("SCN " \o ToJson([o |-> o, d |-> d, b |-> bx, x |-> ext]))
=============================================================================
