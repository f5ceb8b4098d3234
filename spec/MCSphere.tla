------------------------------ MODULE MCSphere ------------------------------
(***************************************************************************)
(* Design model: a ray along the chord through two lattice points P # Q of *)
(* the sphere of radius 3 or 5, starting at P + j/2 (Q - P), meets the     *)
(* sphere exactly at P and Q.  For all such rays, patches and extents the  *)
(* solution of the quadratic with clipping finds the nearest of P and Q    *)
(* that the ray reaches and the patch contains.  Likewise a ray along the  *)
(* tangent at P towards Q (tan): it meets the sphere at P alone.           *)
(***************************************************************************)
EXTENDS Sphere, FiniteSets, TLC, Json
CONSTANTS Big
VARIABLES rad, P, Q, j, lim, az, ext, tan
vars == <<rad, P, Q, j, lim, az, ext, tan>>
Cube(n) == (-n .. n) \X (-n .. n) \X (-n .. n)
On(n) == {p \in Cube(n) : p[1] * p[1] + p[2] * p[2] + p[3] * p[3] = n * n}
Some == {<<3, 0, 0>>, <<0, 0, 3>>, <<1, 2, 2>>, <<-2, 1, -2>>, <<2, -1, 2>>, <<-1, -2, -2>>}
Rads == IF Big THEN {3, 5} ELSE {3}
Lims(n) == IF Big THEN {<<-n, n>>, <<0, n>>, <<-n, -1>>, <<-1, 2>>} ELSE {<<-n, n>>, <<-n, -1>>, <<-1, 2>>}
Js == IF Big THEN {-4, -2, -1, 0, 1, 2, 3} ELSE {-2, 0, 1, 3}
Exts == IF Big THEN {1, 2, 3, 8, 99} ELSE {2, 3, 99}          \* in halves of the chord
Azs == {0, 1, 2, 3}                                            \* limit in quarter turns from -pi/2
Tangents(p) == {v \in Cube(IF Big THEN 2 ELSE 1) \ {<<0, 0, 0>>} : v[1] * p[1] + v[2] * p[2] + v[3] * p[3] = 0}
Init == /\ rad \in Rads
        /\ P \in (IF Big THEN On(rad) ELSE Some)
        /\ \/ tan = FALSE /\ Q \in On(rad) \ {P}
           \/ tan = TRUE /\ Q \in {<<P[1] + v[1], P[2] + v[2], P[3] + v[3]>> : v \in Tangents(P)}
        /\ j = 99 /\ lim = <<>> /\ az = 0 /\ ext = 0
Shoot == /\ j = 99
         /\ j' \in Js /\ lim' \in Lims(rad) /\ az' \in Azs /\ ext' \in Exts
         /\ UNCHANGED <<rad, P, Q, tan>>
Next == Shoot
Spec == Init /\ [][Next]_vars
I(p) == [k \in S3 |-> RInt(p[k])]
D == I(<<Q[1] - P[1], Q[2] - P[2], Q[3] - P[3]>>)
O == [k \in S3 |-> RAdd(RInt(P[k]), RMul(RFrac(j, 2), D[k]))]
E == RFrac(ext, 2)
\* by construction
TP == RNeg(RFrac(j, 2))
TQ == RAdd(TP, R1)
\* azimuth at most az*pi/2 - pi/2, decided on the lattice
AzIn(p) == LET x == p[1] y == p[2] IN
    IF az = 3 THEN TRUE
    ELSE IF y < 0 THEN (IF az = 0 THEN x <= 0 ELSE TRUE)
    ELSE IF az = 0 THEN FALSE
    ELSE IF az = 1 THEN y = 0 /\ x > 0
    ELSE x >= 0                                               \* az = 2: up to pi/2
OnAxis(p) == p[1] = 0 /\ p[2] = 0
InPatch(p) == lim[1] <= p[3] /\ p[3] <= lim[2] /\ AzIn(p)
Reached(t) == RSgn(t) >= 0 /\ RLe(t, E)
Ph == IF az = 3 THEN PiHi ELSE RMul(RInt(az - 1), HalfPi)
S == [r |-> RInt(rad), z0 |-> RInt(lim[1]), z1 |-> RInt(lim[2]), ph |-> Ph]
Rt == Roots(O, D, RInt(rad))
ByRoots == j = 99 \/ Rt = IF tan THEN <<TP, TP>> ELSE <<TP, TQ>>
EtaM == RPow2(-30)
Decide(t) == LET p == PointAt(O, D, t)
             IN  And3(Within(t, R0, E, R0), And3(Within(p[3], S.z0, S.z1, R0), Azimuth(S, p[1], p[2], EtaM, EtaM, EtaM)))
Truth(t, p) == IF Reached(t) /\ InPatch(p) THEN "yes" ELSE "no"
\* the three-valued decision never contradicts the definition
Agree(t, p) == OnAxis(p) \/ Decide(t) \in {"maybe", Truth(t, p)}
SoundDecision == j = 99 \/ (Agree(TP, P) /\ (tan \/ Agree(TQ, Q)))
\* and is open only on the boundary of the azimuth range
Edge(p) == OnAxis(p) \/ (az < 3 /\ (p[1] = 0 \/ p[2] = 0))
SharpDecision == j = 99 \/ ((~Edge(P) => Decide(TP) = Truth(TP, P)) /\ ((~tan /\ ~Edge(Q)) => Decide(TQ) = Truth(TQ, Q)))
\* points of the patch are in its box
Boxed == j = 99 \/ \A p \in (IF tan THEN {P} ELSE {P, Q}) : InPatch(p) => (\A k \in {1, 2} : -rad <= p[k] /\ p[k] <= rad) /\ lim[1] <= p[3] /\ p[3] <= lim[2]
Export == j = 99 \/ PrintT("SCN " \o ToJson([r |-> rad, p |-> P, q |-> Q, j |-> j, z |-> lim, a |-> az, x |-> ext, t |-> tan]))
=============================================================================
