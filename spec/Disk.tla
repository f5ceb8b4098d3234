-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* The two maps of the unit square onto the unit disk (C22), in polar form *)
(* [r, a]: radius and angle in units of pi.  Both are exact rationals      *)
(* except the radius of the polar map, which is given squared.             *)
(***************************************************************************)
EXTENDS Fun
PolarMap(x, y) == [r2 |-> y, a |-> RMul(R2, x)]
\* the code looks at the square from its far corner
CX(p) == RSub(R1, RMul(R2, p))
ConcMap(px, py) ==
    LET x == CX(px) y == CX(py)
    IN  IF RSgn(x) = 0 /\ RSgn(y) = 0 THEN [r |-> R0, a |-> R0]
        ELSE IF RGt(RAbs(x), RAbs(y)) THEN [r |-> x, a |-> RMul(RFrac(1, 4), RDiv(y, x))]
        ELSE [r |-> y, a |-> RSub(RFrac(1, 2), RMul(RFrac(1, 4), RDiv(x, y)))]
\* cosine and sine of a*pi
CosSinPi(a) == LET k == SinCos(RMul(a, PiMid)) IN <<k.c, k.s>>
ConcPoint(px, py) == LET q == ConcMap(px, py) k == CosSinPi(q.a) IN <<RMul(q.r, k[1]), RMul(q.r, k[2])>>
PolarPoint(x, y) ==
    LET q == PolarMap(x, y) k == CosSinPi(q.a) r == IF RSgn(q.r2) = 0 THEN R0 ELSE RSqrt2(q.r2, 100)
    IN  <<RMul(r, k[1]), RMul(r, k[2])>>
=============================================================================
