------------------------------- MODULE MCDisk -------------------------------
(***************************************************************************)
(* Design model: on the grid of N x N cells both maps stay in the disk,    *)
(* the concentric map sends each square ring to the circle of its size and *)
(* is continuous across the diagonals, and equal areas go to equal areas:  *)
(* the image of the part of the square up to a grid point has pi times     *)
(* (polar) resp. pi/4 times (concentric, square of side 2) its area.       *)
(***************************************************************************)
EXTENDS Disk, TLC, Json
CONSTANTS N
VARIABLES gx, gy
Init == gx \in 0 .. N /\ gy = -1
Next == gy = -1 /\ gy' \in 0 .. N /\ UNCHANGED gx
Spec == Init /\ [][Next]_<<gx, gy>>
X == RFrac(gx, N)
Y == RFrac(gy, N)
Ready == gy >= 0
Q == ConcMap(X, Y)
InDisk == Ready => RLe(RAbs(Q.r), R1) /\ RLe(PolarMap(X, Y).r2, R1)
\* concentric squares to circles
Rings == Ready => RAbs(Q.r) = RMax(RAbs(CX(X)), RAbs(CX(Y)))
\* each quarter keeps its direction: angle within a quarter turn of its middle
Quarter == Ready => LET x == CX(X) y == CX(Y) c == CosSinPi(Q.a) IN
    IF RSgn(x) = 0 /\ RSgn(y) = 0 THEN TRUE
    ELSE IF RGt(RAbs(x), RAbs(y)) THEN RSgn(c[1]) > 0 /\ RGe(RAdd(c[1], RPow2(-100)), RAbs(c[2]))
    ELSE RSgn(c[2]) > 0 /\ RGe(RAdd(c[2], RPow2(-100)), RAbs(c[1]))
\* on a diagonal both formulas give the same point
Near2(p, q) == RNear(p[1], q[1], RPow2(-100)) /\ RNear(p[2], q[2], RPow2(-100))
AsX(x, y) == LET c == CosSinPi(RMul(RFrac(1, 4), RDiv(y, x))) IN <<RMul(x, c[1]), RMul(x, c[2])>>
AsY(x, y) == LET c == CosSinPi(RSub(RFrac(1, 2), RMul(RFrac(1, 4), RDiv(x, y)))) IN <<RMul(y, c[1]), RMul(y, c[2])>>
Seams == Ready => LET x == CX(X) y == CX(Y) IN
    (RSgn(x) # 0 /\ RAbs(x) = RAbs(y)) => Near2(AsX(x, y), AsY(x, y))
\* areas (in units of pi): sector of the image against the part of the square
PolarArea == Ready => RMul(PolarMap(X, Y).r2, RHalf(PolarMap(X, Y).a)) = RMul(X, Y)
ConcArea == Ready => LET x == CX(X) y == CX(Y) IN
    \* the triangle (0,0), (x,0), (x,y) against the sector of radius x from angle 0
    RGt(RAbs(x), RAbs(y)) => RHalf(RMul(RSq(Q.r), RAbs(Q.a))) = RMul(RFrac(1, 4), RHalf(RAbs(RMul(x, y))))
Export == ~Ready \/ PrintT("SCN " \o ToJson([i |-> gx, k |-> gy, n |-> N]))
=============================================================================
