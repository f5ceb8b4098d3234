------------------------------- MODULE Sphere -------------------------------
(***************************************************************************)
(* A ray against a patch of a sphere about the origin (C17, C18).          *)
(* A patch is [r, z0, z1, ph]: the points at distance r with z in [z0, z1] *)
(* and azimuth in [-pi, ph].  The line o + t*d meets the sphere where      *)
(* a t^2 + 2 h t + c = 0.                                                  *)
(***************************************************************************)
EXTENDS Vec, Fun
S3 == 1 .. 3
PointAt(o, d, t) == [k \in S3 |-> RAdd(o[k], RMul(d[k], t))]
QA(d) == VSq(d)
QH(o, d) == VDot(o, d)
QC(o, r) == RSub(VSq(o), RSq(r))
Disc(o, d, r) == RSub(RSq(QH(o, d)), RMul(QA(d), QC(o, r)))
\* the square root of x > 0, from below, to 60 significant bits
SqrtLo(x) == RSqrt2(x, 60 - (RLog2(x) \div 2))
SqrtEq(x) == LET s == SqrtLo(x) IN RSq(s) = x
\* the two parameters (to 60 bits), first <= last; disc >= 0
Roots(o, d, r) ==
    LET D == Disc(o, d, r) s == IF RSgn(D) = 0 THEN R0 ELSE SqrtLo(D) h == QH(o, d) a == QA(d)
    IN  <<RDiv(RSub(RNeg(h), s), a), RDiv(RAdd(RNeg(h), s), a)>>
FullTurn(s) == RGe(s.ph, PiMid)

(*** three-valued membership of an uncertain candidate ***)
\* the x lies in [lo, hi], known to within e: "yes", "no" or "maybe"
Within(x, lo, hi, e) ==
    IF RLe(lo, RSub(x, e)) /\ RLe(RAdd(x, e), hi) THEN "yes"
    ELSE IF RLt(RAdd(x, e), lo) \/ RLt(hi, RSub(x, e)) THEN "no" ELSE "maybe"
And3(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "yes" /\ b = "yes" THEN "yes" ELSE "maybe"
\* azimuth of the points (x +- ex, y +- ey) against the limit ph (rounded by eta)
XYCorners(x, y, ex, ey) == {RSub(x, ex), RAdd(x, ex)} \X {RSub(y, ey), RAdd(y, ey)}
Azimuth(s, x, y, ex, ey, eta) ==
    IF FullTurn(s) THEN "yes"
    ELSE LET onCut == RLe(RAbs(y), ey) /\ RLe(x, ex)         \* the cut or the axis is within reach
             cs == XYCorners(x, y, ex, ey)
         IN  IF onCut THEN "maybe"
             ELSE IF \A c \in cs : GeAtan2(RSub(s.ph, eta), c[2], c[1]) THEN "yes"
             ELSE IF \A c \in cs : ~GeAtan2(RAdd(s.ph, eta), c[2], c[1]) THEN "no" ELSE "maybe"

(*** the surface coordinates and tangents at a point p of the patch ***)
Rho(p) == LET q == RAdd(RSq(p[1]), RSq(p[2])) IN IF RSgn(q) = 0 THEN R0 ELSE SqrtLo(q)
\* t is within eta of acos(x), x known to within dl
AcosNear(t, x, dl, eta) ==
    /\ LeAcos(RSub(t, eta), RMax(RSub(x, dl), RNeg(R1)))
    /\ GeAcos(RAdd(t, eta), RMin(RAdd(x, dl), R1))
\* t is within eta of the azimuth of (x, y), modulo a turn where allowed
AzNear(t, y, x, eta, wrap) ==
    \/ LeAtan2(RSub(t, eta), y, x) /\ GeAtan2(RAdd(t, eta), y, x)
    \/ wrap /\ LET u == RAdd(t, TwoPi) IN LeAtan2(RSub(u, eta), y, x) /\ GeAtan2(RAdd(u, eta), y, x)
    \/ wrap /\ LET u == RSub(t, TwoPi) IN LeAtan2(RSub(u, eta), y, x) /\ GeAtan2(RAdd(u, eta), y, x)
=============================================================================
