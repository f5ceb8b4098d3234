------------------------------- MODULE MCFun -------------------------------
(***************************************************************************)
(* Design model of the case analyses behind interval sine/cosine and the   *)
(* two-argument arctangent.                                                *)
(*                                                                         *)
(* Sine: only the shape matters.  The circle is cut into P = 4*H grid      *)
(* points per period at odd positions (so that no grid point is an         *)
(* extremum), the wave is a triangle wave with integer values; the         *)
(* algorithm (width tests against half and full period, sign of the        *)
(* derivative at both ends) must return the exact range of the wave.       *)
(*                                                                         *)
(* Atan2: the diamond angle d(x,y) - 1 - x/(|x|+|y|) in the upper half     *)
(* plane, its negative mirror below - is an exactly rational, strictly     *)
(* increasing function of the true angle with d = 2 for pi and 1 for pi/2, *)
(* and d(q,1) = q/(1+|q|) plays arctan; the quadrant analysis only uses    *)
(* monotonicity and atan2(y,x) = atan(y/x) (+- pi), which d shares.  The   *)
(* algorithm must enclose d on every member of the box.                    *)
(***************************************************************************)
EXTENDS Interval, TLC, Json, FiniteSets
CONSTANTS H,       \* grid points per quarter wave
          N        \* box bounds -N..N
P == 8 * H                                   \* period in half grid steps
Odd == {i \in 0 .. P - 1 : i % 2 = 1}
\* triangle wave: maximum at P/4, minimum at 3P/4 (even positions)
Wave(i) == LET k == i % P
           IN  IF k <= P \div 4 THEN k ELSE IF k <= (3 * P) \div 4 THEN P \div 2 - k ELSE k - P
Slope(i) == LET k == i % P IN IF k < P \div 4 \/ k > (3 * P) \div 4 THEN 1 ELSE -1
MaxI(S) == CHOOSE x \in S : \A y \in S : y <= x
MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
TrueRange(a, b) == LET S == {Wave(i) : i \in a .. b} IN <<MinI(S), MaxI(S)>>
Top == P \div 4
SinAlg(a, b) ==
    LET df == b - a
    IN  IF df >= P THEN <<-Top, Top>>
        ELSE IF Slope(a) = Slope(b) THEN
             IF 2 * df >= P THEN <<-Top, Top>>
             ELSE <<MinI({Wave(a), Wave(b)}), MaxI({Wave(a), Wave(b)})>>
        ELSE IF Slope(a) < 0 THEN <<-Top, MaxI({Wave(a), Wave(b)})>>
        ELSE <<MinI({Wave(a), Wave(b)}), Top>>

(* diamond angle *)
DAtan(q) == RDiv(q, RAdd(R1, RAbs(q)))
DAngle(y, x) == LET s == RAdd(RAbs(x), RAbs(y))
                    u == RSub(R1, RDiv(x, s))
                IN  IF RSgn(y) >= 0 THEN u ELSE RNeg(u)
DPi == R2
DHalf == R1
ExtAtan(e) == IF e = PInf THEN DHalf ELSE IF e = NInf THEN RNeg(DHalf) ELSE DAtan(e[2])
Quot(y, x) == IF RSgn(x[1]) > 0 \/ RSgn(x[2]) < 0
              THEN HDiv(Iv(Fin(y[1]), Fin(y[2])), Iv(Fin(x[1]), Fin(x[2]))) ELSE Iv(NInf, PInf)
MapAtan(s) == <<ExtAtan(s.lo), ExtAtan(s.hi)>>
Cap(r, lo, hi) == <<RMax(r[1], lo), RMin(r[2], hi)>>
IsZ(a) == RSgn(a[1]) = 0 /\ RSgn(a[2]) = 0
Shift(r, d) == <<RAdd(r[1], d), RAdd(r[2], d)>>
Hull(r, s) == <<RMin(r[1], s[1]), RMax(r[2], s[2])>>
RECURSIVE A2(_, _)
A2(y, x) ==
    IF IsZ(x) /\ IsZ(y) THEN <<R0, R0>>
    ELSE IF RSgn(x[1]) >= 0 THEN Cap(MapAtan(Quot(y, x)), RNeg(DHalf), DHalf)
    ELSE IF RSgn(x[2]) <= 0 THEN
        IF RSgn(y[1]) >= 0 THEN Cap(Shift(MapAtan(Quot(y, x)), DPi), DHalf, DPi)
        ELSE IF RSgn(y[2]) < 0 THEN Cap(Shift(MapAtan(Quot(y, x)), RNeg(DPi)), RNeg(DPi), RNeg(DHalf))
        ELSE <<RNeg(DPi), DPi>>
    ELSE Hull(A2(y, <<x[1], R0>>), A2(y, <<R0, x[2]>>))

Ints == -N .. N
Bx == {<<i, j>> \in Ints \X Ints : i <= j}
Qv(v) == <<RInt(v[1]), RInt(v[2])>>
\* members: grid of quarter steps
Members(v) == {RFrac(k, 2) : k \in 2 * v[1] .. 2 * v[2]}

VARIABLES mode, a, b
vars == <<mode, a, b>>
Init == \/ mode = "sin" /\ a \in {<<i, i>> : i \in Odd} /\ b \in {<<i, i>> : i \in {2 * j : j \in 0 .. P}}
        \/ mode = "atan2" /\ a \in Bx /\ b \in Bx
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

SinRange == mode = "sin" => SinAlg(a[1], a[1] + b[1]) = TrueRange(a[1], a[1] + b[1])
AngleIn(r, y, x) == RSgn(y) # 0 \/ RSgn(x) # 0 => RLe(r[1], DAngle(y, x)) /\ RLe(DAngle(y, x), r[2])
Atan2Encl == mode = "atan2" =>
    LET r == A2(Qv(a), Qv(b))
    IN  \A y \in Members(a), x \in Members(b) : AngleIn(r, y, x)
\* the corner argument of module Fun: hull of the corner angles = hull over all members
CornerHull == mode = "atan2" =>
    LET cut == a[1] < 0 /\ a[2] >= 0 /\ b[1] < 0
        S == {<<y, x>> \in Members(a) \X Members(b) : RSgn(y) # 0 \/ RSgn(x) # 0}
        C == {c \in S : c[1] \in {RInt(a[1]), RInt(a[2])} /\ c[2] \in {RInt(b[1]), RInt(b[2])}}
    IN  cut \/ \A s \in S : /\ \E c \in C : RLe(DAngle(c[1], c[2]), DAngle(s[1], s[2]))
                            /\ \E c \in C : RGe(DAngle(c[1], c[2]), DAngle(s[1], s[2]))
Export == PrintT("SCN " \o ToJson([m |-> mode, a |-> a, b |-> b, P |-> P]))
=============================================================================
