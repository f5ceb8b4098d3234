-------------------------------- MODULE Fun --------------------------------
(***************************************************************************)
(* Elementary functions of intervals (properties C02 and, for tightness,   *)
(* C04).  The true functions are never approximated by floats: a bound is  *)
(* compared with the exact value by the defining inequality (lo <= asin a  *)
(* iff sin lo <= a, and so on), where sine and cosine at a rational point  *)
(* are known to within Trig!SinCos(..).e < 2^-140.                         *)
(***************************************************************************)
EXTENDS Interval, Trig

TwoPi == RMul(R2, PiMid)

(**** sine and cosine of [a, b]: exact extrema plus the end points ****)
\* is there an integer k with off + 2*pi*k in [a, b]?  (off a multiple of pi/2)
HasPhase(a, b, off) ==
    RLe(RCeil2(RDiv(RSub(a, off), TwoPi), 0), RFloor2(RDiv(RSub(b, off), TwoPi), 0))
MaxOfSin(a, b) == HasPhase(a, b, HalfPi)
MinOfSin(a, b) == HasPhase(a, b, RNeg(HalfPi))
\* cosine has its extrema at multiples of pi, of which 0 is rational
MaxOfCos(a, b) == HasPhase(a, b, R0)
MinOfCos(a, b) == HasPhase(a, b, PiMid)

\* range of the function over [a,b]: [lo, hi] known to within err
RangeSC(f, a, b) ==
    LET p == SinCos(a)
        q == SinCos(b)
        x == IF f = "sin" THEN p.s ELSE p.c
        y == IF f = "sin" THEN q.s ELSE q.c
        mx == IF f = "sin" THEN MaxOfSin(a, b) ELSE MaxOfCos(a, b)
        mn == IF f = "sin" THEN MinOfSin(a, b) ELSE MinOfCos(a, b)
    IN  [lo |-> IF mn THEN RNeg(R1) ELSE RMin(x, y),
         hi |-> IF mx THEN R1 ELSE RMax(x, y),
         err |-> RMax(p.e, q.e)]

SinCosEncloses(f, r, a, b) ==
    LET g == RangeSC(f, a, b)
    IN  /\ (r.lo = NInf \/ (IsFin(r.lo) /\ RLe(Val(r.lo), RAdd(g.lo, g.err))))
        /\ (r.hi = PInf \/ (IsFin(r.hi) /\ RGe(Val(r.hi), RSub(g.hi, g.err))))

NearUlps(y, x, err, n, w) ==
    RLe(RAbs(RSub(y, x)), RAdd(err, RMul(RInt(n), Ulp(RMax(RAbs(x), RAbs(y)), w))))
SinCosTight(f, r, a, b, n, w) ==
    LET g == RangeSC(f, a, b)
    IN  /\ IsFin(r.lo) /\ NearUlps(Val(r.lo), g.lo, g.err, n, w)
        /\ IsFin(r.hi) /\ NearUlps(Val(r.hi), g.hi, g.err, n, w)

(**** inverse functions: t <= f(v) and t >= f(v) for rationals t, v ****)
\* asin, v in [-1,1]
LeAsin(t, v) == \/ RLe(t, RNeg(HalfPi))
                \/ RLe(t, HalfPi) /\ LET k == SinCos(t) IN RLe(k.s, RAdd(v, k.e))
GeAsin(t, v) == \/ RGe(t, HalfPi)
                \/ RGe(t, RNeg(HalfPi)) /\ LET k == SinCos(t) IN RGe(k.s, RSub(v, k.e))
LeAcos(t, v) == \/ RSgn(t) <= 0
                \/ RLe(t, PiMid) /\ LET k == SinCos(t) IN RGe(k.c, RSub(v, k.e))
GeAcos(t, v) == \/ RGe(t, PiMid)
                \/ RSgn(t) >= 0 /\ LET k == SinCos(t) IN RLe(k.c, RAdd(v, k.e))
Slack(k, v) == RMul(k.e, RAdd(R1, RAbs(v)))
LeAtan(t, v) == \/ RLe(t, RNeg(HalfPi))
                \/ RLt(t, HalfPi) /\ LET k == SinCos(t) IN RLe(k.s, RAdd(RMul(v, k.c), Slack(k, v)))
GeAtan(t, v) == \/ RGe(t, HalfPi)
                \/ RGt(t, RNeg(HalfPi)) /\ LET k == SinCos(t) IN RGe(k.s, RSub(RMul(v, k.c), Slack(k, v)))

\* the angle of the direction (x, y) # (0, 0), principal value in (-pi, pi]
UpperHalf(y) == RSgn(y) >= 0
LeAtan2(t, y, x) ==
    \/ RLe(t, RNeg(PiMid))
    \/ /\ RLe(t, PiMid)
       /\ \/ RSgn(t) < 0 /\ UpperHalf(y)
          \/ /\ (RSgn(t) >= 0) = UpperHalf(y)
             /\ LET k == SinCos(t)
                IN  RGe(RSub(RMul(k.c, y), RMul(k.s, x)), RNeg(RMul(k.e, RAdd(RAbs(x), RAbs(y)))))
GeAtan2(t, y, x) ==
    \/ RGe(t, PiMid)
    \/ /\ RGe(t, RNeg(PiMid))
       /\ \/ RSgn(t) >= 0 /\ ~UpperHalf(y)
          \/ /\ (RSgn(t) >= 0) = UpperHalf(y)
             /\ LET k == SinCos(t)
                IN  RLe(RSub(RMul(k.c, y), RMul(k.s, x)), RMul(k.e, RAdd(RAbs(x), RAbs(y))))

LeB(P(_, _), t, v) == t = NInf \/ (IsFin(t) /\ P(Val(t), v))
GeB(P(_, _), t, v) == t = PInf \/ (IsFin(t) /\ P(Val(t), v))

\* the corners of Y x X other than the origin
CornersOf(yl, yh, xl, xh) == {<<y, x>> \in {yl, yh} \X {xl, xh} : RSgn(y) # 0 \/ RSgn(x) # 0}
\* the set of directions meets both sides of the cut along the negative axis
MeetsCut(yl, yh, xl) == RSgn(yl) < 0 /\ RSgn(yh) >= 0 /\ RSgn(xl) < 0
Atan2Encloses(r, yl, yh, xl, xh) ==
    IF MeetsCut(yl, yh, xl)
    THEN /\ (r.lo = NInf \/ (IsFin(r.lo) /\ RLe(Val(r.lo), RNeg(PiLo))))
         /\ (r.hi = PInf \/ (IsFin(r.hi) /\ RGe(Val(r.hi), PiLo)))
    ELSE \A c \in CornersOf(yl, yh, xl, xh) :
            /\ (r.lo = NInf \/ (IsFin(r.lo) /\ LeAtan2(Val(r.lo), c[1], c[2])))
            /\ (r.hi = PInf \/ (IsFin(r.hi) /\ GeAtan2(Val(r.hi), c[1], c[2])))

\* tangent: unbounded when a pole lies inside, monotone otherwise
HasPole(a, b) == MaxOfSin(a, b) \/ MinOfSin(a, b)
\* t <= tan v, v not a pole
LeTan(t, v) == LET k == SinCos(v)
                   d == RMul(k.e, RAdd(R1, RAbs(t)))
               IN  IF RSgn(k.c) > 0 THEN RLe(RMul(t, k.c), RAdd(k.s, d)) ELSE RGe(RMul(t, k.c), RSub(k.s, d))
GeTan(t, v) == LET k == SinCos(v)
                   d == RMul(k.e, RAdd(R1, RAbs(t)))
               IN  IF RSgn(k.c) > 0 THEN RGe(RMul(t, k.c), RSub(k.s, d)) ELSE RLe(RMul(t, k.c), RAdd(k.s, d))
TanEncloses(r, a, b) ==
    IF HasPole(a, b) THEN r.lo = NInf /\ r.hi = PInf
    ELSE LeB(LeTan, r.lo, a) /\ GeB(GeTan, r.hi, b)

FunEncloses(f, r, x) ==
    LET a == Val(x.lo) b == Val(x.hi)
    IN  CASE f \in {"sin", "cos"} -> SinCosEncloses(f, r, a, b)
          [] f = "tan" -> TanEncloses(r, a, b)
          [] f = "asin" -> LeB(LeAsin, r.lo, a) /\ GeB(GeAsin, r.hi, b)
          [] f = "acos" -> LeB(LeAcos, r.lo, b) /\ GeB(GeAcos, r.hi, a)
          [] f = "atan" -> LeB(LeAtan, r.lo, a) /\ GeB(GeAtan, r.hi, b)

(**** tightness of the inverse functions at a point v ****)
Plus(t, n, w) == RAdd(t, RMul(RInt(n), Ulp(t, w)))
Minus(t, n, w) == RSub(t, RMul(RInt(n), Ulp(t, w)))
FunTight(f, r, x, n, w) ==
    LET a == Val(x.lo) b == Val(x.hi)
        up == Plus(Val(r.lo), n, w)
        dn == Minus(Val(r.hi), n, w)
    IN  CASE f \in {"sin", "cos"} -> SinCosTight(f, r, a, b, n, w)
          [] f = "asin" -> Finite(r) /\ GeAsin(up, a) /\ LeAsin(dn, b)
          [] f = "acos" -> Finite(r) /\ GeAcos(up, b) /\ LeAcos(dn, a)
          [] f = "atan" -> Finite(r) /\ GeAtan(up, a) /\ LeAtan(dn, b)
          [] OTHER -> TRUE
\* in units of pi
Atan2Tight(r, y, x, n, w) ==
    /\ Finite(r)
    /\ GeAtan2(RAdd(Val(r.lo), RMul(RInt(n), Ulp(RInt(3), w))), y, x)
    /\ LeAtan2(RSub(Val(r.hi), RMul(RInt(n), Ulp(RInt(3), w))), y, x)

(**** scalar functions: the float o stands within n units of the last place of f(v) ****)
ScalarNear(f, o, v, n, w) ==
    LET up == Plus(o, n, w) dn == Minus(o, n, w)
    IN  CASE f \in {"sin", "cos"} -> LET g == RangeSC(f, v, v) IN NearUlps(o, g.lo, g.err, n, w)
          [] f = "tan" -> GeTan(up, v) /\ LeTan(dn, v)
          [] f = "asin" -> GeAsin(up, v) /\ LeAsin(dn, v)
          [] f = "acos" -> GeAcos(up, v) /\ LeAcos(dn, v)
          [] f = "atan" -> GeAtan(up, v) /\ LeAtan(dn, v)
          \* correctly rounded: the midpoints to the neighbours enclose the root
          [] f = "sqrt" -> RSgn(o) >= 0 /\ RLe(RSq(RMax(R0, RSub(o, RHalf(Ulp(o, w))))), v) /\ RLe(v, RSq(RAdd(o, RHalf(Ulp(o, w)))))
\* the angle of (x, y); on the cut the sign of the zero y chooses the side
Atan2Near(o, y, x, yneg, n, w) ==
    IF RSgn(y) = 0 /\ RSgn(x) < 0
    THEN RSgn(o) = (IF yneg THEN -1 ELSE 1) /\ RLe(RAbs(RSub(RAbs(o), PiMid)), RMul(RInt(n), Ulp(RInt(3), w)))
    ELSE IF RSgn(y) = 0 THEN RSgn(x) = 0 \/ RSgn(o) = 0
    ELSE GeAtan2(Plus(o, n, w), y, x) /\ LeAtan2(Minus(o, n, w), y, x)

\* constants: c is pi/d
ConstOk(r, d) == Finite(r) /\ RLe(RMul(Val(r.lo), d), PiHi) /\ RGe(RMul(Val(r.hi), d), PiLo)
=============================================================================
