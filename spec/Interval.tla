------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* Intervals as closed sets of reals, the exact image of every operation   *)
(* (properties C01, C03, C04), and the register machine of interval        *)
(* programs.                                                               *)
(*                                                                         *)
(* A set is [lo, hi], extended reals (module IEEE) with lo <= hi; its      *)
(* members are the reals between the bounds.  The exact image of an        *)
(* operation is described by its hull, again [lo, hi], or by Undef when    *)
(* a bound of it is undefined (0*inf, inf-inf, ...) and Empty when the     *)
(* operation is defined at no members.                                     *)
(***************************************************************************)
EXTENDS IEEE

Iv(lo, hi) == [lo |-> lo, hi |-> hi]
Undef == [lo |-> NaN, hi |-> NaN]
Empty == [lo |-> PInf, hi |-> NInf]
WellFormed(s) == ~IsNaN(s.lo) /\ ~IsNaN(s.hi) /\ ELe(s.lo, s.hi)
Finite(s) == IsFin(s.lo) /\ IsFin(s.hi)
IsPoint(s) == EEq(s.lo, s.hi)
Encloses(res, s) == ELe(res.lo, s.lo) /\ ELe(s.hi, res.hi)
Zero == Fin(R0)
One == Fin(R1)
ESgn(x) == IF x[1] = 0 THEN RSgn(x[2]) ELSE x[1]

(*********************** extended bound arithmetic *************************)
EAdd(x, y) == IF IsFin(x) /\ IsFin(y) THEN Fin(RAdd(x[2], y[2]))
              ELSE IF IsFin(x) THEN y ELSE IF IsFin(y) THEN x
              ELSE IF x = y THEN x ELSE NaN
EMul(x, y) == IF IsFin(x) /\ IsFin(y) THEN Fin(RMul(x[2], y[2]))
              ELSE IF ESgn(x) * ESgn(y) = 0 THEN NaN
              ELSE IF ESgn(x) * ESgn(y) > 0 THEN PInf ELSE NInf
EDiv(x, y) == IF ~IsFin(y) THEN (IF IsFin(x) THEN Zero ELSE NaN)
              ELSE IF IsFin(x) THEN Fin(RDiv(x[2], y[2]))       \* y # 0
              ELSE IF ESgn(x) * ESgn(y) > 0 THEN PInf ELSE NInf

Min4(a, b, c, d) == EMin(EMin(a, b), EMin(c, d))
Max4(a, b, c, d) == EMax(EMax(a, b), EMax(c, d))
HullOf4(p, q, r, s) == IF IsNaN(p) \/ IsNaN(q) \/ IsNaN(r) \/ IsNaN(s) THEN Undef
                       ELSE Iv(Min4(p, q, r, s), Max4(p, q, r, s))

(******************************** images ***********************************)
HNeg(a) == Iv(ENeg(a.hi), ENeg(a.lo))
HAdd(a, b) == LET l == EAdd(a.lo, b.lo)
                  h == EAdd(a.hi, b.hi)
              IN  IF IsNaN(l) \/ IsNaN(h) THEN Undef ELSE Iv(l, h)
HSub(a, b) == HAdd(a, HNeg(b))
HMul(a, b) == HullOf4(EMul(a.lo, b.lo), EMul(a.lo, b.hi), EMul(a.hi, b.lo), EMul(a.hi, b.hi))

RECURSIVE HDiv(_, _)
HDiv(a, b) ==
    CASE ESgn(b.lo) > 0 ->
            HullOf4(EDiv(a.lo, b.lo), EDiv(a.lo, b.hi), EDiv(a.hi, b.lo), EDiv(a.hi, b.hi))
      [] ESgn(b.hi) < 0 -> HDiv(HNeg(a), HNeg(b))
      [] ESgn(b.lo) = 0 /\ ESgn(b.hi) = 0 -> Empty
      [] ESgn(b.lo) < 0 /\ ESgn(b.hi) > 0 ->
            IF ESgn(a.lo) = 0 /\ ESgn(a.hi) = 0 THEN Iv(Zero, Zero) ELSE Iv(NInf, PInf)
      [] ESgn(b.lo) = 0 ->                        \* b = [0, h]
            LET l == IF ESgn(a.lo) < 0 THEN NInf ELSE EDiv(a.lo, b.hi)
                h == IF ESgn(a.hi) > 0 THEN PInf ELSE EDiv(a.hi, b.hi)
            IN  IF IsNaN(l) \/ IsNaN(h) THEN Undef ELSE Iv(l, h)
      [] OTHER -> HDiv(HNeg(a), HNeg(b))

ESq(x) == EMul(x, x)
HAbs(a) == IF ESgn(a.lo) >= 0 THEN a ELSE IF ESgn(a.hi) <= 0 THEN HNeg(a)
           ELSE Iv(Zero, EMax(ENeg(a.lo), a.hi))
HSquare(a) == Iv(ESq(HAbs(a).lo), ESq(HAbs(a).hi))
HSignum(a) == Iv(Fin(RInt(ESgn(a.lo))), Fin(RInt(ESgn(a.hi))))
HMin(a, b) == Iv(EMin(a.lo, b.lo), EMin(a.hi, b.hi))
HMax(a, b) == Iv(EMax(a.lo, b.lo), EMax(a.hi, b.hi))
HUnion(a, b) == Iv(EMin(a.lo, b.lo), EMax(a.hi, b.hi))
HInter(a, b) == IF ELt(EMin(a.hi, b.hi), EMax(a.lo, b.lo)) THEN Empty
                ELSE Iv(EMax(a.lo, b.lo), EMin(a.hi, b.hi))
\* x moved into [l, h], for every l in lo, h in hi (lo entirely below hi)
HClamp(a, lo, hi) == HMin(HMax(a, lo), hi)

Hull2(f, a, b) ==
    CASE f = "add" -> HAdd(a, b)
      [] f = "sub" -> HSub(a, b)
      [] f = "mul" -> HMul(a, b)
      [] f = "div" -> HDiv(a, b)
      [] f = "min" -> HMin(a, b)
      [] f = "max" -> HMax(a, b)
      [] f = "union" -> HUnion(a, b)
      [] f = "inter" -> HInter(a, b)
Hull1(f, a) ==
    CASE f = "neg" -> HNeg(a)
      [] f = "square" -> HSquare(a)
      [] f = "abs" -> HAbs(a)
      [] f = "signum" -> HSignum(a)
      [] f = "recip" -> HDiv(Iv(One, One), a)
      [] f = "id" -> a

(* the square root of the non-negative part: bounds compared by squaring *)
SqrtEncloses(res, a) ==
    \/ ESgn(a.hi) < 0
    \/ LET lo == EMax(a.lo, Zero)
       IN  /\ (ESgn(res.lo) <= 0 \/ ELe(ESq(res.lo), lo))
           /\ ESgn(res.hi) >= 0 /\ ELe(a.hi, ESq(res.hi))

(******************************* tightness *********************************)
\* y within n ulps of the exact x
WithinUlps(y, x, n, w) ==
    RLe(RAbs(RSub(y, x)), RMul(RInt(n), Ulp(RMax(RAbs(x), RAbs(y)), w)))
\* beyond the format the nearest floats are its ends and the infinities
InFormat(r, w) == IF RGt(r, MaxFin(w)) THEN MaxFin(w) ELSE IF RLt(r, RNeg(MaxFin(w))) THEN RNeg(MaxFin(w)) ELSE r
BoundTight(y, x, n, w) ==
    IsFin(x) => LET r == InFormat(Val(x), w)
                IN  IF IsFin(y) THEN WithinUlps(Val(y), r, n, w)
                    ELSE RGe(RAbs(r), RSub(MaxFin(w), RMul(RInt(n), Ulp(MaxFin(w), w))))
TightTo(res, s, n, w) == BoundTight(res.lo, s.lo, n, w) /\ BoundTight(res.hi, s.hi, n, w)
\* a lower approximation of the square root, relative error far below an ulp
SqrtApprox(r) == IF RSgn(r) <= 0 THEN R0
                 ELSE LET e == RLog2(r) IN RSqrt2(r, (IF e < 0 THEN (-e) \div 2 ELSE 0) + 70)
SqrtTight(res, a, n, w) ==
    Finite(res) /\ Finite(a) /\ ESgn(a.hi) >= 0
    => /\ WithinUlps(Val(res.lo), SqrtApprox(Val(a.lo)), n, w)
       /\ WithinUlps(Val(res.hi), SqrtApprox(Val(a.hi)), n, w)

(****************************** certainty **********************************)
\* o: what the comparisons answered for a versus b
CompareOk(o, a, b) ==
    LET below == ELt(a.hi, b.lo)
        above == ELt(b.hi, a.lo)
        same == IsPoint(a) /\ IsPoint(b) /\ EEq(a.lo, b.lo)
    IN  /\ o.lt = below
        /\ o.gt = above
        /\ (o.le => ELe(a.hi, b.lo)) /\ (below \/ same => o.le)
        /\ (o.ge => ELe(b.hi, a.lo)) /\ (above \/ same => o.ge)
        /\ o.eq = same
        /\ o.ne = ~same
        /\ (below => o.pc = -1) /\ (above => o.pc = 1) /\ (same => o.pc = 0)
        /\ (o.pc = -1 => ELe(a.hi, b.lo)) /\ (o.pc = 1 => ELe(b.hi, a.lo)) /\ (o.pc = 0 => same)
MemberOf(t, a) == ELe(a.lo, t) /\ ELe(t, a.hi)

(************************** the register machine ***************************)
(* Register contents: the enclosure held by the program and the exact real *)
(* value of one execution of the same program over the reals, where every  *)
(* load picked some member of the loaded interval.  The invariant of the   *)
(* machine, implied by inclusion at every step, is Sound.                  *)
NoWit == <<9, R0>>
HasWit(x) == x[1] = 0
Content(s, wit) == [iv |-> s, wit |-> wit]
Sound(c) == HasWit(c.wit) => MemberOf(c.wit, c.iv)

Wit2(f, x, y) ==
    IF ~HasWit(x) \/ ~HasWit(y) THEN NoWit
    ELSE CASE f = "add" -> Fin(RAdd(x[2], y[2]))
           [] f = "sub" -> Fin(RSub(x[2], y[2]))
           [] f = "mul" -> Fin(RMul(x[2], y[2]))
           [] f = "div" -> IF RSgn(y[2]) = 0 THEN NoWit ELSE Fin(RDiv(x[2], y[2]))
           [] f = "min" -> EMin(x, y)
           [] f = "max" -> EMax(x, y)
           [] f = "union" -> x
           [] OTHER -> NoWit
Wit1(f, x) ==
    IF ~HasWit(x) THEN NoWit
    ELSE CASE f = "neg" -> ENeg(x)
           [] f = "square" -> ESq(x)
           [] f = "abs" -> IF RSgn(x[2]) < 0 THEN ENeg(x) ELSE x
           [] f = "signum" -> Fin(RInt(RSgn(x[2])))
           [] f = "recip" -> IF RSgn(x[2]) = 0 THEN NoWit ELSE Fin(RDiv(R1, x[2]))
           [] f = "id" -> x
           [] OTHER -> NoWit

(* The results allowed for an operation: any enclosure of the exact image. *)
Allowed2(f, a, b, res) ==
    LET h == Hull2(f, a, b)
    IN  \/ h = Undef
        \/ WellFormed(res) /\ (h = Empty \/ Encloses(res, h))
Allowed1(f, a, res) ==
    IF f = "sqrt" THEN ESgn(a.hi) < 0 \/ (WellFormed(res) /\ SqrtEncloses(res, a))
    ELSE LET h == Hull1(f, a)
         IN  h = Undef \/ (WellFormed(res) /\ (h = Empty \/ Encloses(res, h)))
=============================================================================
