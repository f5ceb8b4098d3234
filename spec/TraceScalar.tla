---------------------------- MODULE TraceScalar ----------------------------
(***************************************************************************)
(* Recorded scalar helpers against module Scalar.                          *)
(*   lim    identity and limit constants of a type                         *)
(*   ord    order helpers on x, y and a range [lo, hi]                     *)
(*   sgn    sign helpers on x                                              *)
(*   cls    classification of any float (NaN and infinities included)      *)
(*   fcon   float constants                                                *)
(*   cast   conversions                                                    *)
(*   close  approximate equality both ways round                           *)
(*   comp   approximate equality of a composite and of its components      *)
(***************************************************************************)
EXTENDS TraceBase, Scalar
VARIABLE l

Eq(ty, v, r) == IsNum(ty, v) /\ Value(ty, v) = r
LimOk(e) == LET t == e.ty o == e.o
            IN  Eq(t, o.zero, R0) /\ Eq(t, o.one, R1) /\ Eq(t, o.two, R2)
                /\ Eq(t, o.low, Lowest(t)) /\ Eq(t, o.high, Highest(t))
OrdOk(e) ==
    LET t == e.ty o == e.o
        x == Value(t, e.x) y == Value(t, e.y) lo == Value(t, e.lo) hi == Value(t, e.hi)
    IN  /\ Eq(t, o.min, SMin(x, y)) /\ Eq(t, o.max, SMax(x, y))
        /\ Eq(t, o.mm[1], SMin(x, y)) /\ Eq(t, o.mm[2], SMax(x, y))
        /\ Eq(t, o.clamp, SClamp(x, lo, hi))
        /\ o.inr = SIn(x, lo, hi)
        /\ o.iszero = (RSgn(x) = 0) /\ o.isone = (x = R1)
        /\ (t \in IntTypes => o.aeq = (x = y))
SqOk(e) == LET t == e.ty x == Value(t, e.x)
           IN  IF t \in IntTypes THEN (Fits(t, RSq(x)) => Eq(t, e.o, RSq(x)))
               ELSE RoundedTo(Dec(e.o), RSq(x), Bits(t))
SgnOk(e) ==
    LET t == e.ty x == Value(t, e.x) o == e.o s == RSgn(x)
    IN  /\ o.pos = (s > 0) /\ o.neg = (s < 0) /\ o.npos = (s <= 0) /\ o.nneg = (s >= 0)
        /\ Eq(t, o.sig, RInt(s)) /\ Eq(t, o.abs, RAbs(x))
ClsOk(e) == LET x == Dec(e.x) IN e.o.nan = IsNaN(x) /\ e.o.fin = IsFin(x) /\ e.o.inf = IsInf(x)

PiOver(v, d, w) == IsFin(Dec(v)) /\ RoundedTo(Dec(v), RDiv(PiMid, RInt(d)), w)
PiBelow(v, r) == IsFin(Dec(v)) /\ RLe(DecV(v), r)
PiAbove(v, r) == IsFin(Dec(v)) /\ RGe(DecV(v), r)
Bracket(lo, hi, r, w) == PiBelow(lo, r) /\ PiAbove(hi, r) /\ RLe(RSub(DecV(hi), DecV(lo)), RMul(R2, Ulp(r, w)))
FconOk(e) ==
    LET o == e.o w == e.w
    IN  /\ PiOver(o.pi, 1, w) /\ PiOver(o.pi2, 2, w) /\ PiOver(o.pi4, 4, w)
        /\ IsFin(Dec(o.tau)) /\ RoundedTo(Dec(o.tau), RMul(R2, PiMid), w)
        /\ Bracket(o.pil, o.pih, PiMid, w) /\ Bracket(o.taul, o.tauh, RMul(R2, PiMid), w)
        /\ Bracket(o.pi2l, o.pi2h, HalfPi, w) /\ Bracket(o.pi4l, o.pi4h, RHalf(HalfPi), w)
        /\ Dec(o.half) = Fin(RHalf(R1)) /\ IsNaN(Dec(o.nan)) /\ Dec(o.inf) = PInf /\ Dec(o.ninf) = NInf
        /\ Dec(o.nzero) = Fin(R0) /\ Neg32(o.nzero[1])
        /\ Dec(o.minpos) = Fin(RPow2(EMinSub(w) + MBits(w)))
        /\ RoundedTo(Dec(o.aeps), AbsTol, w) /\ RoundedTo(Dec(o.reps), RelTol(w), w)
CastOk(e) ==
    LET x == DecV(e.x) o == e.o
    IN  /\ IntVal(o.i) = ToI64(x)
        /\ RoundedTo(Dec(o.f32), x, 32) /\ Dec(o.f64) = Fin(x)
        /\ RoundedTo(Dec(o.fi), IntVal(e.k), e.w)
        /\ RoundedTo(Dec(o.ff32), DecV(e.g), e.w) /\ RoundedTo(Dec(o.ff64), DecV(e.h), e.w)
CloseVerdict(e) ==
    LET x == DecV(e.x) y == DecV(e.y) w == WidthOf(e.x)
    IN  IF e.o.xy # e.o.yx THEN "not symmetric"
        ELSE IF e.o.ae # e.o.xy THEN "two names for one relation disagree"
        ELSE Say(CloseOk(e.o.xy, x, y, w), "wrong side of the threshold")
All(s) == \A i \in 1 .. Len(s) : s[i]

Verdict(e) ==
    CASE e.panic -> "panic"
      [] e.e = "lim" -> Say(LimOk(e), "constant of the type")
      [] e.e = "ord" -> Say(OrdOk(e), "order helper")
      [] e.e = "sq" -> Say(SqOk(e), "square")
      [] e.e = "sgn" -> Say(SgnOk(e), "sign helper")
      [] e.e = "cls" -> Say(ClsOk(e), "classification")
      [] e.e = "fcon" -> Say(FconOk(e), "float constant")
      [] e.e = "cast" -> Say(CastOk(e), "conversion")
      [] e.e = "close" -> CloseVerdict(e)
      [] e.e = "comp" -> Say(e.o.r = All(e.c), "not the conjunction over components")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
