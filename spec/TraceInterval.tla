--------------------------- MODULE TraceInterval ---------------------------
(***************************************************************************)
(* Recorded interval programs against module Interval.                     *)
(*   load  register d := an interval; the exact execution picks the member *)
(*         lo + (hi-lo)*k/4                                                *)
(*   op2 / op1 / op3   register d := f(registers), one public operation    *)
(*   ops   register d := f(register a, scalar s)                           *)
(*   cmp / cmps / query / set / conv   comparisons and set queries         *)
(* C01 asks for inclusion (per step and along programs), C04 for tightness,*)
(* C03 for the comparisons and queries.                                    *)
(***************************************************************************)
EXTENDS TraceBase, Interval, Scalar, Ulp
VARIABLES l, reg, w
vars == <<l, reg, w>>

D(iv) == Iv(Dec(iv.lo), Dec(iv.hi))
NoReg == Content(Iv(Zero, Zero), NoWit)

TIGHT == 4
TightOps == {"add", "sub", "mul", "div", "neg", "square", "min", "max"}

\* scalar operand as a point set
PointOf(s) == Iv(Dec(s), Dec(s))
A(e) == reg[e.a].iv
B(e) == IF e.e = "ops" THEN PointOf(e.s) ELSE reg[e.b].iv

\* the exact image of the event's operation, and the exact execution's value
HullE(e) == CASE e.e \in {"op2", "ops"} -> Hull2(e.f, A(e), B(e))
              [] e.e = "op1" -> Hull1(e.f, A(e))
              [] e.e = "op3" -> HClamp(A(e), reg[e.b].iv, reg[e.c].iv)
WitE(e) == CASE e.e = "op2" -> Wit2(e.f, reg[e.a].wit, reg[e.b].wit)
             [] e.e = "ops" -> Wit2(e.f, reg[e.a].wit, IF IsFin(Dec(e.s)) THEN Dec(e.s) ELSE NoWit)
             [] e.e = "op1" -> Wit1(e.f, reg[e.a].wit)
             [] e.e = "op3" -> IF HasWit(reg[e.a].wit) /\ HasWit(reg[e.b].wit) /\ HasWit(reg[e.c].wit)
                               THEN EMin(EMax(reg[e.a].wit, reg[e.b].wit), reg[e.c].wit) ELSE NoWit

IncluVerdict(e) ==
    IF e.e = "op1" /\ e.f = "sqrt" THEN
        IF ESgn(A(e).hi) < 0 THEN "ok"
        ELSE IF e.panic THEN "panic"
        ELSE LET r == D(e.o)
             IN  IF ~WellFormed(r) THEN "not an interval"
                 ELSE Say(SqrtEncloses(r, A(e)), "result misses the square root of a member")
    ELSE LET h == HullE(e)
         IN  IF h = Undef THEN "ok"
             ELSE IF e.panic THEN "panic"
             ELSE LET r == D(e.o)
                  IN  IF ~WellFormed(r) THEN "not an interval"
                      ELSE IF h = Empty THEN "ok"
                      ELSE IF ~Encloses(r, h) THEN "result misses the image of a member"
                      ELSE Say(Sound(Content(r, WitE(e))), "program value escapes its enclosure")

TightVerdict(e) ==
    IF e.panic THEN "ok"
    ELSE LET r == D(e.o)
         IN  IF ~WellFormed(r) THEN "ok"
             ELSE IF e.e = "op1" /\ e.f = "sqrt" THEN Say(SqrtTight(r, A(e), TIGHT, w), "square root too wide")
             ELSE IF ~(e.e \in {"op1", "op2", "ops"} /\ e.f \in TightOps) THEN "ok"
             ELSE IF ~Finite(A(e)) \/ (e.e # "op1" /\ ~Finite(B(e))) THEN "ok"
             ELSE IF e.f = "div" /\ ESgn(B(e).lo) <= 0 /\ ESgn(B(e).hi) >= 0 THEN "ok"
             ELSE LET h == HullE(e)
                  IN  IF h = Undef \/ h = Empty \/ ~Finite(h) THEN "ok"
                      ELSE Say(TightTo(r, h, TIGHT, w), "enclosure too wide")

SameIv(r, s) == ~IsNaN(r.lo) /\ ~IsNaN(r.hi) /\ EEq(r.lo, s.lo) /\ EEq(r.hi, s.hi)

QueryOk(o, a, t, u) ==
    /\ o.pos = (ESgn(a.lo) > 0) /\ o.neg = (ESgn(a.hi) < 0)
    /\ o.nonpos = (ESgn(a.hi) <= 0) /\ o.nonneg = (ESgn(a.lo) >= 0)
    \* through the generic interface: ordering tests against zero
    /\ o.tpos = (ESgn(a.lo) > 0) /\ o.tneg = (ESgn(a.hi) < 0)
    /\ (o.tnonpos => ESgn(a.hi) <= 0) /\ (ESgn(a.hi) < 0 => o.tnonpos)
    /\ (o.tnonneg => ESgn(a.lo) >= 0) /\ (ESgn(a.lo) > 0 => o.tnonneg)
    /\ o.exact = IsPoint(a)
    /\ o.has = MemberOf(t, a)
    /\ o.range = (ELe(t, a.lo) /\ ELe(a.hi, u))
    /\ o.fin = Finite(a)
    /\ o.inf = (IsInf(a.lo) /\ IsInf(a.hi) /\ a.lo = a.hi)
    /\ ~o.nan
    /\ o.zero = (IsPoint(a) /\ ESgn(a.lo) = 0)
    /\ o.one = (IsPoint(a) /\ a.lo = One)

Sum(x) == EAdd(x.lo, x.hi)
ApproxOk(o, a, wd) ==
    \* bounds whose sum does not overflow
    (Finite(a) /\ RLe(RAbs(Val(Sum(a))), MaxFin(wd)))
    => LET p == Dec(o.approx) q == Dec(o.conv)
       IN  ~IsNaN(p) /\ ~IsNaN(q) /\ MemberOf(p, a) /\ MemberOf(q, a)

SetVerdict(e) ==
    LET a == D(e.x) b == D(e.y) o == e.o i == HInter(a, b)
    IN  IF ~SameIv(D(o.union), HUnion(a, b)) THEN "union is not the hull"
        ELSE IF i # Empty /\ (e.ipanic \/ ~SameIv(D(o.inter), i)) THEN "wrong intersection"
        ELSE IF i = Empty /\ ~e.ipanic /\ WellFormed(D(o.inter)) THEN "intersection of disjoint sets has members"
        ELSE Say(o.same = (EEq(a.lo, b.lo) /\ EEq(a.hi, b.hi)), "is_same")

\* the number r as an interval of width wd: contains r or its rounding, and is at most an ulp off it
StandsFor(iv, r, wd) ==
    /\ WellFormed(D(iv))
    /\ \/ RoundedTo(D(iv).lo, r, wd) /\ RoundedTo(D(iv).hi, r, wd)
       \/ (Finite(D(iv)) \/ RGt(RAbs(r), MaxFin(wd))) /\ Encloses(D(iv), Iv(Fin(r), Fin(r))) /\ TightTo(D(iv), Iv(Fin(r), Fin(r)), 2, wd)
\* some member converts to the recorded number
GflOk(e) ==
    LET x == D(e.x) o == e.o wd == WidthOf(e.x.lo)
    IN  /\ IsNextUp(e.x.lo, o.up.lo) /\ IsNextUp(e.x.hi, o.up.hi)
        /\ IsNextDown(e.x.lo, o.dn.lo) /\ IsNextDown(e.x.hi, o.dn.hi)
        /\ StandsFor(o.fi, IntVal(e.k), wd) /\ StandsFor(o.ff32, DecV(e.g), wd) /\ StandsFor(o.ff64, DecV(e.h), wd)
        /\ (Finite(x) /\ RLe(RAbs(Val(Sum(x))), MaxFin(wd))) =>
              LET i == IntVal(o.i) f == Dec(o.f32) d == Dec(o.f64)
              IN  /\ RLe(ToI64(Val(x.lo)), i) /\ RLe(i, ToI64(Val(x.hi)))
                  /\ ~IsNaN(d) /\ MemberOf(d, x)
                  /\ ~IsNaN(f) /\ RoundedTo(f, Val(d), 32)
At1(iv, v) == SameIv(D(iv), Iv(v, v))
Near1(iv, r, wd) == WellFormed(D(iv)) /\ TightTo(D(iv), Iv(Fin(r), Fin(r)), 2, wd)
LimitsOk(o, wd) ==
    /\ At1(o.low, Fin(RNeg(MaxFin(wd)))) /\ At1(o.high, Fin(MaxFin(wd)))
    /\ At1(o.inf, PInf) /\ At1(o.ninf, NInf) /\ At1(o.nzero, Zero)
    /\ At1(o.minpos, Fin(RPow2(EMinSub(wd) + MBits(wd)))) /\ At1(o.half, Fin(RHalf(R1)))
    /\ Near1(o.aeps, AbsTol, wd) /\ Near1(o.reps, RelTol(wd), wd)

CertainVerdict(e) ==
    CASE e.panic -> "panic"
      [] e.e = "cmp" -> Say(CompareOk(e.o, D(e.x), D(e.y)), "comparison is not certain or not decided")
      [] e.e = "cmps" -> Say(CompareOk(e.o, D(e.x), PointOf(e.y)), "comparison with scalar")
      [] e.e = "query" -> Say(QueryOk(e.o, D(e.x), Dec(e.t), Dec(e.u)), "set query")
      [] e.e = "set" -> SetVerdict(e)
      [] e.e = "conv" -> Say(/\ SameIv(D(e.o.pair), D(e.x)) /\ SameIv(D(e.o.new), D(e.x))
                             /\ SameIv(D(e.o.scal), PointOf(e.x.lo))
                             /\ ApproxOk(e.o, D(e.x), WidthOf(e.x.lo)), "conversion")
      [] e.e = "gfl" -> Say(GflOk(e), "generic float interface of intervals")
      [] e.e = "limits" -> Say(LimitsOk(e.o, e.w), "limit constants")
      [] e.e = "consts" -> Say(/\ SameIv(D(e.o.zero), Iv(Zero, Zero)) /\ SameIv(D(e.o.one), Iv(One, One))
                               /\ WellFormed(D(e.o.two)) /\ Encloses(D(e.o.two), Iv(Fin(R2), Fin(R2)))
                               , "constants")

LoadVerdict(e) == IF e.panic THEN "panic"
                  ELSE Say(SameIv(D(e.o), D(e.x)), "conversion changed the bounds")

Verdict(e) ==
    CASE e.e = "begin" -> "ok"
      [] e.e = "load" -> LoadVerdict(e)
      [] e.e \in {"op1", "op2", "ops", "op3"} -> IF Prop = "C04" THEN TightVerdict(e) ELSE IncluVerdict(e)
      [] OTHER -> CertainVerdict(e)

Init == l = 1 /\ reg = [r \in 0 .. 3 |-> NoReg] /\ w = 32
MemberAt(iv, k) == IF Finite(iv) THEN Fin(RAdd(Val(iv.lo), RMul(RSub(Val(iv.hi), Val(iv.lo)), RFrac(k, 4)))) ELSE NoWit
NewContent(e) ==
    LET r == D(e.o)
    IN  IF e.panic \/ ~WellFormed(r) THEN NoReg
        ELSE IF e.e = "load" \/ (e.e = "op1" /\ e.f = "sqrt") THEN Content(r, MemberAt(r, e.k))
        ELSE LET x == WitE(e) c == Content(r, x) IN IF Sound(c) THEN c ELSE Content(r, NoWit)
Consume(e) ==
    /\ w' = IF e.e = "begin" THEN e.w ELSE w
    /\ reg' = IF IsCtl(e) THEN reg
              ELSE IF e.e = "begin" THEN [r \in 0 .. 3 |-> NoReg]
              ELSE IF e.e \in {"load", "op1", "op2", "ops", "op3"}
                   THEN IF e.panic THEN [reg EXCEPT ![e.d] = NoReg] ELSE [reg EXCEPT ![e.d] = NewContent(e)]
              ELSE reg
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN  Report(l, e, Verdict(e)) /\ Consume(e)
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_vars
\* the invariant of the register machine, in every state of the walk
Inclusion == \A r \in 0 .. 3 : Sound(reg[r])
=============================================================================
