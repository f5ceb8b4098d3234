------------------------------ MODULE TraceFun ------------------------------
(***************************************************************************)
(* Recorded elementary functions of intervals against module Fun.          *)
(*   fun    one-argument function of an interval                           *)
(*   atan2  two-argument arctangent (y, x)                                 *)
(*   sc     sine and cosine returned together                              *)
(*   const  pi, tau, pi/2, pi/4 as intervals                               *)
(*   sf, ssc, sa2   the functions of scalars (C24)                         *)
(***************************************************************************)
EXTENDS TraceBase, Fun
VARIABLE l

D(iv) == Iv(Dec(iv.lo), Dec(iv.hi))
W(iv) == WidthOf(iv.lo)
InDomain(f, x) == Finite(x) /\ (f \in {"asin", "acos"} => RLe(Val(x.hi), R1) /\ RGe(Val(x.lo), RNeg(R1)))
TIGHT == 8
SULPS == 2
Narrow(x) == RLt(RSub(Val(x.hi), Val(x.lo)), PiLo)

\* the statement is about finite arguments inside the domain
Asked(e) == CASE e.e = "const" -> TRUE
              [] e.e = "fun" -> InDomain(e.f, D(e.x))
              [] e.e = "sc" -> Finite(D(e.x))
              [] e.e = "atan2" -> Finite(D(e.x)) /\ Finite(D(e.y))
InclVerdict(e) ==
    CASE ~Asked(e) -> "ok"
      [] e.panic -> "panic"
      [] e.e = "const" -> Say(/\ ConstOk(D(e.o.pi), R1) /\ ConstOk(D(e.o.tau), RHalf(R1))
                              /\ ConstOk(D(e.o.pi2), R2) /\ ConstOk(D(e.o.pi4), RInt(4)), "constant misses pi")
      [] e.e = "fun" -> IF ~WellFormed(D(e.o)) THEN "not an interval"
                        ELSE Say(FunEncloses(e.f, D(e.o), D(e.x)), "misses a value of the function")
      [] e.e = "sc" -> IF ~WellFormed(D(e.o.s)) \/ ~WellFormed(D(e.o.c)) THEN "not an interval"
                       ELSE Say(FunEncloses("sin", D(e.o.s), D(e.x)) /\ FunEncloses("cos", D(e.o.c), D(e.x)),
                                "misses a value of sine or cosine")
      [] e.e = "atan2" -> IF ~WellFormed(D(e.o)) THEN "not an interval"
                          ELSE LET y == D(e.y) x == D(e.x)
                               IN  Say(Atan2Encloses(D(e.o), Val(y.lo), Val(y.hi), Val(x.lo), Val(x.hi)),
                                       "misses the angle of a member")
TightVerdict(e) ==
    CASE ~Asked(e) \/ e.panic \/ e.e \in {"const", "sc"} -> "ok"
      [] e.e = "fun" ->
            LET x == D(e.x) r == D(e.o)
            IN  IF ~WellFormed(r) THEN "ok"
                ELSE IF IsPoint(x) \/ (e.f \in {"sin", "cos"} /\ Narrow(x))
                     THEN Say(FunTight(e.f, r, x, TIGHT, W(e.x)), "bound too far from the value") ELSE "ok"
      [] e.e = "atan2" ->
            LET y == D(e.y) x == D(e.x) r == D(e.o)
            IN  IF ~WellFormed(r) THEN "ok"
                ELSE IF IsPoint(x) /\ IsPoint(y) /\ RSgn(Val(x.lo)) # 0 /\ RSgn(Val(y.lo)) # 0
                     THEN Say(Atan2Tight(r, Val(y.lo), Val(x.lo), TIGHT, W(e.x)), "angle bound too far") ELSE "ok"
\* a limit of the function, or the correctly rounded reciprocal
AtInfinity(f, x, o) == CASE f = "atan" -> IsFin(o) /\ RLe(RAbs(RSub(RAbs(Val(o)), HalfPi)), RPow2(-20)) /\ RSgn(Val(o)) = ESgn(x)
                         [] f = "sqrt" -> o = PInf
                         [] f = "recip" -> o = Zero
ScalarOk(f, xb, ob) ==
    LET x == Dec(xb) o == Dec(ob) w == WidthOf(xb)
    IN  IF IsNaN(o) THEN FALSE
        ELSE IF IsInf(x) THEN AtInfinity(f, x, o)
        ELSE IF f = "recip" THEN IF ESgn(x) = 0 THEN IsInf(o) /\ (o = NInf) = Neg32(xb[1]) ELSE RoundedTo(o, RInv(Val(x)), w)
        ELSE IsFin(o) /\ ScalarNear(f, Val(o), Val(x), SULPS, w)
ScalarVerdict(e) ==
    IF e.panic THEN "panic"
    ELSE CASE e.e = "sf" -> Say(ScalarOk(e.f, e.x, e.o), "not the value of the function")
           [] e.e = "ssc" -> Say(ScalarOk("sin", e.x, e.o.s) /\ ScalarOk("cos", e.x, e.o.c), "not sine and cosine")
           [] e.e = "sa2" -> LET o == Dec(e.o)
                             IN  Say(IsFin(o) /\ Atan2Near(Val(o), DecV(e.y), DecV(e.x), Neg32(e.y[1]), SULPS, WidthOf(e.x)),
                                     "not the angle")
Verdict(e) == IF Prop = "C24" THEN ScalarVerdict(e) ELSE IF Prop = "C04" THEN TightVerdict(e) ELSE InclVerdict(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
