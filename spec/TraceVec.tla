------------------------------ MODULE TraceVec ------------------------------
(***************************************************************************)
(* Recorded vector, point and normal operations against module Vec.  Each  *)
(* event: kind k (v, p, n), scalar type ty, operation f, operands a, b     *)
(* (component sequences), scalar s, result o (a sequence of components, or *)
(* one component for scalar results).                                      *)
(***************************************************************************)
EXTENDS TraceBase, Vec, Scalar
VARIABLE l

Num(ty, v) == IsNum(ty, v)
Vals(ty, s) == [i \in 1 .. Len(s) |-> Value(ty, s[i])]
AllNum(ty, s) == \A i \in 1 .. Len(s) : IsNum(ty, s[i])

\* one correctly rounded operation (integers: exact)
Rnd(ty, v, r) == IF ty \in IntTypes THEN IntVal(v) = r ELSE RoundedTo(Dec(v), r, Bits(ty))
Rnds(ty, o, r) == Len(o) = Len(r) /\ \A i \in 1 .. Len(r) : Rnd(ty, o[i], r[i])
Same(ty, o, r) == Len(o) = Len(r) /\ \A i \in 1 .. Len(r) : Num(ty, o[i]) /\ Value(ty, o[i]) = r[i]
\* an accumulated result
Acc(ty, v, r, k, scale) == IF ty \in IntTypes THEN IntVal(v) = r
                           ELSE IsFin(Dec(v)) /\ WithinEps(DecV(v), r, k, scale, Bits(ty))
Quot(ty, x, y) == IF ty \in IntTypes THEN Trunc(RDiv(x, y)) ELSE RDiv(x, y)

\* the norm of a vector with squared norm s2, judged by its square (squares may underflow)
NormOk(ty, v, s2) ==
    LET w == Bits(ty) q == DecV(v)
    IN  IsFin(Dec(v)) /\ RSgn(q) >= 0
        /\ WithinEps(RMul(q, q), s2, 32, s2, w)
UnitOk(ty, o, a) ==
    LET w == Bits(ty)
        s2 == VSq(a)
        q == VNorm(a)
        rel == RAdd(RMul(RInt(16), Eps(w)), RDiv(RPow2(EMinSub(w) + 4), s2))
    IN  Len(o) = Len(a) /\ AllNum(ty, o)
        /\ \A i \in 1 .. Len(a) :
             RLe(RAbs(RSub(RMul(Value(ty, o[i]), q), a[i])), RAdd(RMul(rel, RAbs(a[i])), RMul(RPow2(EMinSub(w)), q)))

ElemOps == {"neg", "add", "adda", "sub", "suba", "mul", "div", "muls", "divs", "min", "max", "pp", "pv", "vp", "pmv"}
Elem(e, a, b) ==
    LET ty == e.ty
    IN  CASE e.f = "neg" -> VNeg(a)
          [] e.f \in {"add", "adda", "pv", "vp"} -> VAdd(a, b)
          [] e.f \in {"sub", "suba", "pp", "pmv"} -> VSub(a, b)
          [] e.f = "mul" -> VMul(a, b)
          [] e.f = "div" -> VMap2(LAMBDA x, y : Quot(ty, x, y), a, b)
          [] e.f = "muls" -> VScale(a, Value(ty, e.s))
          [] e.f = "divs" -> [i \in 1 .. Len(a) |-> Quot(ty, a[i], Value(ty, e.s))]
          [] e.f = "min" -> VMap2(RMin, a, b)
          [] e.f = "max" -> VMap2(RMax, a, b)

Verdict(e) ==
    IF e.panic THEN "panic"
    ELSE LET ty == e.ty
             a == Vals(ty, e.a)
             b == IF Has(e, "b") THEN Vals(ty, e.b) ELSE a
             w == Bits(ty)
         IN
    CASE e.f \in ElemOps -> Say(Rnds(ty, e.o, Elem(e, a, b)), "component operation")
      [] e.f \in {"id", "named", "idx", "conv", "clone"} -> Say(Same(ty, e.o, a), "components changed")
      [] e.f = "set" -> Say(Same(ty, e.o, [a EXCEPT ![e.i + 1] = Value(ty, e.s)]), "component assignment")
      [] e.f = "default" -> Say(Same(ty, e.o, [i \in 1 .. Len(a) |-> R0]), "default is not zero")
      [] e.f = "eq" -> Say(e.o = (a = b), "equality")
      [] e.f = "dot" -> Say(Acc(ty, e.o, VDot(a, b), 2 * Len(a), VDot(VAbs(a), VAbs(b))), "dot product")
      [] e.f = "sqn" -> Say(Acc(ty, e.o, VSq(a), 2 * Len(a), VSq(a)), "squared norm")
      [] e.f = "sqd" -> Say(Acc(ty, e.o, VSq(VSub(a, b)), 3 * Len(a) + 4, VSq(VSub(a, b))), "squared distance")
      [] e.f = "norm" -> Say(NormOk(ty, e.o, VSq(a)), "norm")
      [] e.f = "dist" -> Say(NormOk(ty, e.o, VSq(VSub(a, b))), "distance")
      [] e.f = "cross" -> LET x == VCross(a, b) t == VCrossAbs(a, b)
                          IN  Say(Len(e.o) = 3 /\ \A i \in 1 .. 3 : Acc(ty, e.o[i], x[i], 4, t[i]), "cross product")
      [] e.f = "unit" -> Say(UnitOk(ty, e.o, a), "normalisation")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
