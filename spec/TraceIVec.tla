----------------------------- MODULE TraceIVec ------------------------------
(***************************************************************************)
(* Recorded operations on interval vectors, points and normals against     *)
(* module IVec.                                                            *)
(***************************************************************************)
EXTENDS TraceBase, IVec, Vec
VARIABLE l
D(iv) == Iv(Dec(iv.lo), Dec(iv.hi))
Ds(v) == [k \in 1 .. Len(v) |-> D(v[k])]
Enc1(r, h) == h = Undef \/ (WellFormed(r) /\ (h = Empty \/ Encloses(r, h)))
EncN(r, h) == Len(r) = Len(h) /\ \A k \in 1 .. Len(h) : Enc1(r[k], h[k])
Rep(x, n) == [k \in 1 .. n |-> x]
HasZero(s) == ESgn(s.lo) <= 0 /\ ESgn(s.hi) >= 0

\* x / |x| for members x, up to the precision of the square root
Sels(n) == {Rep(0, n), Rep(4, n), Rep(2, n)} \cup {[k \in 1 .. n |-> IF k = j THEN 4 ELSE 0] : j \in 1 .. n}
           \cup {[k \in 1 .. n |-> IF k = j THEN 0 ELSE 4] : j \in 1 .. n}
           \cup {[k \in 1 .. n |-> IF k = j THEN 4 ELSE 2] : j \in 1 .. n}
Fuzz == RPow2(-80)
UnitIn(r, a) ==
    \A sel \in Sels(Len(a)) :
       LET x == MemberAt(a, sel) q == VNorm(x)
       IN  RSgn(q) = 0 \/
           \A k \in 1 .. Len(a) :
              LET u == RDiv(x[k], q)
              IN  ELe(r[k].lo, Fin(RAdd(u, Fuzz))) /\ ELe(Fin(RSub(u, Fuzz)), r[k].hi)
Ops2 == {"add", "sub", "mul", "div", "min", "max", "pv", "pmv", "pp"}
OpOf(f) == CASE f \in {"pv"} -> "add" [] f \in {"pmv", "pp"} -> "sub" [] OTHER -> f

Verdict(e) ==
    LET a == Ds(e.a) n == Len(a)
    IN
    IF e.f = "unit" /\ \A k \in 1 .. n : HasZero(a[k]) THEN "ok"
    ELSE IF e.f = "divs" /\ ESgn(Dec(e.s)) = 0 THEN "ok"
    ELSE IF e.panic THEN "panic"
    ELSE CASE e.f \in Ops2 -> Say(EncN(Ds(e.o), HV2(OpOf(e.f), a, Ds(e.b))), "component operation misses a member")
      [] e.f = "neg" -> Say(EncN(Ds(e.o), [k \in 1 .. n |-> HNeg(a[k])]), "negation")
      [] e.f \in {"muls", "divs"} ->
            LET s == Iv(Dec(e.s), Dec(e.s))
            IN  Say(EncN(Ds(e.o), HV2(IF e.f = "muls" THEN "mul" ELSE "div", a, Rep(s, n))), "scaling misses a member")
      [] e.f \in {"muli", "divi"} ->
            Say(EncN(Ds(e.o), HV2(IF e.f = "muli" THEN "mul" ELSE "div", a, Rep(D(e.s), n))), "scaling by an interval misses a member")
      [] e.f = "dot" -> Say(Enc1(D(e.o), HDot(a, Ds(e.b))), "dot product misses a member")
      [] e.f = "sqn" -> Say(Enc1(D(e.o), HSqNorm(a)), "squared norm misses a member")
      [] e.f = "norm" -> Say(WellFormed(D(e.o)) /\ SqrtEncloses(D(e.o), HSqNorm(a)), "norm misses a member")
      [] e.f = "sqd" -> Say(Enc1(D(e.o), HSqNorm(HV2("sub", a, Ds(e.b)))), "squared distance misses a member")
      [] e.f = "dist" -> Say(WellFormed(D(e.o)) /\ SqrtEncloses(D(e.o), HSqNorm(HV2("sub", a, Ds(e.b)))), "distance misses a member")
      [] e.f = "cross" -> Say(EncN(Ds(e.o), HCross(a, Ds(e.b))), "cross product misses a member")
      [] e.f = "unit" -> LET r == Ds(e.o) IN Say((\A k \in 1 .. n : WellFormed(r[k])) /\ UnitIn(r, a), "normalisation misses a member")
      [] e.f = "from" -> Say(Len(e.o) = n /\ \A k \in 1 .. n : e.o[k].lo = e.a[k].lo /\ e.o[k].hi = e.a[k].lo, "interval version of an exact vector")
      [] e.f = "to" -> Say(Len(e.o) = n /\ \A k \in 1 .. n : ~IsNaN(Dec(e.o[k])) /\ MemberOf(Dec(e.o[k]), a[k]), "scalar version is not a member")
      [] e.f = "eval" -> \* ray point: a + b*s
            Say(EncN(Ds(e.o), HV2("add", a, HV2("mul", Ds(e.b), Rep(D(e.s), n)))), "interval ray point misses a member")
      [] OTHER -> "unknown operation"
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
