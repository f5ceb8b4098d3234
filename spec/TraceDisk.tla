----------------------------- MODULE TraceDisk ------------------------------
(***************************************************************************)
(* Recorded square-to-disk samples against module Disk (C22).              *)
(***************************************************************************)
EXTENDS TraceBase, Disk
VARIABLE l
\* relative to the distance from the centre: the maps multiply by the radius
Radius(e) == IF e.m = "polar" THEN RSqrt2(DecV(e.x[2]), 100)
             ELSE LET x == RAbs(CX(DecV(e.x[1]))) y == RAbs(CX(DecV(e.x[2]))) IN IF RGt(x, y) THEN x ELSE y
\* (the centring 1-2x may be rounded at the scale of the square, half an ulp of one)
Tol(e) == IF RSgn(Radius(e)) = 0 THEN R0
          ELSE RAdd(RMul(Radius(e), RMul(RInt(64), Eps(32))), IF e.m = "conc" THEN RPow2(-24) ELSE RPow2(-140))
Want(e) == LET x == DecV(e.x[1]) y == DecV(e.x[2]) IN IF e.m = "polar" THEN PolarPoint(x, y) ELSE ConcPoint(x, y)
Verdict(e) ==
    IF e.panic THEN "panic"
    ELSE IF ~(IsFin(Dec(e.o[1])) /\ IsFin(Dec(e.o[2]))) THEN "not finite"
    ELSE LET p == <<DecV(e.o[1]), DecV(e.o[2])>> q == Want(e)
         IN  IF RGt(RAdd(RSq(p[1]), RSq(p[2])), RAdd(R1, RMul(RInt(16), Eps(32)))) THEN "outside the disk"
             ELSE Say(RNear(p[1], q[1], Tol(e)) /\ RNear(p[2], q[2], Tol(e)), "image of a sample")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
