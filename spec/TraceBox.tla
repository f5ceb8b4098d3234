------------------------------ MODULE TraceBox ------------------------------
(***************************************************************************)
(* Recorded box programs against module Box.  State: the boxes of the      *)
(* registers as exact sets, computed by the specification from the         *)
(* recorded corners (not from what the code reported).                     *)
(***************************************************************************)
EXTENDS TraceBase, Box
VARIABLES l, reg
vars == <<l, reg>>
W == 32
F3(s) == [k \in 1 .. Len(s) |-> DecV(s[k])]
Fin3(s) == \A k \in 1 .. Len(s) : IsFin(Dec(s[k]))
OB(o) == Box(F3(o.lo), F3(o.hi))
FinB(o) == Fin3(o.lo) /\ Fin3(o.hi)
DefaultBox == LET m == MaxFin(W) n == RNeg(m) IN Box(<<m, m, m>>, <<n, n, n>>)
IsNew(e) == e.e \in {"new", "dflt", "union", "inter"}
Want(e) == CASE e.e = "new" -> OfCorners(F3(e.p), F3(e.q))
             [] e.e = "dflt" -> DefaultBox
             [] e.e = "union" -> BUnion(reg[e.a], reg[e.b])
             [] e.e = "inter" -> BInter(reg[e.a], reg[e.b])
Rounded(o, r) == \A k \in B3 : RoundedTo(Dec(o[k]), r[k], W)
\* two roundings, as large as the operands
CentreOk(o, b) == \A k \in B3 : IsFin(Dec(o[k])) /\
    WithinEps(DecV(o[k]), Centre(b)[k], 4, RAdd(RAbs(b.lo[k]), RAbs(b.hi[k])), W)
ExtentOk(o, b) ==
    LET x == Extent(b) k == o.axis + 1
    IN  /\ k \in B3
        /\ Dec(o.elo) = Fin(b.lo[k]) /\ Dec(o.ehi) = Fin(b.hi[k])
        /\ \A j \in B3 : RLe(x[j], RAdd(x[k], RAdd(RMul(RMul(R2, Eps(W)), x[j]), RPow2(EMinSub(W)))))
Bounds6(o, b) == /\ Dec(o.x0) = Fin(b.lo[1]) /\ Dec(o.y0) = Fin(b.lo[2]) /\ Dec(o.z0) = Fin(b.lo[3])
                 /\ Dec(o.x1) = Fin(b.hi[1]) /\ Dec(o.y1) = Fin(b.hi[2]) /\ Dec(o.z1) = Fin(b.hi[3])
Verdict(e) ==
    IF e.e = "begin" THEN "ok"
    ELSE IF e.panic THEN "panic"
    ELSE CASE IsNew(e) -> Say(FinB(e.o) /\ SameSet(OB(e.o), Want(e)), "box is not the set it stands for")
      [] e.e = "in" -> Say(e.o.in = Inside(reg[e.a], F3(e.p)), "containment")
      [] e.e = "ov" -> \* (empty boxes other than the default one have no canonical bounds)
            IF \E b \in {reg[e.a], reg[e.b]} : IsEmpty(b) /\ b # DefaultBox THEN "ok" ELSE Say(e.o.ov = Overlap(reg[e.a], reg[e.b]), "overlap")
      [] e.e = "meas" ->
            LET b == reg[e.a]
            IN  IF ~Bounds6(e.o, b) THEN "coordinate bounds"
                ELSE IF ~(FinB(e.o.bb) /\ OB(e.o.bb) = b) THEN "own bounding box"
                ELSE IF ~Rounded(e.o.diag, Extent(b)) THEN "diagonal"
                ELSE IF ~CentreOk(e.o.mid, b) THEN "centre"
                ELSE Say(ExtentOk(e.o, b), "largest extent")
Init == l = 1 /\ reg = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN  /\ Report(l, e, Verdict(e))
               /\ reg' = IF IsCtl(e) THEN reg ELSE IF e.e = "begin" THEN <<>>
                         ELSE IF IsNew(e) THEN Append(reg, Want(e)) ELSE reg
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_vars
=============================================================================
