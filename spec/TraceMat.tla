------------------------------ MODULE TraceMat ------------------------------
(***************************************************************************)
(* Recorded matrix operations against module Mat.  Matrices are recorded   *)
(* as four rows of four numbers.                                           *)
(***************************************************************************)
EXTENDS TraceBase, Mat, Scalar
VARIABLE l

MV(ty, m) == [i \in Ix |-> [j \in Ix |-> Value(ty, m[i][j])]]
MNum(ty, m) == Len(m) = 4 /\ \A i \in Ix : Len(m[i]) = 4 /\ \A j \in Ix : IsNum(ty, m[i][j])
SameM(ty, o, r) == MNum(ty, o) /\ MV(ty, o) = r
SameV(ty, o, r) == Len(o) = Len(r) /\ \A i \in 1 .. Len(r) : IsNum(ty, o[i]) /\ Value(ty, o[i]) = r[i]
K == 16

ProdOk(ty, o, a, b) ==
    MNum(ty, o) /\
    IF ty \in IntTypes THEN MV(ty, o) = MMul(a, b)
    ELSE LET x == MMul(a, b) s == MMul(MAbs(a), MAbs(b)) v == MV(ty, o)
         IN  \A i \in Ix, j \in Ix : WithinEps(v[i][j], x[i][j], K, s[i][j], Bits(ty))
ScaleOk(ty, o, a, s) ==
    MNum(ty, o) /\
    IF ty \in IntTypes THEN MV(ty, o) = MScale(a, s)
    ELSE \A i \in Ix, j \in Ix : RoundedTo(Dec(o[i][j]), RMul(a[i][j], s), Bits(ty))
InvOk(ty, o, a) == MNum(ty, o) /\ MNear(MV(ty, o), MInv(a), InvTol(a, K, Bits(ty)))
\* both products are the identity, up to the same error carried through the product
InvBoth(ty, o, a) ==
    MNum(ty, o) /\
    LET v == MV(ty, o) t == InvTol(a, K, Bits(ty))
    IN  /\ MNear(MMul(a, v), MId, MMul(MAbs(a), t))
        /\ MNear(MMul(v, a), MId, MMul(t, MAbs(a)))

Verdict(e) ==
    IF e.panic THEN "panic"
    ELSE LET ty == e.ty
             a == MV(ty, e.a)
         IN
    CASE e.f = "mul" -> Say(ProdOk(ty, e.o, a, MV(ty, e.b)), "product")
      [] e.f = "muls" -> Say(ScaleOk(ty, e.o, a, Value(ty, e.s)), "product with a scalar")
      [] e.f = "tr" -> Say(SameM(ty, e.o, MTr(a)), "transpose")
      [] e.f \in {"id", "idx", "idx2"} -> Say(SameM(ty, e.o, a), "entries changed")
      [] e.f = "ident" -> Say(SameM(ty, e.o, MId), "identity")
      [] e.f = "zero" -> Say(SameM(ty, e.o, MZero), "zero matrix")
      [] e.f = "row" -> Say(SameV(ty, e.o, a[e.i + 1]), "row")
      [] e.f = "col" -> Say(SameV(ty, e.o, MTr(a)[e.i + 1]), "column")
      [] e.f = "set" -> Say(SameM(ty, e.o, [a EXCEPT ![e.i + 1] = [@ EXCEPT ![e.j + 1] = Value(ty, e.s)]]), "entry assignment")
      [] e.f = "eq" -> Say(e.o = (a = MV(ty, e.b)), "equality")
      [] e.f = "inv" -> IF RSgn(MDet(a)) = 0 THEN "ok"
                        ELSE IF ~InvOk(ty, e.o, a) THEN "inverse"
                        ELSE Say(InvBoth(ty, e.o, a), "not an inverse on one side")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
