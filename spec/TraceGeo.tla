------------------------------ MODULE TraceGeo ------------------------------
(***************************************************************************)
(* Recorded constructor calls against module Geo.  State: the ideal        *)
(* transform of the last constructor call, with the permitted rounding     *)
(* error of each matrix entry; the images recorded next are judged by it.  *)
(***************************************************************************)
EXTENDS TraceBase, Geo, Trig
VARIABLES l, cur, w
vars == <<l, cur, w>>
K == 8
F3(s) == [k \in 1 .. Len(s) |-> DecV(s[k])]
Fin3(s) == \A k \in 1 .. Len(s) : IsFin(Dec(s[k]))
FM(m) == [i \in Ix |-> [j \in Ix |-> DecV(m[i][j])]]
FinM(m) == \A i \in Ix : \A j \in Ix : IsFin(Dec(m[i][j]))
Block(t) == [i \in Ix |-> [j \in Ix |-> IF i < 4 /\ j < 4 THEN t ELSE R0]]
Rel(m, k, wd) == MScale(MAbs(m), KE(k, wd))
Unit(v) == LET q == VNorm(v) IN [k \in I3 |-> RFloor2(RDiv(v[k], q), 200)]
Ideal(e, wd) ==
    LET p == F3(e.p)
        v == SubSeq(p, 1, 3)
    IN
    CASE e.c = "id" -> [m |-> MId, i |-> MId, tm |-> M0, ti |-> M0]
      [] e.c = "tr" -> [m |-> GTr(v), i |-> GTr(VNeg(v)), tm |-> M0, ti |-> M0]
      [] e.c = "sc" -> LET i == GSc([k \in I3 |-> RInv(v[k])]) IN [m |-> GSc(v), i |-> i, tm |-> M0, ti |-> Rel(i, 2, wd)]
      [] e.c \in {"rx", "ry", "rz"} ->
            LET t == SinCos(p[1])
                u == IF e.c = "rx" THEN UX ELSE IF e.c = "ry" THEN UY ELSE UZ
                m == GRot(u, t.s, t.c)
                z == [i \in Ix |-> [j \in Ix |-> IF m[i][j] \in {R0, R1} THEN R0 ELSE KE(4, wd)]]
            IN  [m |-> m, i |-> MTr(m), tm |-> z, ti |-> z]
      [] e.c = "rot" ->
            LET t == SinCos(p[4]) m == GRot(Unit(v), t.s, t.c)
            IN  [m |-> m, i |-> MTr(m), tm |-> Block(KE(16, wd)), ti |-> Block(KE(16, wd))]
      [] e.c = "look" ->
            LET target == SubSeq(p, 4, 6) up == SubSeq(p, 7, 9)
                z == Unit(VSub(v, target))
                cr == VCross(up, z)
                x == Unit(cr) y == VCross(z, x)
                sn == RDiv(VNorm(cr), VNorm(up))
                b == RDiv(KE(24, wd), sn)
                m == GView(v, x, y, z)
                col == RMul(b, RSum(VAbs(v)))
            IN  [m |-> m, i |-> GViewInv(v, x, y, z),
                 tm |-> [i \in Ix |-> [j \in Ix |-> IF i = 4 THEN R0 ELSE IF j = 4 THEN col ELSE b]],
                 ti |-> Block(b)]
      [] e.c = "persp" ->
            LET t == SinCos(RHalf(p[1])) m == GPersp(RFloor2(RDiv(t.c, t.s), 160), p[2], p[3])
            IN  [m |-> m, i |-> MInv(m), tm |-> Rel(m, 16, wd), ti |-> InvTol(m, 24, wd)]
Verdict(e) ==
    CASE e.e = "begin" -> "ok"
      [] e.e = "con" ->
            IF e.panic THEN "panic"
            ELSE IF ~FinM(e.o.m) \/ ~FinM(e.o.i) THEN "not finite"
            ELSE LET q == Ideal(e, w)
                 IN  IF ~MNear(FM(e.o.m), q.m, q.tm) THEN "matrix does not realise the constructor"
                     ELSE Say(MNear(FM(e.o.i), q.i, q.ti), "inverse matrix does not realise the constructor")
      [] e.e = "img" ->
            LET m == IF e.dir = 0 THEN cur.m ELSE cur.i
                t == IF e.dir = 0 THEN cur.tm ELSE cur.ti
                x == F3(e.x)
            IN  IF e.k = "p" /\ ~WClear(m, t, x, K, w) THEN "ok"
                ELSE IF e.panic THEN "panic"
                ELSE IF ~Fin3(e.o) THEN "not finite"
                ELSE IF e.k = "p" THEN Say(PointOk(F3(e.o), m, t, x, K, w), "image of a point")
                ELSE Say(VecOk(F3(e.o), m, t, x, K, w), "image of a vector")
      \* the frustum itself, in the vocabulary of the documentation
      [] e.e = "frustum" ->
            IF e.panic THEN "panic"
            ELSE IF ~Fin3(e.o) THEN "not finite"
            ELSE LET o == F3(e.o) tol == RFrac(1, IF w = 32 THEN 500 ELSE 1000000)
                 IN  Say(\A k \in I3 : RNear(o[k], RInt(e.want[k]), tol), "frustum corner")
Init == l = 1 /\ cur = [m |-> MId, i |-> MId, tm |-> M0, ti |-> M0] /\ w = 32
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN  /\ Report(l, e, Verdict(e))
               /\ cur' = IF e.e = "con" /\ ~IsCtl(e) THEN Ideal(e, w) ELSE cur
               /\ w' = IF e.e = "begin" THEN e.w ELSE w
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_vars
=============================================================================
