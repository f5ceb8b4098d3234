------------------------------ MODULE TraceXf ------------------------------
(***************************************************************************)
(* Recorded transform programs against module Xf.  State: the registers,   *)
(* each with the matrices the code reported for it (exact values), and     *)
(* majorants p, q and depth d from which the accumulated rounding error of *)
(* the program is bounded.                                                 *)
(*   con   new register: a constructor         mul / inv  new register     *)
(*   map   image of a point, vector or normal  ray        image of a ray   *)
(*   rt    forward and back                    eval       point of a ray   *)
(*   nrm   a normal and a vector               box        image of a box   *)
(*   ivmap image of an interval object                                     *)
(***************************************************************************)
EXTENDS TraceBase, Xf
VARIABLES l, reg, w
vars == <<l, reg, w>>
K == 8

F3(s) == [k \in 1 .. Len(s) |-> DecV(s[k])]
Fin3(s) == \A k \in 1 .. Len(s) : IsFin(Dec(s[k]))
FM(m) == [i \in Ix |-> [j \in Ix |-> DecV(m[i][j])]]
FinM(m) == \A i \in Ix : \A j \in Ix : IsFin(Dec(m[i][j]))
Ones == [i \in Ix |-> [j \in Ix |-> IF i < 4 /\ j < 4 THEN R1 ELSE R0]]

\* the register an event creates, from what the code reported
Shifted(e) == IF e.c = "look" THEN RMul(R2, RSum(VAbs(F3(e.pos)))) ELSE R0
PosCol(e) == [i \in Ix |-> [j \in Ix |-> IF i < 4 /\ j = 4 THEN Shifted(e) ELSE R0]]
ConReg(e) ==
    LET m == FM(e.o.m) i == FM(e.o.i)
        soft == e.c \in {"rot", "look"}
        gen == e.c \in {"persp", "new"}
    IN  [m |-> m, i |-> i,
         p |-> IF soft THEN MAdd(MAdd(MAbs(m), Ones), PosCol(e)) ELSE MAbs(m),
         q |-> IF soft THEN MAdd(MAdd(MAbs(i), Ones), PosCol(e))
               ELSE IF gen /\ RSgn(MDet(m)) # 0 THEN MAdd(MAbs(i), MScale(InvTol(m, 1, w), RInv(Eps(w)))) ELSE MAbs(i),
         d |-> IF e.c = "look" THEN 64 ELSE 16]
MulReg(e) ==
    LET a == reg[e.a] b == reg[e.b]
    IN  [m |-> FM(e.o.m), i |-> FM(e.o.i), p |-> MMul(a.p, b.p), q |-> MMul(b.q, a.q), d |-> a.d + b.d + 16]
InvReg(e) == LET a == reg[e.a] IN [m |-> FM(e.o.m), i |-> FM(e.o.i), p |-> a.q, q |-> a.p, d |-> a.d]
IdReg == [m |-> MId, i |-> MId, p |-> MId, q |-> MId, d |-> 0]
Good(e) == ~e.panic /\ FinM(e.o.m) /\ FinM(e.o.i)
NewReg(e) == IF ~Good(e) THEN IdReg
             ELSE CASE e.e = "con" -> ConReg(e) [] e.e = "mul" -> MulReg(e) [] e.e = "inv" -> InvReg(e)
IsNew(e) == e.e \in {"con", "mul", "inv"}

Inverse(r) ==
    LET t == KE(r.d, w)
    IN  /\ MNear(MMul(r.m, r.i), MId, MScale(MMul(r.p, r.q), t))
        /\ MNear(MMul(r.i, r.m), MId, MScale(MMul(r.q, r.p), t))

\* direction 0: forward, 1: inverse mapping
Fwd(e) == IF e.dir = 0 THEN reg[e.r].m ELSE reg[e.r].i
Bwd(e) == IF e.dir = 0 THEN reg[e.r].i ELSE reg[e.r].m
MajF(e) == IF e.dir = 0 THEN reg[e.r].p ELSE reg[e.r].q
MajB(e) == IF e.dir = 0 THEN reg[e.r].q ELSE reg[e.r].p

MapOk(k, o, x, e) ==
    CASE k = "p" -> PointOk(o, Fwd(e), M0, x, K, w)
      [] k = "v" -> VecOk(o, Fwd(e), M0, x, K, w)
      [] k = "n" -> NrmOk(o, Bwd(e), M0, x, K, w)
Skipped(k, x, e) == k = "p" /\ ~WClear(Fwd(e), M0, x, K, w)

\* forward and back: |z - x| <= d * eps * (back * forward * |x|)
RtOk(e, x, z) ==
    LET t == KE(reg[e.r].d + 16, w)
        big == IF e.k = "n" THEN MMul(MTr(MajF(e)), MTr(MajB(e))) ELSE MMul(MajB(e), MajF(e))
        h == <<RAbs(x[1]), RAbs(x[2]), RAbs(x[3]), IF e.k = "p" THEN R1 ELSE R0>>
        b == MVec(big, h)
    IN  \A k \in I3 : RLe(RAbs(RSub(z[k], x[k])), RAdd(RMul(t, b[k]), Tiny(K, w)))

\* a mapped normal against a mapped vector
PerpOk(e, n, v, on, ov) ==
    LET t == KE(reg[e.r].d + 16, w)
        big == MMul(MajB(e), MajF(e))
        nb == <<RAbs(n[1]), RAbs(n[2]), RAbs(n[3]), R0>>
        b == MVec(big, <<RAbs(v[1]), RAbs(v[2]), RAbs(v[3]), R0>>)
    IN  RLe(RAbs(RSub(VDot(on, ov), VDot(n, v))), RAdd(RMul(t, VDot(nb, b)), Tiny(K, w)))

EmptyBox(lo, hi) == \E k \in I3 : RLt(hi[k], lo[k])
BoxOk(e) ==
    IF EmptyBox(F3(e.lo), F3(e.hi)) THEN EmptyBox(F3(e.o.lo), F3(e.o.hi)) ELSE
    LET lo == F3(e.lo) hi == F3(e.hi) ol == F3(e.o.lo) oh == F3(e.o.hi)
        m == Fwd(e)
        hl == HullLo(m, lo, hi) hh == HullHi(m, lo, hi)
        big == VMaxAbs(lo, hi)
    IN  \A k \in I3 : LET t == ErrP(m, M0, big, k, K, w)
                      IN  RNear(ol[k], hl[k], t) /\ RNear(oh[k], hh[k], t) /\ RLe(ol[k], oh[k])

(* interval objects *)
ILo(x) == [k \in 1 .. Len(x) |-> DecV(x[k].lo)]
IHi(x) == [k \in 1 .. Len(x) |-> DecV(x[k].hi)]
IWell(x) == \A k \in 1 .. Len(x) : LET a == Dec(x[k].lo) b == Dec(x[k].hi) IN ~IsNaN(a) /\ ~IsNaN(b) /\ ELe(a, b)
Covers(o, lo, hi) == \A k \in I3 : ELe(Dec(o[k].lo), Fin(lo[k])) /\ ELe(Fin(hi[k]), Dec(o[k].hi))
NoT(m) == [i \in Ix |-> [j \in Ix |-> IF j = 4 \/ i = 4 THEN (IF i = j THEN R1 ELSE R0) ELSE m[i][j]]]
IvSkip(k, x, e) ==          \* some member has no image
    k = "p" /\ LET c == {PointW(Fwd(e), p) : p \in CornersOf3(ILo(x), IHi(x))}
               IN  ~(\A q \in c : RSgn(q) > 0) /\ ~(\A q \in c : RSgn(q) < 0)
IvOk(k, o, x, e) ==
    LET lo == ILo(x) hi == IHi(x) m == Fwd(e)
    IN  CASE k = "p" -> IF Affine(m) THEN Covers(o, HullLo(m, lo, hi), HullHi(m, lo, hi))
                        ELSE \A p \in CornersOf3(lo, hi) : LET q == MapP(m, p) IN Covers(o, q, q)
          [] k = "v" -> Covers(o, HullLo(NoT(m), lo, hi), HullHi(NoT(m), lo, hi))
          [] k = "n" -> LET t == NoT(MTr(Bwd(e))) IN Covers(o, HullLo(t, lo, hi), HullHi(t, lo, hi))

NewVerdict(e) ==
    IF e.panic THEN "panic"
    ELSE IF Prop # "C09" THEN "ok"
    ELSE IF ~Good(e) THEN "not finite"
    ELSE CASE e.e = "con" -> Say(Inverse(NewReg(e)), "constructor: matrix and inverse matrix disagree")
           [] e.e = "mul" ->
                IF ~MulOk(FM(e.o.m), reg[e.a].m, reg[e.b].m, K, w) THEN "product is not right factor first"
                ELSE IF ~MulOk(FM(e.o.i), reg[e.b].i, reg[e.a].i, K, w) THEN "inverse of a product"
                ELSE Say(Inverse(NewReg(e)), "product: matrix and inverse matrix disagree")
           [] e.e = "inv" -> Say(FM(e.o.m) = reg[e.a].i /\ FM(e.o.i) = reg[e.a].m, "inversion does not exchange")

Verdict(e) ==
    CASE IsNew(e) -> NewVerdict(e)
      [] e.e = "begin" -> "ok"
      [] e.e = "map" ->
            LET x == F3(e.x)
            IN  IF Skipped(e.k, x, e) THEN "ok"
                ELSE IF e.panic THEN "panic"
                ELSE Say(Fin3(e.o) /\ MapOk(e.k, F3(e.o), x, e), "image")
      [] e.e = "ray" ->
            IF e.panic THEN "panic"
            ELSE IF ~Fin3(e.o.org) \/ ~Fin3(e.o.d) THEN "image of a ray"
            ELSE IF ~MapOk("p", F3(e.o.org), F3(e.org), e) THEN "image of the ray's origin"
            ELSE IF ~MapOk("v", F3(e.o.d), F3(e.d), e) THEN "image of the ray's direction"
            ELSE Say(e.o.tmax = e.tmax, "extent of the ray")
      [] e.e = "rt" -> IF e.panic THEN "panic" ELSE Say(Fin3(e.o) /\ RtOk(e, F3(e.x), F3(e.o)), "forward and back")
      [] e.e = "eval" ->
            IF e.panic THEN "panic"
            ELSE LET o == F3(e.org) d == F3(e.d) t == DecV(e.t) x == RayAt(o, d, t) s == RayAt(VAbs(o), VAbs(d), RAbs(t))
                 IN  Say(Fin3(e.o) /\ \A k \in I3 : WithinEps(DecV(e.o[k]), x[k], 4, s[k], w), "point of a ray")
      [] e.e = "nrm" ->
            IF e.panic THEN "panic"
            ELSE Say(Fin3(e.o.n) /\ Fin3(e.o.v) /\ PerpOk(e, F3(e.n), F3(e.v), F3(e.o.n), F3(e.o.v)),
                     "normal is not perpendicular to the mapped surface")
      [] e.e = "box" ->
            IF e.panic THEN "panic" ELSE Say(Fin3(e.o.lo) /\ Fin3(e.o.hi) /\ BoxOk(e), "image of a box")
      [] e.e = "ivmap" ->
            IF IvSkip(e.k, e.x, e) THEN "ok"
            ELSE IF e.panic THEN "panic"
            ELSE Say(IWell(e.o) /\ IvOk(e.k, e.o, e.x, e), "interval image misses the image of a member")
      [] e.e = "ivray" ->
            IF IvSkip("p", e.org, e) THEN "ok"
            ELSE IF e.panic THEN "panic"
            ELSE IF ~IWell(e.o.org) \/ ~IWell(e.o.d) THEN "not an interval"
            ELSE IF ~IvOk("p", e.o.org, e.org, e) THEN "interval ray origin"
            ELSE IF ~IvOk("v", e.o.d, e.d, e) THEN "interval ray direction"
            ELSE Say(e.o.tmax = e.tmax, "interval ray extent")

Init == l = 1 /\ reg = <<>> /\ w = 32
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN  /\ Report(l, e, Verdict(e))
               /\ reg' = IF IsCtl(e) THEN reg ELSE IF e.e = "begin" THEN <<>>
                         ELSE IF IsNew(e) THEN Append(reg, NewReg(e)) ELSE reg
               /\ w' = IF e.e = "begin" THEN e.w ELSE w
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_vars
=============================================================================
