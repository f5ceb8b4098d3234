------------------------------ MODULE TraceIXf ------------------------------
(***************************************************************************)
(* Recorded programs on interval transforms (C23).  State: the registers,  *)
(* each with a few exact members [m, i], followed exactly from members of  *)
(* the constructors' parameters.                                           *)
(*   con   new register from interval parameters; sel picks the members    *)
(*   mul / inv   new register         minv  inverse of a matrix            *)
(*   mscale  matrix times an interval                                      *)
(*   map   image of an interval point, vector or normal    ray  of a ray   *)
(* Every recorded interval has to contain the exact member.  Where a       *)
(* member involves sines or roots it is known to 2^-80 relative.           *)
(***************************************************************************)
EXTENDS TraceBase, Geo, Trig
VARIABLES l, reg
vars == <<l, reg>>
Well(x) == LET a == Dec(x.lo) b == Dec(x.hi) IN ~IsNaN(a) /\ ~IsNaN(b) /\ ELe(a, b)
WellS(s) == \A j \in 1 .. Len(s) : Well(s[j])
WellM(a) == Len(a) = 4 /\ \A i \in Ix : Len(a[i]) = 4 /\ WellS(a[i])
Fz(x, irr) == IF irr THEN RMul(RPow2(-80), RAdd(R1, RAbs(x))) ELSE R0
In(x, r, irr) == LET f == Fz(x, irr) IN ELe(Dec(r.lo), Fin(RAdd(x, f))) /\ ELe(Fin(RSub(x, f)), Dec(r.hi))
InS(v, s, irr) == \A j \in 1 .. Len(s) : In(v[j], s[j], irr)
InM(a, s, irr) == \A i \in Ix : InS(a[i], s[i], irr)

\* the member of the interval x at sel quarters of the way
At(x, sel) == LET a == DecV(x.lo) b == DecV(x.hi) IN RAdd(a, RMul(RSub(b, a), RFrac(sel, 4)))
AtS(s, sel) == [j \in 1 .. Len(s) |-> At(s[j], sel[j])]
Unit(v) == LET q == VNorm(v) IN [c \in I3 |-> RFloor2(RDiv(v[c], q), 200)]
Irrational == {"rx", "ry", "rz", "rot", "look", "persp"}
Round(a) == [i \in Ix |-> [j \in Ix |-> RFloor2(a[i][j], 200)]]
Exact(c, v) ==
    CASE c = "id" -> XId
      [] c = "tr" -> [m |-> GTr(v), i |-> GTr(VNeg(v))]
      [] c = "sc" -> [m |-> GSc(v), i |-> GSc([j \in I3 |-> RInv(v[j])])]
      [] c \in {"rx", "ry", "rz"} ->
            LET q == SinCos(v[1]) a == GRot(IF c = "rx" THEN UX ELSE IF c = "ry" THEN UY ELSE UZ, q.s, q.c)
            IN  [m |-> a, i |-> MTr(a)]
      [] c = "rot" -> LET q == SinCos(v[4]) a == GRot(Unit(SubSeq(v, 1, 3)), q.s, q.c) IN [m |-> a, i |-> MTr(a)]
      [] c = "look" ->
            LET at == SubSeq(v, 1, 3) z == Unit(VSub(at, SubSeq(v, 4, 6))) x == Unit(VCross(SubSeq(v, 7, 9), z)) y == VCross(z, x)
            IN  [m |-> GView(at, x, y, z), i |-> GViewInv(at, x, y, z)]
      [] c = "persp" -> LET q == SinCos(RHalf(v[1])) a == GPersp(RFloor2(RDiv(q.c, q.s), 160), v[2], v[3])
                        IN  [m |-> a, i |-> MInv(a)]
      [] c \in {"new", "full"} -> LET a == [i \in Ix |-> [j \in Ix |-> v[4 * (i - 1) + j]]] IN [m |-> a, i |-> MInv(a)]
NewReg(e) ==
    CASE e.e = "con" -> [irr |-> e.c \in Irrational, mem |-> [q \in 1 .. Len(e.sel) |-> Exact(e.c, AtS(e.p, e.sel[q]))]]
      [] e.e = "mul" -> [irr |-> reg[e.a].irr \/ reg[e.b].irr,
                         mem |-> [q \in 1 .. Len(reg[e.a].mem) |-> XMul(reg[e.a].mem[q], reg[e.b].mem[q])]]
      [] e.e = "inv" -> [irr |-> reg[e.a].irr, mem |-> [q \in 1 .. Len(reg[e.a].mem) |-> XInv(reg[e.a].mem[q])]]
IsNew(e) == e.e \in {"con", "mul", "inv"}

NewVerdict(e) ==
    IF ~(WellM(e.o.m) /\ WellM(e.o.i)) THEN "not an interval"
    ELSE LET r == NewReg(e)
         IN  IF ~(\A q \in 1 .. Len(r.mem) : InM(r.mem[q].m, e.o.m, r.irr)) THEN "interval matrix misses the matrix of a member"
             ELSE Say(\A q \in 1 .. Len(r.mem) : InM(r.mem[q].i, e.o.i, r.irr), "interval inverse matrix misses the inverse of a member")
\* direction 0: forward, 1: inverse mapping
Dir(e, x) == IF e.dir = 0 THEN x ELSE XInv(x)
Image(c, x, v) == CASE c = "p" -> MapP(x.m, v) [] c = "v" -> MapV(x.m, v) [] c = "n" -> MapN(x.i, v)
HasImage(c, x, v) == c # "p" \/ RSgn(PointW(x.m, v)) # 0
MapOk(e, c, o, s, sel) ==
    LET r == reg[e.r]
    IN  \A q \in 1 .. Len(r.mem) :
           LET x == Dir(e, r.mem[q]) v == AtS(s, sel[q])
           IN  HasImage(c, x, v) => InS(Image(c, x, v), o, r.irr)
Verdict(e) ==
    IF e.e = "begin" THEN "ok"
    ELSE IF e.panic THEN "panic"
    ELSE IF IsNew(e) THEN NewVerdict(e)
    ELSE CASE e.e = "minv" ->
            LET r == reg[e.r]
            IN  IF ~WellM(e.o) THEN "not an interval"
                ELSE Say(\A q \in 1 .. Len(r.mem) : RSgn(MDet(r.mem[q].m)) = 0 \/ InM(MInv(r.mem[q].m), e.o, r.irr),
                         "inverse of an interval matrix misses the inverse of a member")
      [] e.e = "mscale" ->
            LET r == reg[e.r]
            IN  IF ~WellM(e.o) THEN "not an interval"
                ELSE Say(\A q \in 1 .. Len(r.mem) : InM(MScale(r.mem[q].m, At(e.s, e.sel[q])), e.o, r.irr), "multiple of an interval matrix")
      [] e.e = "map" ->
            IF ~WellS(e.o) THEN "not an interval"
            ELSE Say(MapOk(e, e.k, e.o, e.x, e.sel), "interval image misses the image of a member")
      [] e.e = "ray" ->
            IF ~(WellS(e.o.org) /\ WellS(e.o.d)) THEN "not an interval"
            ELSE IF ~MapOk(e, "p", e.o.org, e.org, e.sel) THEN "interval ray origin"
            ELSE IF ~MapOk(e, "v", e.o.d, e.d, e.sel) THEN "interval ray direction"
            ELSE Say(e.o.tmax = e.tmax, "interval ray extent")
Init == l = 1 /\ reg = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN  /\ Report(l, e, Verdict(e))
               /\ reg' = IF IsCtl(e) THEN reg ELSE IF e.e = "begin" THEN <<>>
                         ELSE IF IsNew(e) THEN Append(reg, NewReg(e)) ELSE reg
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_vars
=============================================================================
