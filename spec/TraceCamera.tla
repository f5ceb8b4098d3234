---------------------------- MODULE TraceCamera -----------------------------
(***************************************************************************)
(* Recorded camera rays against module Camera (C21).  The lens sample is   *)
(* mapped to the disk by the concentric map (module Disk).                 *)
(***************************************************************************)
EXTENDS TraceBase, Camera, Xf
D == INSTANCE Disk
VARIABLE l
W == 32
UK(k) == RMul(RInt(k), Eps(W))
F3(s) == [k \in 1 .. Len(s) |-> DecV(s[k])]
Fin3(s) == \A k \in 1 .. Len(s) : IsFin(Dec(s[k]))
FM(m) == [i \in Ix |-> [j \in Ix |-> DecV(m[i][j])]]
\* tangent of half the field of view
TanHalf(f) == LET k == D!SinCos(RHalf(f)) IN RDiv(k.s, k.c)
Cam(e) == [fd |-> DecV(e.fd), th |-> TanHalf(DecV(e.fov)), fl |-> DecV(e.fl), lr |-> DecV(e.lr), ar |-> DecV(e.ar)]
Verdict(e) ==
    IF e.panic THEN "panic"
    ELSE IF ~(Fin3(e.o.org) /\ Fin3(e.o.d)) THEN "not finite"
    ELSE LET c == Cam(e) i == FM(e.i)
             f == Focus(c, DecV(e.pf[1]), DecV(e.pf[2]))
             p == LensPoint(c, D!ConcPoint(DecV(e.pl[1]), DecV(e.pl[2])))
             v == VSub(f, p) n == VNorm(v) u == VScale(v, RInv(n))
             \* film distance over focal distance amplifies the rounding of the focus point
             g == RAdd(R1, RDiv(c.fl, RSub(c.fd, c.fl)))
             half == RMul(RMul(c.th, c.fd), RAdd(R1, RInv(c.ar)))
             ep == RMul(UK(64), c.lr)
             ef == RMul(RMul(UK(128), g), RAdd(c.fd, half))
             eu == RAdd(RDiv(RMul(R2, RAdd(ef, ep)), n), UK(16))
             wo == MapP(i, p) wd == MapV(i, u)
             org == F3(e.o.org) d == F3(e.o.d)
             row(r) == RAdd(RAdd(RAbs(i[r][1]), RAbs(i[r][2])), RAbs(i[r][3]))
         IN  IF ~(\A r \in I3 : RNear(org[r], wo[r], RAdd(RMul(row(r), RAdd(ep, RMul(UK(16), c.lr))), RMul(UK(16), RAbs(i[r][4])))))
             THEN "ray does not start at its lens point"
             ELSE IF ~(\A r \in I3 : RNear(d[r], wd[r], RMul(row(r), eu))) THEN "ray does not head for its point of focus"
             ELSE Say(ELe(Fin(MaxFin(W)), Dec(e.o.tmax)), "extent")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
