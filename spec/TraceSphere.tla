---------------------------- MODULE TraceSphere -----------------------------
(***************************************************************************)
(* Recorded ray-sphere queries against module Sphere: C17 which point is   *)
(* hit, C18 its surface description and the attributes of the patch.       *)
(* A float evaluation perturbs the quadratic's coefficients; the error of  *)
(* a root is that perturbation over twice the square root of the           *)
(* discriminant.  Candidates that this error leaves open are not decided;  *)
(* a query whose arithmetic is exact is decided exactly.                   *)
(***************************************************************************)
EXTENDS TraceBase, Sphere
VARIABLE l
W == 32
U == Eps(W)
UK(k) == RMul(RInt(k), U)
F3(s) == [k \in 1 .. Len(s) |-> DecV(s[k])]
Fin3(s) == \A k \in 1 .. Len(s) : IsFin(Dec(s[k]))
Patch(e) == [r |-> DecV(e.r), z0 |-> DecV(e.z0), z1 |-> DecV(e.z1), ph |-> DecV(e.ph)]

\* short dyadic numbers: sums of products of a few of them are exact
Short(x) == RLe(RAbs(x), RInt(64)) /\ RFloor2(x, 3) = x
IsPow2(x) == x = RPow2(RLog2(x))
ExactQ(o, d, s) ==
    /\ \A k \in S3 : Short(o[k]) /\ Short(d[k])
    /\ Short(s.r) /\ IsPow2(QA(d))
    /\ LET D == Disc(o, d, s.r) IN RSgn(D) > 0 /\ SqrtEq(D) /\ RLe(D, RPow2(22))

\* a tangent, touching at -h/a, with the discriminant exactly zero in any order of evaluation
Touching(o, d, s) ==
    /\ \A k \in S3 : Short(o[k]) /\ Short(d[k])
    /\ Short(s.r) /\ RSgn(Disc(o, d, s.r)) = 0
    /\ RLe(RMul(QA(d), RAdd(VSq(o), RSq(s.r))), RPow2(11))

\* the ray starts exactly on the sphere: the root at 0 is exact in any order of evaluation
Starting(o, d, s) ==
    /\ \A k \in S3 : Short(o[k]) /\ Short(d[k])
    /\ Short(s.r) /\ VSq(o) = RSq(s.r) /\ RLe(Disc(o, d, s.r), RPow2(22))

Scale2(o, d, s, t) == RAdd(RAdd(VSq(o), RMul(RSq(t), QA(d))), RSq(s.r))
RootErr(o, d, s, t) == RDiv(RMul(UK(24), Scale2(o, d, s, t)), SqrtLo(Disc(o, d, s.r)))
DiscErr(o, d, s) == RMul(UK(32), RMul(QA(d), RAdd(VSq(o), RSq(s.r))))
PosErr(o, d, t, dt, k) == RAdd(RMul(RAbs(d[k]), dt), RAdd(RMul(UK(8), RAdd(RAbs(o[k]), RAbs(RMul(d[k], t)))), RPow2(-140)))

\* does the candidate at t (known to within dt) count?
InExt(t, dt, ext) == IF IsFin(ext) THEN Within(t, R0, Val(ext), dt) ELSE Within(t, R0, RAdd(RAbs(t), RAdd(dt, R1)), dt)
Counts(o, d, s, ext, t, dt, ex) ==
    LET p == PointAt(o, d, t)
        e == [k \in S3 |-> IF ex THEN R0 ELSE PosErr(o, d, t, dt, k)]
        f == [k \in S3 |-> PosErr(o, d, t, dt, k)]
    IN  And3(InExt(t, IF ex THEN R0 ELSE dt, ext),
             And3(Within(p[3], s.z0, s.z1, e[3]), Azimuth(s, p[1], p[2], f[1], f[2], UK(32))))

OnRay(f, o, d) ==
    LET t == DecV(f.t) p == F3(f.p) q == PointAt(o, d, t)
    IN  \A k \in S3 : RNear(p[k], q[k], PosErr(o, d, t, R0, k))
OnSphere(f, o, d, s) ==
    LET t == DecV(f.t) q == PointAt(o, d, t)
    IN  RLe(RAbs(RSub(VSq(q), RSq(s.r))), RMul(UK(96), Scale2(o, d, s, t)))
InBox(e, o, d) ==
    LET t == DecV(e.o.full.t) p == F3(e.o.full.p) lo == F3(e.o.lo) hi == F3(e.o.hi)
        \* a reported point may be off the sphere by the root's rounding
        tol == RAdd(RMul(UK(96), RDiv(Scale2(o, d, Patch(e), t), DecV(e.r))), RPow2(-140))
    IN  \A k \in S3 : RLe(RSub(lo[k], tol), p[k]) /\ RLe(p[k], RAdd(hi[k], tol))
Which(e, o, d, s, ext) ==                       \* decided discriminant > 0
    LET f == e.o.full
        rt == Roots(o, d, s.r)
        ex == ExactQ(o, d, s)
        e1 == RootErr(o, d, s, rt[1]) e2 == RootErr(o, d, s, rt[2])
        st == Starting(o, d, s)
        c1 == Counts(o, d, s, ext, rt[1], e1, ex \/ (st /\ RSgn(rt[1]) = 0))
        c2 == Counts(o, d, s, ext, rt[2], e2, ex \/ (st /\ RSgn(rt[2]) = 0))
        t == DecV(f.t)
        is1 == RNear(t, rt[1], e1) is2 == RNear(t, rt[2], e2)
    IN  IF ~f.hit THEN Say(c1 # "yes" /\ c2 # "yes", "hit missed")
        ELSE IF ~is1 /\ ~is2 THEN "parameter is not where the ray meets the sphere"
        ELSE IF is1 /\ c1 # "no" THEN "ok"
        ELSE IF is2 /\ c1 = "yes" THEN "not the nearest point of the patch"
        ELSE Say(is2 /\ c2 # "no", "reported point is not on the patch or not within the ray's extent")
TangentOk(e, o, d, s, ext) ==
    LET f == e.o.full t == RNeg(RDiv(QH(o, d), QA(d))) dt == RMul(UK(8), RAbs(t)) n == Counts(o, d, s, ext, t, dt, FALSE)
    IN  IF ~f.hit THEN Say(n # "yes", "tangent ray missed")
        ELSE IF n = "no" THEN "tangent point is not on the patch or not within the ray's extent"
        ELSE Say(RNear(DecV(f.t), t, dt), "parameter is not where the ray touches the sphere")
C17(e, o, d, s, ext) ==
    LET f == e.o.full D == Disc(o, d, s.r) E == DiscErr(o, d, s)
    IN  IF e.o.yes # f.hit THEN "yes/no query disagrees"
        ELSE IF RLt(D, RNeg(E)) THEN Say(~f.hit, "hit reported where the ray misses the sphere")
        ELSE IF f.hit /\ ~(IsFin(Dec(f.t)) /\ Fin3(f.p)) THEN "not finite"
        ELSE IF f.hit /\ ~OnRay(f, o, d) THEN "hit point is not on the ray"
        ELSE IF f.hit /\ ~OnSphere(f, o, d, s) THEN "hit point is not on the sphere"
        ELSE IF f.hit /\ ~InBox(e, o, d) THEN "hit point outside the bounding box"
        ELSE IF Touching(o, d, s) THEN TangentOk(e, o, d, s, ext)
        ELSE IF RLt(D, RMul(RInt(4), E)) THEN "ok"          \* grazing: not decided
        ELSE Which(e, o, d, s, ext)

(*** C18 ***)
Off(p, s) == RDiv(RAbs(RSub(SqrtOf(VSq(p)), s.r)), s.r)     \* relative distance from the sphere
NormalOk(n, p, s) ==
    LET L == SqrtOf(VSq(p)) tol == RAdd(UK(16), RMul(R2, Off(p, s)))
    IN  /\ \A k \in S3 : RNear(n[k], RDiv(p[k], L), tol)
        /\ RNear(VSq(n), R1, UK(16))
AttrOk(e, s) ==
    LET t0 == DecV(e.o.th0) t1 == DecV(e.o.th1)
    IN  IF ~AcosNear(t0, RDiv(s.z0, s.r), UK(2), UK(8)) THEN "polar angle of the lower limit"
        ELSE IF ~AcosNear(t1, RDiv(s.z1, s.r), UK(2), UK(8)) THEN "polar angle of the upper limit"
        ELSE LET a == RMul(RMul(RAdd(s.ph, PiMid), s.r), RSub(s.z1, s.z0))
             IN  Say(RNear(DecV(e.o.area), a, RAdd(RMul(UK(16), a), RMul(UK(16), RMul(s.r, RSub(s.z1, s.z0))))), "area")
\* rho and azimuth error of a reported point
AzErr(p, rho, s) == RAdd(UK(64), RDiv(RMul(UK(8), s.r), rho))
UOk(f, p, rho, s) ==
    LET u == DecV(f.uv[1]) t == RSub(RMul(u, RAdd(s.ph, PiMid)), PiMid)
    IN  RSgn(rho) = 0 \/ AzNear(t, p[2], p[1], AzErr(p, rho, s), FullTurn(s) \/ RLe(RAbs(p[2]), RMul(UK(8), s.r)))
VOk(f, p, s, t0, t1) ==
    LET v == DecV(f.uv[2]) t == RAdd(t0, RMul(v, RSub(t1, t0)))
    IN  AcosNear(t, RDiv(p[3], s.r), RAdd(UK(4), RMul(R2, Off(p, s))), UK(64))
Unit01(f, s, t0, t1) ==
    LET u == DecV(f.uv[1]) v == DecV(f.uv[2])
        eu == RDiv(UK(32), RAdd(s.ph, PiMid)) ev == RDiv(UK(32), RAbs(RSub(t1, t0)))
    IN  Within(u, R0, R1, RNeg(eu)) = "yes" /\ Within(v, R0, R1, RNeg(ev)) = "yes"
DuOk(f, p, s) ==
    LET a == F3(f.du) g == RAdd(s.ph, PiMid)
        tol == RAdd(RMul(RMul(RAdd(UK(32), RMul(R2, Off(p, s))), s.r), g), RMul(UK(8), s.r))
    IN  /\ RNear(a[1], RMul(RNeg(p[2]), g), tol)
        /\ RNear(a[2], RMul(p[1], g), tol)
        /\ RNear(a[3], R0, tol)
DvOk(f, p, rho, s, t0, t1) ==
    LET a == F3(f.dv) g == RSub(t1, t0) ag == RAbs(g)
        base == RAdd(UK(32), RMul(R2, Off(p, s)))
        \* the sine of an arc cosine: ill-conditioned near the poles
        cap == SqrtOf(RMul(RInt(4), base))
        sz == IF RSgn(rho) = 0 THEN cap ELSE RMin(RDiv(RMul(base, s.r), rho), cap)
        \* direction of (x, y)
        sx == IF RSgn(rho) = 0 THEN R0 ELSE RAdd(base, RDiv(RMul(UK(8), s.r), rho))
        tz == RAdd(RMul(RMul(RAdd(sz, base), s.r), ag), RMul(UK(8), s.r))
        tx == RAdd(RMul(RMul(sx, s.r), ag), RMul(UK(8), s.r))
    IN  /\ RNear(a[3], RNeg(RMul(rho, g)), tz)
        /\ RSgn(rho) = 0 \/
             (/\ RNear(a[1], RMul(RMul(p[3], RDiv(p[1], rho)), g), tx)
              /\ RNear(a[2], RMul(RMul(p[3], RDiv(p[2], rho)), g), tx))
Surface(e, s) ==
    LET f == e.o.full p == F3(f.p) rho == Rho(p) t0 == DecV(e.o.th0) t1 == DecV(e.o.th1)
    IN  IF RGt(Off(p, s), RPow2(-12)) THEN "ok"             \* rounding of a distant hit dominates
        ELSE IF ~NormalOk(F3(f.n), p, s) THEN "normal"
        ELSE IF ~Unit01(f, s, t0, t1) THEN "surface coordinates outside the unit square"
        ELSE IF ~UOk(f, p, rho, s) THEN "first surface coordinate"
        ELSE IF ~VOk(f, p, s, t0, t1) THEN "second surface coordinate"
        ELSE IF ~DuOk(f, p, s) THEN "first tangent"
        ELSE Say(DvOk(f, p, rho, s, t0, t1), "second tangent")
C18(e, s) ==
    LET f == e.o.full
        fin == IsFin(Dec(e.o.th0)) /\ IsFin(Dec(e.o.th1)) /\ IsFin(Dec(e.o.area))
        a == IF fin THEN AttrOk(e, s) ELSE "attributes are not finite"
    IN  IF a # "ok" THEN a
        ELSE IF ~f.hit THEN "ok"
        ELSE IF ~(Fin3(f.p) /\ Fin3(f.n) /\ Fin3(f.uv) /\ Fin3(f.du) /\ Fin3(f.dv)) THEN "not finite"
        ELSE Surface(e, s)
Verdict(e) ==
    IF e.panic THEN "panic"
    ELSE IF e.o.full.hit # Has(e.o.full, "p") THEN "malformed"
    ELSE IF Prop = "C18" THEN C18(e, Patch(e))
    ELSE C17(e, F3(e.org), F3(e.d), Patch(e), Dec(e.tmax))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
