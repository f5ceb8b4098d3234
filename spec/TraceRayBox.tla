---------------------------- MODULE TraceRayBox -----------------------------
(***************************************************************************)
(* Recorded ray-box queries against module RayBox: C15 the parameters and  *)
(* the yes/no answer, C16 the surface description of the full query.       *)
(* A float evaluation rounds each slab parameter a few times, so a query   *)
(* is decided unless the exact answer changes within that error; when all  *)
(* its divisions are exact the answer must be exact.                       *)
(***************************************************************************)
EXTENDS TraceBase, RayBox
VARIABLE l
W == 32
G == RMul(RInt(8), Eps(W))
F3(s) == [k \in 1 .. Len(s) |-> DecV(s[k])]
Fin3(s) == \A k \in 1 .. Len(s) : IsFin(Dec(s[k]))
IsPow2(r) == RAbs(r) = RPow2(RLog2(RAbs(r)))
Repr(r) == RSgn(r) = 0 \/ (LET e == RLog2(RAbs(r)) s == RMul(r, RPow2(23 - e)) IN RFloor2(s, 0) = s)
Exact(b, o, d) == \A k \in B3 : RSgn(d[k]) = 0 \/
    (IsPow2(d[k]) /\ Repr(RSub(b.lo[k], o[k])) /\ Repr(RSub(b.hi[k], o[k])))
NearT(x, y, ex) == IF ~IsFin(y) THEN x = y
                   ELSE IsFin(x) /\ IF ex THEN x = y ELSE RNear(x[2], y[2], RMul(G, RAbs(y[2])))
C15(e, b, o, d, ext) ==
    LET ex == Exact(b, o, d)
        s == Stay(b, o, d, ext, R0)
        must == IF ex THEN NonEmptyStay(s) ELSE NonEmptyStay(Stay(b, o, d, ext, RNeg(G)))
        may == IF ex THEN NonEmptyStay(s) ELSE NonEmptyStay(Stay(b, o, d, ext, G))
    IN  IF IsEmpty(b) THEN Say(~e.o.hit /\ ~e.o.yes, "hit on an empty box")
        ELSE IF must /\ ~e.o.hit THEN "hit missed"
        ELSE IF ~may /\ e.o.hit THEN "hit reported where the ray misses the box"
        ELSE IF e.o.yes # e.o.hit THEN "yes/no query disagrees"
        ELSE IF ~e.o.hit THEN "ok"
        ELSE IF ~NearT(Dec(e.o.t0), s[1], ex) THEN "first parameter"
        ELSE Say(NearT(Dec(e.o.t1), s[2], ex), "last parameter")
Tol(b, o, d, t) == [k \in B3 |-> RAdd(RMul(RMul(RInt(16), Eps(W)),
                      RAdd(RAdd(RAbs(o[k]), RMul(RAbs(d[k]), RAbs(t))), RAdd(RAbs(b.lo[k]), RAbs(b.hi[k])))), RPow2(-140))]
Axial(n) == \E k \in B3 : RAbs(n[k]) = R1 /\ \A j \in B3 \ {k} : RSgn(n[j]) = 0
AxisOf(n) == CHOOSE k \in B3 : RSgn(n[k]) # 0
\* the point is the ray's point at t, on the boundary, with the outward normal of its face
Described(f, b, o, d) ==
    LET t == DecV(f.t) p == F3(f.p) n == F3(f.n) tol == Tol(b, o, d, t) q == At(o, d, t)
    IN  IF ~(\A k \in B3 : RNear(p[k], q[k], tol[k])) THEN "hit point is not on the ray"
        ELSE IF ~Axial(n) THEN "normal is not a unit normal of a face"
        ELSE LET k == AxisOf(n)
             IN  IF ~(InsideTol(b, p, tol) /\ OnFace(b, p, k, RSgn(n[k]), tol[k])) THEN "hit point is not on the face of the normal"
                 ELSE "ok"
Small(u, v) == RLe(RSq(VDot(u, v)), RMul(RPow2(-40), RMul(VSq(u), VSq(v))))
Tangents(f) == LET n == F3(f.n) u == F3(f.du) v == F3(f.dv)
               IN  /\ RSgn(VSq(u)) > 0 /\ RSgn(VSq(v)) > 0
                   /\ Small(n, u) /\ Small(n, v) /\ Small(u, v)
\* the documented shortcoming for rays that start inside: parameter 0 and the
\* origin moved to one of the faces
Snapped(f, b, o) ==
    LET p == F3(f.p) n == F3(f.n)
    IN  /\ RSgn(DecV(f.t)) = 0 /\ Axial(n)
        /\ LET k == AxisOf(n) IN /\ p[k] = (IF RSgn(n[k]) > 0 THEN b.hi[k] ELSE b.lo[k])
                                 /\ \A j \in B3 \ {k} : p[j] = o[j]
C16(e, b, o, d, ext) ==
    LET f == e.o.full
    IN  IF f.hit # e.o.yes THEN "full query disagrees with the yes/no query"
        ELSE IF ~f.hit THEN "ok"
        ELSE IF ~(IsFin(Dec(f.t)) /\ Fin3(f.p) /\ Fin3(f.n) /\ Fin3(f.du) /\ Fin3(f.dv)) THEN "not finite"
        ELSE IF ~Tangents(f) THEN "tangents"
        ELSE LET v == Described(f, b, o, d)
             IN  IF StrictlyInside(b, o)
                 THEN IF v = "ok" THEN "ok" ELSE IF Snapped(f, b, o) THEN "known:C16-inside" ELSE v
                 ELSE IF ~NearT(Dec(f.t), Stay(b, o, d, ext, R0)[1], Exact(b, o, d)) THEN "entry parameter"
                 ELSE v
Verdict(e) ==
    IF e.panic THEN "panic"
    ELSE LET b == Box(F3(e.lo), F3(e.hi)) o == F3(e.org) d == F3(e.d) ext == Dec(e.tmax)
         IN  IF Prop = "C15" THEN C15(e, b, o, d, ext) ELSE C16(e, b, o, d, ext)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Verdict(Trace[l]))
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_l
=============================================================================
