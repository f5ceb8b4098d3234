------------------------------- MODULE MCXf --------------------------------
(***************************************************************************)
(* Design model of transform programs: registers are filled by             *)
(* constructors (exact parameters), products and inversions; in every      *)
(* reachable state the newest register obeys the laws of C09, C11 and C14. *)
(* Finished programs are exported to drive the code.                       *)
(***************************************************************************)
EXTENDS Xf, TLC, Json
CONSTANTS NCon, NOps, SecondGens
VARIABLES reg, prog
vars == <<reg, prog>>
Q(n, d) == RFrac(n, d)
Mk4(a, b, c) == [i \in Ix |-> IF i = 4 THEN <<R0, R0, R0, R1>> ELSE (IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE c)]
Rw(a, b, c, d) == <<RInt(a), RInt(b), RInt(c), RInt(d)>>
Gen == <<
  [m |-> Mk4(Rw(1, 0, 0, 1), Rw(0, 1, 0, -2), Rw(0, 0, 1, 3)), i |-> Mk4(Rw(1, 0, 0, -1), Rw(0, 1, 0, 2), Rw(0, 0, 1, -3))],
  [m |-> Mk4(Rw(2, 0, 0, 0), Rw(0, -1, 0, 0), <<R0, R0, Q(1, 2), R0>>), i |-> Mk4(<<Q(1, 2), R0, R0, R0>>, Rw(0, -1, 0, 0), Rw(0, 0, 2, 0))],
  [m |-> Mk4(Rw(1, 0, 0, 0), Rw(0, 0, -1, 0), Rw(0, 1, 0, 0)), i |-> Mk4(Rw(1, 0, 0, 0), Rw(0, 0, 1, 0), Rw(0, -1, 0, 0))],
  [m |-> Mk4(Rw(0, 0, 1, 0), Rw(0, 1, 0, 0), Rw(-1, 0, 0, 0)), i |-> Mk4(Rw(0, 0, -1, 0), Rw(0, 1, 0, 0), Rw(1, 0, 0, 0))],
  [m |-> Mk4(<<Q(3, 5), Q(-4, 5), R0, R0>>, <<Q(4, 5), Q(3, 5), R0, R0>>, Rw(0, 0, 1, 0)),
   i |-> Mk4(<<Q(3, 5), Q(4, 5), R0, R0>>, <<Q(-4, 5), Q(3, 5), R0, R0>>, Rw(0, 0, 1, 0))],
  [m |-> Mk4(Rw(0, 0, 1, 0), Rw(1, 0, 0, 0), Rw(0, 1, 0, 0)), i |-> Mk4(Rw(0, 1, 0, 0), Rw(0, 0, 1, 0), Rw(1, 0, 0, 0))],
  [m |-> Mk4(Rw(0, 0, -1, 2), Rw(0, 1, 0, -1), Rw(1, 0, 0, -4)), i |-> Mk4(Rw(0, 0, 1, 4), Rw(0, 1, 0, 1), Rw(-1, 0, 0, 2))],
  [m |-> <<Rw(-1, 0, 0, 0), Rw(0, -1, 0, 0), Rw(0, 0, 2, 2), Rw(0, 0, 1, 0)>>,
   i |-> <<Rw(-1, 0, 0, 0), Rw(0, -1, 0, 0), Rw(0, 0, 0, 1), <<R0, R0, Q(1, 2), RInt(-1)>>>>],
  XId >>
Entry(x, op, a, b) == [m |-> x.m, i |-> x.i, op |-> op, a |-> a, b |-> b]
Init == reg = <<>> /\ prog = <<>>
Con == /\ Len(reg) < NCon
       /\ \E g \in (IF Len(reg) = 0 THEN 1 .. Len(Gen) ELSE SecondGens) :
             reg' = Append(reg, Entry(Gen[g], "con", g, 0)) /\ prog' = Append(prog, [op |-> "con", a |-> g, b |-> 0])
Grow == Len(reg) >= NCon /\ Len(reg) < NCon + NOps
Mul == Grow /\ \E a \in 1 .. Len(reg), b \in 1 .. Len(reg) :
          reg' = Append(reg, Entry(XMul(reg[a], reg[b]), "mul", a, b)) /\ prog' = Append(prog, [op |-> "mul", a |-> a, b |-> b])
Inv == Grow /\ \E a \in 1 .. Len(reg) :
          reg' = Append(reg, Entry(XInv(reg[a]), "inv", a, 0)) /\ prog' = Append(prog, [op |-> "inv", a |-> a, b |-> 0])
Next == Con \/ Mul \/ Inv
Spec == Init /\ [][Next]_vars

Last == reg[Len(reg)]
Pts == {<<R1, R2, RInt(-3)>>, <<RInt(-1), R0, RInt(5)>>}
Vs == {<<R1, RInt(-2), R1>>, <<R0, R0, RInt(3)>>}
Ok(m, p) == RSgn(PointW(m, p)) # 0
Some == Len(reg) > 0
MutualInverse == Some => MMul(Last.m, Last.i) = MId /\ MMul(Last.i, Last.m) = MId
RoundTrip == Some => \A p \in Pts : Ok(Last.m, p) => LET q == MapP(Last.m, p) IN Ok(Last.i, q) /\ MapP(Last.i, q) = p
Composes == (Some /\ Last.op = "mul") =>
    /\ \A p \in Pts : Ok(reg[Last.b].m, p) =>
         LET q == MapP(reg[Last.b].m, p)
         IN  Ok(Last.m, p) = Ok(reg[Last.a].m, q) /\ (Ok(Last.m, p) => MapP(Last.m, p) = MapP(reg[Last.a].m, q))
    /\ (Affine(reg[Last.a].m) /\ Affine(reg[Last.b].m)) =>
         \A v \in Vs : /\ MapV(Last.m, v) = MapV(reg[Last.a].m, MapV(reg[Last.b].m, v))
                       /\ MapN(Last.i, v) = MapN(reg[Last.a].i, MapN(reg[Last.b].i, v))
Exchanges == (Some /\ Last.op = "inv") => Last.m = reg[Last.a].i /\ Last.i = reg[Last.a].m
AffineLaws == (Some /\ Affine(Last.m)) =>
    /\ Affine(Last.i)
    /\ \A v \in Vs : MapV(Last.i, MapV(Last.m, v)) = v /\ MapN(Last.m, MapN(Last.i, v)) = v
    /\ \A n \in Vs, v \in Vs : VDot(MapN(Last.i, n), MapV(Last.m, v)) = VDot(n, v)
    /\ \A p \in Pts, v \in Vs : MapP(Last.m, RayAt(p, v, R2)) = RayAt(MapP(Last.m, p), MapV(Last.m, v), R2)
BoxLaw == (Some /\ Affine(Last.m)) =>
    LET lo == <<RInt(-1), R0, R2>> hi == <<R2, R0, RInt(5)>>
        im == {MapP(Last.m, p) : p \in CornersOf3(lo, hi)}
        l == HullLo(Last.m, lo, hi) h == HullHi(Last.m, lo, hi)
    IN  \A k \in I3 : /\ \A q \in im : RLe(l[k], q[k]) /\ RLe(q[k], h[k])
                      /\ \E q \in im : q[k] = l[k]
                      /\ \E q \in im : q[k] = h[k]
Export == Len(reg) < NCon + NOps \/ PrintT("SCN " \o ToJson([prog |-> prog]))
=============================================================================
