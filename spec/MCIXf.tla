------------------------------- MODULE MCIXf --------------------------------
(***************************************************************************)
(* Design model of interval-transform programs: registers filled by        *)
(* translations and scalings by intervals, products and inversions; each   *)
(* carries an exact member.  Whatever the program and the member, the      *)
(* newest register contains the member, maps the members of an interval to *)
(* members of the image, and maps there and back to a superset.            *)
(***************************************************************************)
EXTENDS IXf, Sequences, TLC, Json
CONSTANTS NCon, NOps, Shifts, Factors
VARIABLES reg, prog
vars == <<reg, prog>>
\* intervals of integers, shifted so that the configuration needs no negative numbers
Z(n) == n - 8
Ivs(S) == {x \in S \X S : x[1] <= x[2]}
I2(x) == Iv(Fin(RInt(Z(x[1]))), Fin(RInt(Z(x[2]))))
Clear(x) == Z(x[1]) > 0 \/ Z(x[2]) < 0
Entry(t, x) == [t |-> t, x |-> x]
Step(op, a, b, lo, hi) == [op |-> op, a |-> a, b |-> b, lo |-> lo, hi |-> hi]
Init == reg = <<>> /\ prog = <<>>
Con == /\ Len(reg) < NCon
       /\ \/ \E x \in Ivs(Shifts) : \E e \in {x[1], x[2]} :
                /\ reg' = Append(reg, Entry(ITr(I2(x)), XTr(RInt(Z(e)))))
                /\ prog' = Append(prog, Step("con", 1, 0, Z(x[1]), Z(x[2])))
          \/ \E x \in {y \in Ivs(Factors) : Clear(y)} : \E e \in {x[1], x[2]} :
                /\ reg' = Append(reg, Entry(ISc(I2(x)), XSc(RInt(Z(e)))))
                /\ prog' = Append(prog, Step("con", 2, 0, Z(x[1]), Z(x[2])))
Grow == Len(reg) >= NCon /\ Len(reg) < NCon + NOps
Mul == Grow /\ \E a \in 1 .. Len(reg), b \in 1 .. Len(reg) :
          /\ reg' = Append(reg, Entry(ICompose(reg[a].t, reg[b].t), XCompose(reg[a].x, reg[b].x)))
          /\ prog' = Append(prog, Step("mul", a, b, 0, 0))
Inv == Grow /\ \E a \in 1 .. Len(reg) :
          /\ reg' = Append(reg, Entry(IInvert(reg[a].t), XInvert(reg[a].x)))
          /\ prog' = Append(prog, Step("inv", a, 0, 0, 0))
Next == Con \/ Mul \/ Inv
Spec == Init /\ [][Next]_vars
Last == reg[Len(reg)]
Some == Len(reg) > 0
X0 == Iv(Fin(RInt(-1)), Fin(R2))
Enclosure == Some => Contains(Last.t, Last.x)
Images == Some => \A r \in {RInt(-1), R0, R2} :
             /\ In(XMap(Last.x, r), IMap(Last.t, X0))
             /\ In(XMap(XInvert(Last.x), r), IMapInv(Last.t, X0))
ThereAndBack == Some => Encloses(IMapInv(Last.t, IMap(Last.t, X0)), X0) /\ Encloses(IMap(Last.t, IMapInv(Last.t, X0)), X0)
\* exact entries give exact results
Degenerate == (Some /\ \A k \in 1 .. Len(prog) : prog[k].lo = prog[k].hi) => IsPoint(Last.t.a) /\ IsPoint(Last.t.b)
Export == Len(reg) < NCon + NOps \/ PrintT("SCN " \o ToJson([iprog |-> prog]))
=============================================================================
