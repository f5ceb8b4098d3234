------------------------------- MODULE MCBox -------------------------------
(***************************************************************************)
(* Design model of box programs over a small lattice.  Each register holds *)
(* a box and, as a ghost, the set of lattice points it is meant to be; the *)
(* box operations of module Box keep the two in step.  Lattice points      *)
(* include the half-way points between coordinates, so openness matters.   *)
(***************************************************************************)
EXTENDS Box, FiniteSets, TLC, Json
CONSTANTS CX, CY, CZ          \* coordinates used by corners, per axis (even numbers)
VARIABLES reg, prog
vars == <<reg, prog>>
Grid(c) == LET lo == CHOOSE x \in c : \A y \in c : x <= y
               hi == CHOOSE x \in c : \A y \in c : y <= x
           IN  (lo - 1) .. (hi + 1)
Pts == Grid(CX) \X Grid(CY) \X Grid(CZ)
RP(p) == [k \in B3 |-> RInt(p[k])]
Between(p, q) == {x \in Pts : \A k \in B3 : (p[k] <= x[k] /\ x[k] <= q[k]) \/ (q[k] <= x[k] /\ x[k] <= p[k])}
Corners == CX \X CY \X CZ
MinC == CHOOSE p \in Corners : \A q \in Corners : p[1] <= q[1] /\ p[2] <= q[2] /\ p[3] <= q[3]
Cell(b, s) == [b |-> b, s |-> s]
New(p, q) == Cell(OfCorners(RP(p), RP(q)), Between(p, q))
Default == Cell(Box(RP(<<99, 99, 99>>), RP(<<-99, -99, -99>>)), {})
Init == \E p \in Corners, q \in Corners :
          reg = <<New(p, q)>> /\ prog = <<[op |-> "new", p |-> p, q |-> q]>>
Second == /\ Len(reg) = 1
          /\ \/ \E q \in Corners, p \in Corners : p[3] = MinC[3] /\ p[1] <= q[1] /\ p[2] <= q[2] /\
                 /\ reg' = Append(reg, New(p, q))
                 /\ prog' = Append(prog, [op |-> "new", p |-> p, q |-> q])
             \/ /\ reg' = Append(reg, Default)
                /\ prog' = Append(prog, [op |-> "dflt", p |-> <<0, 0, 0>>, q |-> <<0, 0, 0>>])
MinMax(s, k) == {x \in {p[k] : p \in s} : TRUE}
HullPts(s) == IF s = {} THEN {}
              ELSE {x \in Pts : \A k \in B3 : (\E p \in s : p[k] <= x[k]) /\ (\E p \in s : x[k] <= p[k])}
Combine == /\ Len(reg) = 2
           /\ \/ reg' = Append(reg, Cell(BUnion(reg[1].b, reg[2].b), HullPts(reg[1].s \cup reg[2].s)))
                 /\ prog' = Append(prog, [op |-> "union", p |-> <<0, 0, 0>>, q |-> <<0, 0, 0>>])
              \/ reg' = Append(reg, Cell(BInter(reg[1].b, reg[2].b), reg[1].s \cap reg[2].s))
                 /\ prog' = Append(prog, [op |-> "inter", p |-> <<0, 0, 0>>, q |-> <<0, 0, 0>>])
Next == Second \/ Combine
Spec == Init /\ [][Next]_vars
Last == reg[Len(reg)]
IsSet == \A p \in Pts : Inside(Last.b, RP(p)) = (p \in Last.s)
EmptyMatches == IsEmpty(Last.b) = (Last.s = {})
Laws == Len(reg) < 2 \/
        LET a == reg[1].b b == reg[2].b u == BUnion(a, b) i == BInter(a, b)
        IN  /\ SameSet(u, BUnion(b, a)) /\ SameSet(i, BInter(b, a)) /\ BUnion(a, a) = a /\ BInter(a, a) = a
            /\ Within(a, u) /\ Within(b, u) /\ Within(i, a) /\ Within(i, b)
            /\ Overlap(a, b) = Overlap(b, a)
            \* strict overlap: a common point that stays common under small moves of either box
            /\ ((~IsEmpty(a) /\ ~IsEmpty(b)) => (Overlap(a, b) => ~IsEmpty(i)))
            /\ (Overlap(a, b) => ~IsEmpty(a) /\ ~IsEmpty(b))
Export == Len(reg) < 3 \/ PrintT("SCN " \o ToJson([bp |-> prog]))
=============================================================================
