------------------------------ MODULE MCScene -------------------------------
(***************************************************************************)
(* Design model: all histories of at most Steps creations, placements and  *)
(* insertions (lists in lists, placements of placements, shared members).  *)
(* The scanning algorithm answers every query as the definition says, and  *)
(* the order of insertion does not matter.                                 *)
(***************************************************************************)
EXTENDS Scene, TLC, Json
CONSTANTS Steps
VARIABLES g, prog
vars == <<g, prog>>
Pars == {{1}, {3}, {1, 3}, {-1, 2}}
Shifts == {-1, 2}
Exts == {0, 1, 2, 3, 9}
N == Len(g)
Init == g = <<>> /\ prog = <<>>
NewLeaf(p) == g' = Append(g, Leaf(p)) /\ prog' = Append(prog, [op |-> "leaf", a |-> p])
NewList == g' = Append(g, List(<<>>)) /\ prog' = Append(prog, [op |-> "list"])
Place(n, s) == g' = Append(g, Placed(n, s)) /\ prog' = Append(prog, [op |-> "xf", of |-> n, s |-> s])
Insert(l, m) == /\ g[l].k = "list" /\ l \notin Below(g, m)
                /\ g' = [g EXCEPT ![l].mem = Append(@, m)]
                /\ prog' = Append(prog, [op |-> "add", l |-> l, m |-> m])
Next == /\ Len(prog) < Steps
        /\ \/ \E p \in Pars : NewLeaf(p)
           \/ NewList
           \/ \E n \in 1 .. N, s \in Shifts : Place(n, s)
           \/ \E l \in 1 .. N, m \in 1 .. N : Insert(l, m)
Spec == Init /\ [][Next]_vars
Answers == \A n \in 1 .. N, x \in Exts : Walk(g, n, 0, x) = First(g, n, x)
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
OrderFree == \A n \in 1 .. N : g[n].k = "list" =>
    LET h == [g EXCEPT ![n].mem = Reverse(@)] IN \A x \in Exts : Walk(h, n, 0, x) = Walk(g, n, 0, x)
YesNo == \A n \in 1 .. N, x \in Exts : (Walk(g, n, 0, x) # None) = (\E t \in Meets(g, n) : 0 <= t /\ t <= x)
Sound == \A n \in 1 .. N, x \in Exts : LET h == Walk(g, n, 0, x) IN h = None \/ (0 <= h /\ h <= x /\ h \in Meets(g, n))
Rich == \E i \in 1 .. Len(prog) : prog[i].op \in {"add", "xf"}
Export == ~(Len(prog) = Steps /\ Rich) \/ PrintT("SCN " \o ToJson([prog |-> prog]))
=============================================================================
