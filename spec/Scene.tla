------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* Scenes as graphs of primitives (C19, C20), seen along one ray: a leaf   *)
(* is met at a set of parameters, a list at those of its members, a placed *)
(* object at those of the original moved by the placement.  Node n of the  *)
(* graph g is g[n].                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
None == -1000
Leaf(par) == [k |-> "leaf", par |-> par]
List(mem) == [k |-> "list", mem |-> mem]
Placed(of, s) == [k |-> "xf", of |-> of, s |-> s]
RECURSIVE Meets(_, _)
Meets(g, n) ==
    CASE g[n].k = "leaf" -> g[n].par
      [] g[n].k = "list" -> UNION {Meets(g, g[n].mem[i]) : i \in DOMAIN g[n].mem}
      [] g[n].k = "xf" -> {t + g[n].s : t \in Meets(g, g[n].of)}
Least(S) == CHOOSE t \in S : \A u \in S : t <= u
\* what a query has to answer: the nearest point met within [0, ext]
First(g, n, ext) == LET S == {t \in Meets(g, n) : 0 <= t /\ t <= ext} IN IF S = {} THEN None ELSE Least(S)
RECURSIVE Below(_, _)
Below(g, n) == {n} \cup (CASE g[n].k = "leaf" -> {}
                           [] g[n].k = "list" -> UNION {Below(g, g[n].mem[i]) : i \in DOMAIN g[n].mem}
                           [] g[n].k = "xf" -> Below(g, g[n].of))

(* the algorithm: members in order, the extent shrinking to the best hit;  *)
(* a placed object carries the ray (its start, here) to object space       *)
RECURSIVE Walk(_, _, _, _), Fold(_, _, _, _, _, _)
Walk(g, n, start, ext) ==
    CASE g[n].k = "leaf" -> LET S == {t \in {p - start : p \in g[n].par} : 0 <= t /\ t <= ext}
                            IN  IF S = {} THEN None ELSE Least(S)
      [] g[n].k = "list" -> Fold(g, g[n].mem, 1, start, ext, None)
      [] g[n].k = "xf" -> Walk(g, g[n].of, start - g[n].s, ext)
Fold(g, mem, i, start, ext, best) ==
    IF i > Len(mem) THEN best
    ELSE LET h == Walk(g, mem[i], start, ext)
         IN  IF h = None THEN Fold(g, mem, i + 1, start, ext, best)
             ELSE Fold(g, mem, i + 1, start, h, h)
=============================================================================
