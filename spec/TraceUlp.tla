------------------------------ MODULE TraceUlp ------------------------------
(***************************************************************************)
(* Recorded calls of next_up / next_down against module Ulp.               *)
(* step: one call.  start/walk: a walk along the line.  open/seg/close: the*)
(* complete graph of the function on a contiguous range of 32-bit patterns,*)
(* as maximal runs lo..hi on which (pattern of result) - (pattern) is      *)
(* constant; the runs must follow each other without gap.                  *)
(***************************************************************************)
EXTENDS TraceBase, Ulp
VARIABLES l, at, pos                        \* at: place of the walk, pos: pattern expected next
vars == <<l, at, pos>>

\* successor of a 32-bit pattern held as a signed word
Succ(w) == IF w = 2147483647 THEN (-2147483647) - 1 ELSE w + 1

\* Both ends of a run answer correctly and have the same sign.  Within one
\* sign the ordinal is the pattern up to a constant and a sign, and NaNs are
\* the largest magnitudes, so the whole run is then correct.
SegOk(e) ==
    LET lo == <<e.lo>>
        hi == <<e.hi>>
        R(x, y) == IF e.f = "up" THEN IsNextUp(x, y) ELSE IsNextDown(x, y)
    IN  /\ (e.lo < 0) = (e.hi < 0)
        /\ IF e.o.nan THEN IsNaN(Dec(lo)) /\ IsNaN(Dec(hi))
           ELSE /\ ~IsNaN(Dec(lo)) /\ ~IsNaN(Dec(hi))
                /\ R(lo, e.o.flo) /\ R(hi, e.o.fhi)

Verdict(e) ==
    CASE e.e = "step" -> IF e.panic THEN "panic"
                         ELSE Say(IsNextUp(e.x, e.o.up) /\ IsNextDown(e.x, e.o.dn), "not the neighbour")
      [] e.e = "start" -> "ok"
      [] e.e = "walk" -> Say(IF e.up THEN IsNextUp(at, e.o.y) ELSE IsNextDown(at, e.o.y), "walk left the line")
      [] e.e = "open" -> "ok"
      [] e.e = "seg" -> IF e.lo # pos THEN "gap in the graph" ELSE Say(SegOk(e), "wrong on a run of patterns")
      [] e.e = "close" -> Say(pos = Succ(e.hi), "graph incomplete")
      [] e.e = "segpanic" -> "panic"

Init == l = 1 /\ at = <<0>> /\ pos = 0
Consume(e) ==
    /\ at' = IF IsCtl(e) THEN at ELSE IF e.e = "start" THEN e.x ELSE IF e.e = "walk" THEN e.o.y ELSE at
    /\ pos' = IF IsCtl(e) THEN pos ELSE IF e.e = "open" THEN e.lo ELSE IF e.e = "seg" THEN Succ(e.hi) ELSE pos
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN  Report(l, e, Verdict(e)) /\ Consume(e)
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_vars
=============================================================================
