------------------------------- MODULE MCUlp -------------------------------
(***************************************************************************)
(* Design model of next_up / next_down: the integer manipulation of the    *)
(* sign-magnitude pattern used by the code, on every pattern of a small    *)
(* format with EB exponent and MB mantissa bits, against the definition by *)
(* values (least greater / greatest smaller representable number).  The    *)
(* walk state machine shows that every number of the format is reached.    *)
(***************************************************************************)
EXTENDS IEEE, TLC, Json, FiniteSets
CONSTANTS EB, MB
NM == 2 ^ (EB + MB)                          \* patterns per sign
INFM == (2 ^ EB - 1) * 2 ^ MB                \* magnitude of infinity
Pat == [neg : BOOLEAN, mag : 0 .. NM - 1]
V(p) == LET v == MagValue(p.mag, EB, MB)
        IN  IF p.neg /\ ~IsNaN(v) THEN ENeg(v) ELSE v
Num == {p \in Pat : ~IsNaN(V(p))}

\* the algorithm of the code
Up(p) == IF IsNaN(V(p)) \/ (~p.neg /\ p.mag = INFM) THEN p
         ELSE IF p.mag = 0 THEN [neg |-> FALSE, mag |-> 1]
         ELSE IF ~p.neg THEN [p EXCEPT !.mag = @ + 1] ELSE [p EXCEPT !.mag = @ - 1]
Down(p) == IF IsNaN(V(p)) \/ (p.neg /\ p.mag = INFM) THEN p
           ELSE IF p.mag = 0 THEN [neg |-> TRUE, mag |-> 1]
           ELSE IF ~p.neg THEN [p EXCEPT !.mag = @ - 1] ELSE [p EXCEPT !.mag = @ + 1]

VARIABLES x, seen
vars == <<x, seen>>
Init == x \in Pat /\ seen = 1
StepUp == x' = Up(x) /\ x' # x /\ seen' = 2
StepDown == x' = Down(x) /\ x' # x /\ seen' = 2
Next == StepUp \/ StepDown
Spec == Init /\ [][Next]_vars

\* the definition by values
IsLeastGreater(p, q) ==
    \/ V(p) = PInf /\ V(q) = PInf
    \/ /\ ELt(V(p), V(q))
       /\ \A r \in Num : ELt(V(p), V(r)) => ELe(V(q), V(r))
IsGreatestSmaller(p, q) ==
    \/ V(p) = NInf /\ V(q) = NInf
    \/ /\ ELt(V(q), V(p))
       /\ \A r \in Num : ELt(V(r), V(p)) => ELe(V(r), V(q))
Adjacent == IF x \in Num THEN IsLeastGreater(x, Up(x)) /\ IsGreatestSmaller(x, Down(x))
            ELSE Up(x) = x /\ Down(x) = x
Inverse == (x \in Num /\ x.mag \notin {0, INFM})
           => EEq(V(Down(Up(x))), V(x)) /\ EEq(V(Up(Down(x))), V(x))
\* ordinal arithmetic of the trace specification agrees
OrdOf(p) == IF p.neg THEN -p.mag ELSE p.mag
MinI(a, b) == IF a < b THEN a ELSE b
OrdinalView == x \in Num => OrdOf(Up(x)) = MinI(OrdOf(x) + 1, INFM)
Export == seen = 2 \/ PrintT("SCN " \o ToJson([s |-> IF x.neg THEN 1 ELSE 0,
             e |-> x.mag \div 2 ^ MB, m |-> x.mag % 2 ^ MB, E |-> 2 ^ EB - 1, M |-> 2 ^ MB - 1]))
=============================================================================
