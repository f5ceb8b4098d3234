------------------------------ MODULE MCScalar ------------------------------
(***************************************************************************)
(* Design model of the scalar helpers: a register x is driven by the       *)
(* helpers as the code defines them (comparisons only) on the integers     *)
(* -N..N; in every reachable state the code's definitions agree with the   *)
(* order-theoretic ones.  Approximate equality is modelled with small      *)
(* tolerances: it is symmetric and reflexive but not transitive.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, K
Dom == -N .. N
VARIABLES x, y, lo, hi, pc
vars == <<x, y, lo, hi, pc>>

\* the code's definitions
CMin(a, b) == IF a < b THEN a ELSE b
CMax(a, b) == IF a > b THEN a ELSE b
CMinMax(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
CClamp(a, l, h) == IF a < l THEN l ELSE IF a > h THEN h ELSE a
CSign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
CAbs(a) == IF a < 0 THEN -a ELSE a
\* |a-b| < A or |a-b| < max(|a|,|b|) * R / 8 : tolerances A = 1, R = 3
CClose(a, b) == LET d == CAbs(a - b) IN d < 1 \/ 8 * d < 3 * CMax(CAbs(a), CAbs(b))

Init == x \in Dom /\ y \in Dom /\ lo \in Dom /\ hi \in {h \in Dom : lo <= h} /\ pc = 0
Set(v) == x' = v /\ v \in Dom /\ UNCHANGED <<y, lo, hi>>
Next == /\ pc < K /\ pc' = pc + 1
        /\ \/ Set(CMin(x, y)) \/ Set(CMax(x, y)) \/ Set(CClamp(x, lo, hi))
           \/ Set(CAbs(x)) \/ Set(CSign(x)) \/ Set(x * x) \/ Set(-x)
           \/ x' = y /\ y' = x /\ UNCHANGED <<lo, hi>>
Spec == Init /\ [][Next]_vars

OrderLaws ==
    /\ CMin(x, y) \in {x, y} /\ CMin(x, y) <= x /\ CMin(x, y) <= y
    /\ CMax(x, y) \in {x, y} /\ CMax(x, y) >= x /\ CMax(x, y) >= y
    /\ CMinMax(x, y) = <<CMin(x, y), CMax(x, y)>>
    /\ CMin(x, y) + CMax(x, y) = x + y
ClampLaws ==
    /\ lo <= CClamp(x, lo, hi) /\ CClamp(x, lo, hi) <= hi
    /\ (lo <= x /\ x <= hi => CClamp(x, lo, hi) = x)
    /\ CClamp(CClamp(x, lo, hi), lo, hi) = CClamp(x, lo, hi)
    /\ CClamp(x, lo, hi) = CMin(CMax(x, lo), hi)
SignLaws == /\ x = CSign(x) * CAbs(x) /\ CAbs(x) = CMax(x, -x) /\ CAbs(x) >= 0
CloseLaws == CClose(x, x) /\ CClose(x, y) = CClose(y, x) /\ CClose(x, y) = CClose(-x, -y)
Export == pc # 0 \/ PrintT("SCN " \o ToJson([x |-> x, y |-> y, lo |-> lo, hi |-> hi]))
=============================================================================
