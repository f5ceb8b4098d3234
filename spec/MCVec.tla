------------------------------- MODULE MCVec -------------------------------
(***************************************************************************)
(* Design model of the vector algebra: a point p and two vectors v, w are  *)
(* moved about by the operations (each as the code composes them from      *)
(* component operations); the laws that tie the operations together hold   *)
(* in every reachable state.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, K
Dom == -N .. N
V3 == [1 .. 3 -> Dom]
VARIABLES p, v, w, pc
vars == <<p, v, w, pc>>
Add(a, b) == [i \in 1 .. 3 |-> a[i] + b[i]]
Sub(a, b) == [i \in 1 .. 3 |-> a[i] - b[i]]
Neg(a) == [i \in 1 .. 3 |-> -a[i]]
Scl(a, s) == [i \in 1 .. 3 |-> a[i] * s]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == [i \in 1 .. 3 |->
    LET j == (i % 3) + 1 k == ((i + 1) % 3) + 1 IN a[j] * b[k] - a[k] * b[j]]
Min(a, b) == [i \in 1 .. 3 |-> IF a[i] < b[i] THEN a[i] ELSE b[i]]
Max(a, b) == [i \in 1 .. 3 |-> IF a[i] > b[i] THEN a[i] ELSE b[i]]

Init == v \in V3 /\ w \in V3 /\ p = [i \in 1 .. 3 |-> 0] /\ pc = 0
SetV(x) == v' = x /\ UNCHANGED <<p, w>>
Next == /\ pc < K /\ pc' = pc + 1
        /\ \/ p' = Add(p, v) /\ UNCHANGED <<v, w>>
           \/ p' = Sub(p, v) /\ UNCHANGED <<v, w>>
           \/ SetV(Add(v, w)) \/ SetV(Sub(v, w)) \/ SetV(Neg(v)) \/ SetV(Scl(v, 2))
           \/ SetV(Cross(v, w)) \/ SetV(Min(v, w)) \/ SetV(Max(v, w))
Spec == Init /\ [][Next]_vars

Torsor == Sub(Add(p, v), p) = v /\ Sub(Add(p, v), v) = p /\ Add(Sub(v, p), p) = v
CrossLaws == /\ Dot(Cross(v, w), v) = 0 /\ Dot(Cross(v, w), w) = 0
             /\ Cross(v, w) = Neg(Cross(w, v))
             /\ Dot(Cross(v, w), Cross(v, w)) + Dot(v, w) * Dot(v, w) = Dot(v, v) * Dot(w, w)
DotLaws == /\ Dot(v, w) = Dot(w, v) /\ Dot(Add(v, p), w) = Dot(v, w) + Dot(p, w)
           /\ Dot(v, v) >= 0 /\ (Dot(v, v) = 0) = (v = [i \in 1 .. 3 |-> 0])
           /\ Dot(Sub(v, w), Sub(v, w)) = Dot(v, v) - 2 * Dot(v, w) + Dot(w, w)
Lattice == /\ Add(Min(v, w), Max(v, w)) = Add(v, w)
           /\ \A i \in 1 .. 3 : Min(v, w)[i] <= v[i] /\ v[i] <= Max(v, w)[i]
Export == pc # 0 \/ PrintT("SCN " \o ToJson([a |-> v, b |-> w]))
=============================================================================
