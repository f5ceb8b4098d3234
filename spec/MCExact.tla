------------------------------ MODULE MCExact ------------------------------
(***************************************************************************)
(* Self-test of module Exact.  Every pair of sample rationals is a state;  *)
(* the laws of ordered-field arithmetic are invariants, and every result   *)
(* is printed.  The model is run twice, once with the Java override and    *)
(* once with the TLA+ definitions alone, and the two outputs must be the   *)
(* same text (tools/check.py compares them).                               *)
(***************************************************************************)
EXTENDS Exact, TLC, Json
CONSTANTS M,                                 \* how many samples of each shape
          R                                  \* how many of the results to print
VARIABLES a, b, done
vars == <<a, b, done>>

\* samples: small fractions, numbers around limb borders (2^15, 2^30), long
\* numerators and denominators, dyadics as they come from floats
Small == {RFrac(i, j) : i \in (-M) .. M, j \in 1 .. M}
Border == {RAdd(RPow2(15), RInt(i)) : i \in (-1) .. 1} \cup {RAdd(RPow2(30), RInt(i)) : i \in (-1) .. 1}
             \cup {RNeg(RSub(RPow2(45), R1)), RSub(RPow2(60), R1), RPow2(75)}
Long == {RMul(RAdd(RPow2(40), RInt(i)), RPow2(-70)) : i \in 1 .. M}
           \cup {RDiv(RAdd(RPow2(33), RInt(i)), RAdd(RPow2(47), RInt(3 * i))) : i \in 1 .. M}
           \cup {RNeg(RMul(RAdd(RPow2(23), RInt(977 * i)), RPow2(-149))) : i \in 1 .. M}
S == Small \cup Border \cup Long

Init == a \in S /\ b = R0 /\ done = 0
Next == done = 0 /\ done' = 1 /\ a' = a /\ b' \in S
Spec == Init /\ [][Next]_vars

Canon(x) == /\ x[1] \in {-1, 0, 1} /\ (x[1] = 0) = (x[2] = <<>>)
            /\ \A i \in DOMAIN x[2] : x[2][i] \in 0 .. 32767
            /\ \A i \in DOMAIN x[3] : x[3][i] \in 0 .. 32767
            /\ x[3] # <<>> /\ x[3][Len(x[3])] # 0
            /\ (x[2] # <<>> => x[2][Len(x[2])] # 0)
Laws == done = 1 =>
    /\ Canon(RAdd(a, b)) /\ Canon(RMul(a, b))
    /\ RAdd(a, b) = RAdd(b, a) /\ RMul(a, b) = RMul(b, a)
    /\ RSub(RAdd(a, b), b) = a
    /\ (RSgn(b) # 0 => RMul(RDiv(a, b), b) = a)
    /\ RMul(a, RAdd(a, b)) = RAdd(RMul(a, a), RMul(a, b))
    /\ RCmp(a, b) = -RCmp(b, a) /\ (RCmp(a, b) = 0) = (a = b)
    /\ RCmp(a, b) = RSgn(RSub(a, b))
Rounds == done = 0 =>
    /\ \A k \in {0, 1, 20} : LET f == RFloor2(a, k)
                             IN  RLe(f, a) /\ RLt(a, RAdd(f, RPow2(-k)))
    /\ LET q == RAbs(a) r == RSqrt2(q, 10)
       IN  RLe(RSq(r), q) /\ RLt(q, RSq(RAdd(r, RPow2(-10))))
    /\ (RSgn(a) # 0 => RLe(RPow2(RLog2(a)), RAbs(a)) /\ RLt(RAbs(a), RPow2(RLog2(a) + 1)))
    /\ (RLt(RAbs(a), RPow2(29)) => RInt(RFloorInt(a)) = RFloor2(a, 0))
\* the printed sample (the TLA+ definitions need up to a second per result)
Mid == RDiv(RAdd(RPow2(17), R1), RSub(RPow2(16), RInt(15)))
Some == {RFrac(i, j) : i \in {-1, 0, R}, j \in 1 .. R} \cup {RAdd(RPow2(15), RInt(i)) : i \in (-1) .. 1}
           \cup {RNeg(RSub(RPow2(30), R1)), RMul(RAdd(RPow2(23), RInt(977)), RPow2(-30)), Mid}
PShown == IF done = 0
    THEN PrintT("X1 " \o ToJson(<<a, RFloor2(a, 0), RFloor2(a, 7), RSqrt2(RAbs(a), 4),
                       IF RSgn(a) = 0 THEN 0 ELSE RLog2(a), RNeg(a), RAbs(a), RFloorInt(RDiv(a, RPow2(20)))>>))
    ELSE PrintT("X2 " \o ToJson(<<a, b, RAdd(a, b), RSub(a, b), RMul(a, b), RCmp(a, b),
                       IF RSgn(b) = 0 THEN R0 ELSE RDiv(a, b)>>))
PInit == a \in Some /\ b = R0 /\ done = 0
PNext == done = 0 /\ done' = 1 /\ a' = a /\ b' \in Some
PSpec == PInit /\ [][PNext]_vars
=============================================================================
