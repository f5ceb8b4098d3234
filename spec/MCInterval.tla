----------------------------- MODULE MCInterval -----------------------------
(***************************************************************************)
(* Design model of interval arithmetic.                                    *)
(*                                                                         *)
(* The case analyses of the implementation (products and quotients by sign *)
(* cases, square, absolute value, clamp, comparisons) are transcribed on   *)
(* the integers -N..N with an outward step of 0..S on each bound standing  *)
(* for rounding, and run as a register machine: Load, Op.  TLC visits      *)
(* every reachable machine state and checks that every result encloses the *)
(* image of all members (by enumerating members, independently of the      *)
(* hull formulas of module Interval, which are themselves checked against  *)
(* the enumeration) and that the exact execution stays inside (Sound).     *)
(***************************************************************************)
EXTENDS Interval, TLC, Json, FiniteSets
CONSTANTS N,          \* load bounds -N..N
          K           \* program length
Ints == -N .. N
IvI == {<<x, y>> \in Ints \X Ints : x <= y}
Set(v) == Iv(Fin(RInt(v[1])), Fin(RInt(v[2])))
Q(v, i) == RInt(v[i])

\* rational intervals of the code's algorithm: <<lo, hi>> rationals, or All
All == <<>>
NonNeg(a) == RSgn(a[1]) >= 0
NonPos(a) == RSgn(a[2]) <= 0
Pos(a) == RSgn(a[1]) > 0
Ng(a) == RSgn(a[2]) < 0
MulAlg(a, b) ==
    IF NonNeg(a) THEN
        LET x == IF NonNeg(b) THEN a[1] ELSE a[2]
            y == IF NonPos(b) THEN a[1] ELSE a[2]
        IN  <<RMul(x, b[1]), RMul(y, b[2])>>
    ELSE IF NonPos(a) THEN
        LET x == IF NonPos(b) THEN a[2] ELSE a[1]
            y == IF NonNeg(b) THEN a[2] ELSE a[1]
        IN  <<RMul(x, b[2]), RMul(y, b[1])>>
    ELSE IF NonNeg(b) THEN <<RMul(a[1], b[2]), RMul(a[2], b[2])>>
    ELSE IF NonPos(b) THEN <<RMul(a[2], b[1]), RMul(a[1], b[1])>>
    ELSE <<RMin(RMul(a[1], b[2]), RMul(a[2], b[1])), RMax(RMul(a[1], b[1]), RMul(a[2], b[2]))>>
DivAlg(a, b) ==
    IF Pos(b) THEN
        LET x == IF NonNeg(a) THEN b[2] ELSE b[1]
            y == IF NonPos(a) THEN b[2] ELSE b[1]
        IN  <<RDiv(a[1], x), RDiv(a[2], y)>>
    ELSE IF Ng(b) THEN
        LET x == IF NonPos(a) THEN b[1] ELSE b[2]
            y == IF NonNeg(a) THEN b[1] ELSE b[2]
        IN  <<RDiv(a[2], x), RDiv(a[1], y)>>
    ELSE All
SquareAlg(a) == IF NonNeg(a) THEN <<RSq(a[1]), RSq(a[2])>>
                ELSE IF NonPos(a) THEN <<RSq(a[2]), RSq(a[1])>>
                ELSE <<R0, RSq(RMax(RNeg(a[1]), a[2]))>>
AbsAlg(a) == IF RSgn(a[1]) < 0 THEN <<R0, RMax(RAbs(a[1]), RAbs(a[2]))>> ELSE a
Alg2(f, a, b) ==
    CASE f = "add" -> <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
      [] f = "sub" -> <<RSub(a[1], b[2]), RSub(a[2], b[1])>>
      [] f = "mul" -> MulAlg(a, b)
      [] f = "div" -> DivAlg(a, b)
      [] f = "min" -> <<RMin(a[1], b[1]), RMin(a[2], b[2])>>
      [] f = "max" -> <<RMax(a[1], b[1]), RMax(a[2], b[2])>>
Alg1(f, a) ==
    CASE f = "neg" -> <<RNeg(a[2]), RNeg(a[1])>>
      [] f = "square" -> SquareAlg(a)
      [] f = "abs" -> AbsAlg(a)
      [] f = "signum" -> <<RInt(RSgn(a[1])), RInt(RSgn(a[2]))>>
Ops2 == {"add", "sub", "mul", "div", "min", "max"}
Ops1 == {"neg", "square", "abs", "signum"}

\* machine: two registers, each [iv: <<lo,hi>> rationals, w: exact value]
VARIABLES reg, pc
vars == <<reg, pc>>
Loads == {[iv |-> <<Q(v, 1), Q(v, 2)>>, w |-> RInt(m)] :
              v \in IvI, m \in Ints} 
Member(c) == RLe(c.iv[1], c.w) /\ RLe(c.w, c.iv[2])
Init == /\ reg \in [{1, 2} -> {c \in Loads : Member(c)}]
        /\ pc = 0
Widen(a, d) == IF d = 0 THEN a ELSE <<RSub(a[1], RFrac(1, 8)), RAdd(a[2], RFrac(1, 8))>>
Ex2(f, x, y) == Wit2(f, Fin(x), Fin(y))
Op2(f, d, wd) ==
    LET a == reg[1] b == reg[2] r == Alg2(f, a.iv, b.iv) x == Ex2(f, a.w, b.w)
    IN  /\ r # All /\ HasWit(x)
        /\ reg' = [reg EXCEPT ![d] = [iv |-> Widen(r, wd), w |-> x[2]]]
Op1(f, d, s, wd) ==
    LET a == reg[s] r == Alg1(f, a.iv)
    IN  reg' = [reg EXCEPT ![d] = [iv |-> Widen(r, wd), w |-> Wit1(f, Fin(a.w))[2]]]
DoOp2 == \E f \in Ops2, d \in {1, 2}, wd \in {0, 1} : Op2(f, d, wd)
DoOp1 == \E f \in Ops1, d \in {1, 2}, s \in {1, 2}, wd \in {0, 1} : Op1(f, d, s, wd)
Next == pc < K /\ pc' = pc + 1 /\ (DoOp2 \/ DoOp1)
Spec == Init /\ [][Next]_vars

\* the exact execution stays inside every enclosure
SoundMachine == \A r \in {1, 2} : Member(reg[r]) /\ RLe(reg[r].iv[1], reg[r].iv[2])
\* the algorithm's result is the hull of module Interval (abs may be looser)
RS(a) == Iv(Fin(a[1]), Fin(a[2]))
AlgIsHull ==
    /\ \A f \in Ops2 : LET r == Alg2(f, reg[1].iv, reg[2].iv)
                       IN  IF r = All THEN ESgn(RS(reg[2].iv).lo) <= 0 /\ ESgn(RS(reg[2].iv).hi) >= 0
                           ELSE RS(r) = Hull2(f, RS(reg[1].iv), RS(reg[2].iv))
    /\ \A f \in Ops1 : IF f = "abs" THEN Encloses(RS(Alg1(f, reg[1].iv)), Hull1(f, RS(reg[1].iv)))
                       ELSE RS(Alg1(f, reg[1].iv)) = Hull1(f, RS(reg[1].iv))
    /\ LET d == HDiv(RS(reg[1].iv), RS(reg[2].iv)) IN d = Empty \/ Encloses(Iv(NInf, PInf), d)
Export == (pc = 0 /\ reg[1].w = reg[1].iv[1] /\ reg[2].w = reg[2].iv[1]) =>
             PrintT("SCN " \o ToJson([a |-> <<RFloorInt(reg[1].iv[1]), RFloorInt(reg[1].iv[2])>>,
                                      b |-> <<RFloorInt(reg[2].iv[1]), RFloorInt(reg[2].iv[2])>>]))
=============================================================================
