------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, but the exact value of an IEEE-754     *)
(* number, and of sums and products of such numbers, needs hundreds of     *)
(* bits.  A rational is represented here as <<s, n, d>> with s in          *)
(* {-1,0,1} and n, d natural numbers written as little-endian sequences of *)
(* base-2^15 limbs (no most-significant zero limb), gcd(n,d) = 1, d >= 1.  *)
(* The representation is canonical: equal rationals are equal values.      *)
(*                                                                         *)
(* Every operator below has a complete TLA+ definition.  For speed TLC     *)
(* replaces the R* operators by the Java methods of the same name in       *)
(* java/Exact.java when that class is on the class path; MCExact.tla is    *)
(* evaluated both with and without the override and the results are        *)
(* compared, so the override is not trusted blindly.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL BASE == 32768

(************************* natural numbers (limbs) *************************)
LOCAL Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NTrim(_)
LOCAL NTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NAddC(_, _, _, _)
LOCAL NAddC(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b)
    THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == Limb(a, i) + Limb(b, i) + c
         IN  <<t % BASE>> \o NAddC(a, b, i + 1, t \div BASE)
LOCAL NAdd(a, b) == NAddC(a, b, 1, 0)

RECURSIVE NSubC(_, _, _, _)
LOCAL NSubC(a, b, i, c) ==               \* a >= b
    IF i > Len(a) THEN <<>>
    ELSE LET t == Limb(a, i) - Limb(b, i) - c
         IN  IF t < 0 THEN <<t + BASE>> \o NSubC(a, b, i + 1, 1)
                      ELSE <<t>> \o NSubC(a, b, i + 1, 0)
LOCAL NSub(a, b) == NTrim(NSubC(a, b, 1, 0))

RECURSIVE NCmpAt(_, _, _)
LOCAL NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
LOCAL NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

RECURSIVE NMulLimb(_, _, _, _)
LOCAL NMulLimb(a, k, i, c) ==
    IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == a[i] * k + c
         IN  <<t % BASE>> \o NMulLimb(a, k, i + 1, t \div BASE)

RECURSIVE NMulAt(_, _, _)
LOCAL NMulAt(a, b, j) ==
    IF j > Len(b) THEN <<>>
    ELSE NAdd(NMulLimb(a, b[j], 1, 0), <<0>> \o NMulAt(a, b, j + 1))
LOCAL NMul(a, b) == NTrim(NMulAt(a, b, 1))

RECURSIVE NOfInt(_)
LOCAL NOfInt(i) == IF i = 0 THEN <<>> ELSE <<i % BASE>> \o NOfInt(i \div BASE)

RECURSIVE NPow2(_)
LOCAL NPow2(k) == IF k < 15 THEN <<2 ^ k>> ELSE <<0>> \o NPow2(k - 15)

\* long division, one bit at a time: NDivAt(a, b, k) = <<quotient, remainder>>
\* of a by b, where b * 2^(k+1) > a
RECURSIVE NDivAt(_, _, _)
LOCAL NDivAt(a, b, k) ==
    IF k < 0 THEN <<<<>>, a>>
    ELSE LET s == NMul(b, NPow2(k))
         IN  IF NCmp(a, s) >= 0
             THEN LET r == NDivAt(NSub(a, s), b, k - 1)
                  IN  <<NAdd(NPow2(k), r[1]), r[2]>>
             ELSE NDivAt(a, b, k - 1)
LOCAL NDivMod(a, b) == NDivAt(a, b, 15 * (Len(a) - Len(b) + 1))

RECURSIVE NGcd(_, _)
LOCAL NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, NDivMod(a, b)[2])

(****************************** rationals **********************************)
LOCAL Mk(s, n, d) ==                       \* n, d naturals, d > 0
    IF n = <<>> \/ s = 0 THEN <<0, <<>>, <<1>>>>
    ELSE LET g == NGcd(n, d)
         IN  <<s, NDivMod(n, g)[1], NDivMod(d, g)[1]>>

RInt(i) == IF i = 0 THEN <<0, <<>>, <<1>>>>
           ELSE IF i > 0 THEN <<1, NOfInt(i), <<1>>>>
           ELSE <<-1, NOfInt(-i), <<1>>>>

R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)

RSgn(a) == a[1]
RNeg(a) == <<-a[1], a[2], a[3]>>
RAbs(a) == IF a[1] < 0 THEN RNeg(a) ELSE a

\* 2^k, k any (positive or negative) integer
RPow2(k) == IF k >= 0 THEN <<1, NPow2(k), <<1>>>> ELSE <<1, <<1>>, NPow2(-k)>>

RMul(a, b) == Mk(a[1] * b[1], NMul(a[2], b[2]), NMul(a[3], b[3]))

RInv(a) == <<a[1], a[3], a[2]>>            \* a # 0
RDiv(a, b) == RMul(a, RInv(b))             \* b # 0

RAdd(a, b) ==
    IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
    ELSE LET x == NMul(a[2], b[3])
             y == NMul(b[2], a[3])
             d == NMul(a[3], b[3])
         IN  IF a[1] = b[1] THEN Mk(a[1], NAdd(x, y), d)
             ELSE CASE NCmp(x, y) = 0 -> <<0, <<>>, <<1>>>>
                    [] NCmp(x, y) > 0 -> Mk(a[1], NSub(x, y), d)
                    [] OTHER          -> Mk(b[1], NSub(y, x), d)
RSub(a, b) == RAdd(a, RNeg(b))

RCmp(a, b) == RSgn(RSub(a, b))             \* -1, 0 or 1

\* greatest multiple of 2^-k that is <= a
RFloor2(a, k) ==
    LET x == RMul(a, RPow2(k))
        q == NDivMod(x[2], x[3])
    IN  IF x[1] >= 0 THEN Mk(1, q[1], NPow2(k))
        ELSE IF q[2] = <<>> THEN a
        ELSE Mk(-1, NAdd(q[1], <<1>>), NPow2(k))

\* integer square root by bisection: greatest r with r^2 <= n, lo^2 <= n < hi^2
RECURSIVE NSqrtIn(_, _, _)
LOCAL NSqrtIn(n, lo, hi) ==
    LET m == NDivMod(NAdd(lo, hi), <<2>>)[1]
    IN  IF m = lo THEN lo
        ELSE IF NCmp(NMul(m, m), n) <= 0 THEN NSqrtIn(n, m, hi) ELSE NSqrtIn(n, lo, m)

\* greatest multiple of 2^-k that is <= the square root of a (a >= 0)
RSqrt2(a, k) ==
    LET x == RMul(a, RPow2(2 * k))
        n == NDivMod(x[2], x[3])[1]
    IN  Mk(1, NSqrtIn(n, <<>>, NAdd(n, <<1>>)), NPow2(k))

\* the integer part (floor) of a, for |a| < 2^30
RFloorInt(a) ==
    LET f == RFloor2(a, 0)
    IN  f[1] * (Limb(f[2], 1) + BASE * Limb(f[2], 2))

RECURSIVE IntLog2(_)
LOCAL IntLog2(i) == IF i < 2 THEN 0 ELSE 1 + IntLog2(i \div 2)
LOCAL NLog2(n) == 15 * (Len(n) - 1) + IntLog2(n[Len(n)])
\* floor of the base-2 logarithm of |a|, a # 0
RLog2(a) ==
    LET e == NLog2(a[2]) - NLog2(a[3])      \* 2^(e-1) < |a| < 2^(e+1)
    IN  IF RCmp(RAbs(a), RPow2(e)) >= 0 THEN e ELSE e - 1

(************************* derived operators *******************************)
RCeil2(a, k) == RNeg(RFloor2(RNeg(a), k))
RFrac(n, d) == RDiv(RInt(n), RInt(d))
RLt(a, b) == RCmp(a, b) < 0
RLe(a, b) == RCmp(a, b) <= 0
RGt(a, b) == RCmp(a, b) > 0
RGe(a, b) == RCmp(a, b) >= 0
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RSq(a) == RMul(a, a)
RHalf(a) == RMul(a, RPow2(-1))
RAdd3(a, b, c) == RAdd(RAdd(a, b), c)
\* |a - b| <= tol
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)

\* decimal rendering for diagnostics only (overridden; never decides anything)
RStr(a) == "?"
=============================================================================
