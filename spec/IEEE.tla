-------------------------------- MODULE IEEE --------------------------------
(***************************************************************************)
(* IEEE-754 binary formats: what a bit pattern denotes.                    *)
(*                                                                         *)
(* A recorded float is the tuple of its 32-bit words, most significant     *)
(* first, each read as a signed integer: <<w>> is a binary32 and           *)
(* <<hi, lo>> a binary64.  An extended real is <<k, r>>: k = 0 with r an   *)
(* exact rational, k = -1 / k = 1 for the infinities, k = 2 for NaN (r is  *)
(* then 0).  Nothing here knows how the implementation computes.           *)
(***************************************************************************)
EXTENDS Exact

PInf == <<1, R0>>
NInf == <<-1, R0>>
NaN  == <<2, R0>>
Fin(r) == <<0, r>>

IsNaN(x) == x[1] = 2
IsFin(x) == x[1] = 0
IsInf(x) == x[1] \in {-1, 1}
Val(x)   == x[2]

(* order on extended reals (NaN excluded by the callers) *)
ECmp(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
              ELSE IF x[1] = 0 THEN RCmp(x[2], y[2]) ELSE 0
ELe(x, y) == ECmp(x, y) <= 0
ELt(x, y) == ECmp(x, y) < 0
EEq(x, y) == ECmp(x, y) = 0
EMin(x, y) == IF ELe(x, y) THEN x ELSE y
EMax(x, y) == IF ELe(x, y) THEN y ELSE x
ENeg(x) == IF x[1] = 0 THEN Fin(RNeg(x[2])) ELSE <<-x[1], x[2]>>

(************************** generic small formats **************************)
(* Value of the sign-magnitude pattern (neg, mag) in a format with EB      *)
(* exponent bits and MB mantissa bits, 2^(EB+MB) < 2^31.                   *)
MagValue(mag, EB, MB) ==
    LET m == mag % (2 ^ MB)
        e == mag \div (2 ^ MB)
        bias == 2 ^ (EB - 1) - 1
    IN  IF e = 2 ^ EB - 1 THEN (IF m = 0 THEN PInf ELSE NaN)
        ELSE IF e = 0 THEN Fin(RMul(RInt(m), RPow2(1 - bias - MB)))
        ELSE Fin(RMul(RInt(m + 2 ^ MB), RPow2(e - bias - MB)))

(***************************** binary32 / 64 *******************************)
\* sign bit and the remaining 31 bits of a signed 32-bit word
Neg32(w) == w < 0
Mag32(w) == IF w >= 0 THEN w ELSE (w + 2147483647) + 1

\* unsigned value of a 32-bit word as a rational
U32(w) == IF w >= 0 THEN RInt(w) ELSE RAdd(RInt(Mag32(w)), RPow2(31))

LOCAL Signed(neg, x) == IF neg /\ x[1] # 2 THEN ENeg(x) ELSE x

Dec32(w) == Signed(Neg32(w), MagValue(Mag32(w), 8, 23))

Dec64(h, l) ==
    LET g == Mag32(h)
        e == g \div (2 ^ 20)
        mh == g % (2 ^ 20)
        mant == RAdd(RMul(RInt(mh), RPow2(32)), U32(l))
    IN  Signed(Neg32(h),
          IF e = 2047 THEN (IF mh = 0 /\ l = 0 THEN PInf ELSE NaN)
          ELSE IF e = 0 THEN Fin(RMul(mant, RPow2(-1074)))
          ELSE Fin(RMul(RAdd(mant, RPow2(52)), RPow2(e - 1075))))

Dec(f) == IF Len(f) = 1 THEN Dec32(f[1]) ELSE Dec64(f[1], f[2])
DecV(f) == Val(Dec(f))                       \* for finite floats

(* number of mantissa bits and exponent of the least subnormal *)
MBits(w) == IF w = 32 THEN 23 ELSE 52
EMinSub(w) == IF w = 32 THEN -149 ELSE -1074
MaxFin(w) == IF w = 32 THEN RMul(RSub(RPow2(24), R1), RPow2(104))
             ELSE RMul(RSub(RPow2(53), R1), RPow2(971))
WidthOf(f) == IF Len(f) = 1 THEN 32 ELSE 64

(* unit in the last place of the binade of r *)
Ulp(r, w) == IF RSgn(r) = 0 THEN RPow2(EMinSub(w))
             ELSE LET e == RLog2(r) - MBits(w)
                  IN  RPow2(IF e < EMinSub(w) THEN EMinSub(w) ELSE e)

(* relative rounding unit 2^-24 / 2^-53 *)
Eps(w) == RPow2(-(MBits(w) + 1))

(* x (a float's value) is a correctly rounded (to nearest) image of the    *)
(* exact rational r: nearer than half an ulp, where the ulp just below a   *)
(* power of two may be used from above.                                    *)
RoundedTo(x, r, w) ==
    CASE x[1] = 2 -> FALSE
      [] x[1] = 1 -> RGe(r, RAdd(MaxFin(w), RHalf(Ulp(MaxFin(w), w))))
      [] x[1] = -1 -> RLe(r, RNeg(RAdd(MaxFin(w), RHalf(Ulp(MaxFin(w), w)))))
      [] OTHER -> RLe(RAbs(RSub(x[2], r)), RHalf(Ulp(RMax(RAbs(x[2]), RAbs(r)), w)))

(*************** the integer line of floats: ordinal numbers ***************)
(* Ordinal of a pattern: 0 for both zeros, n for the n-th float above      *)
(* zero, -n for the n-th below.  binary32 ordinals fit a TLC integer; the  *)
(* binary64 ordinal is a rational.                                         *)
Ord32(w) == IF Neg32(w) THEN -Mag32(w) ELSE Mag32(w)
Ord64(h, l) == LET m == RAdd(RMul(RInt(Mag32(h)), RPow2(32)), U32(l))
               IN  IF Neg32(h) THEN RNeg(m) ELSE m
Ord(f) == IF Len(f) = 1 THEN RInt(Ord32(f[1])) ELSE Ord64(f[1], f[2])
InfOrd(w) == IF w = 32 THEN RInt(2139095040) ELSE RMul(RInt(2047), RPow2(52))
=============================================================================
