------------------------------- MODULE Scalar -------------------------------
(***************************************************************************)
(* The numeric order of the scalar types and the helpers defined from it   *)
(* (property C06).  All operators work on exact values; approximate        *)
(* equality is specified by its threshold, with a relative band around the *)
(* threshold where rounding decides.                                       *)
(***************************************************************************)
EXTENDS IEEE, Trig

(******************** the order and its derived helpers ********************)
SMin(x, y) == IF RLe(x, y) THEN x ELSE y
SMax(x, y) == IF RLe(x, y) THEN y ELSE x
SClamp(x, lo, hi) == IF RLt(x, lo) THEN lo ELSE IF RGt(x, hi) THEN hi ELSE x   \* lo <= hi
SIn(x, lo, hi) == RLe(lo, x) /\ RLe(x, hi)

(******************************** the types ********************************)
IntTypes == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
Bits(ty) == CASE ty \in {"u8", "i8"} -> 8 [] ty \in {"u16", "i16"} -> 16
              [] ty \in {"u32", "i32", "f32"} -> 32 [] OTHER -> 64
Unsigned(ty) == ty \in {"u8", "u16", "u32", "u64"}
Lowest(ty) == IF ty \in IntTypes
              THEN IF Unsigned(ty) THEN R0 ELSE RNeg(RPow2(Bits(ty) - 1))
              ELSE RNeg(MaxFin(Bits(ty)))
Highest(ty) == IF ty \in IntTypes
               THEN RSub(RPow2(IF Unsigned(ty) THEN Bits(ty) ELSE Bits(ty) - 1), R1)
               ELSE MaxFin(Bits(ty))
Fits(ty, r) == RLe(Lowest(ty), r) /\ RLe(r, Highest(ty))

\* recorded integers: <<sign, high word, low word>> of the magnitude
IntVal(v) == RMul(RInt(v[1]), RAdd(RMul(U32(v[2]), RPow2(32)), U32(v[3])))
Value(ty, v) == IF ty \in IntTypes THEN IntVal(v) ELSE DecV(v)
IsNum(ty, v) == ty \in IntTypes \/ IsFin(Dec(v))

(*************************** approximate equality **************************)
AbsTol == RFrac(1, 1000000)
RelTol(w) == IF w = 32 THEN RFrac(1, 10000) ELSE RFrac(1, 1000000)
Threshold(x, y, w) == RMax(AbsTol, RMul(RelTol(w), RMax(RAbs(x), RAbs(y))))
Band(w) == RPow2(-(MBits(w) - 3))
MustBeClose(x, y, w) == RLt(RAbs(RSub(x, y)), RMul(Threshold(x, y, w), RSub(R1, Band(w))))
MustBeFar(x, y, w) == RGt(RAbs(RSub(x, y)), RMul(Threshold(x, y, w), RAdd(R1, Band(w))))
CloseOk(ans, x, y, w) == (MustBeClose(x, y, w) => ans) /\ (MustBeFar(x, y, w) => ~ans)

\* a saturating, truncating conversion to i64
Trunc(r) == IF RSgn(r) >= 0 THEN RFloor2(r, 0) ELSE RNeg(RFloor2(RNeg(r), 0))
ToI64(r) == SClamp(Trunc(r), Lowest("i64"), Highest("i64"))
=============================================================================
