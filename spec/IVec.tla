-------------------------------- MODULE IVec -------------------------------
(***************************************************************************)
(* Vectors of intervals as sets of vectors: the hulls of the exact images  *)
(* of the vector operations over every choice of members (C12).            *)
(***************************************************************************)
EXTENDS Interval
HV2(f, a, b) == [k \in 1 .. Len(a) |-> Hull2(f, a[k], b[k])]
RECURSIVE HSumTo(_, _)
HSumTo(s, n) == IF n = 0 THEN Iv(Zero, Zero) ELSE HAdd(HSumTo(s, n - 1), s[n])
HSum(s) == HSumTo(s, Len(s))
\* every component occurs once, so the hulls of the terms add up exactly
HDot(a, b) == HSum([k \in 1 .. Len(a) |-> HMul(a[k], b[k])])
HSqNorm(a) == HSum([k \in 1 .. Len(a) |-> HSquare(a[k])])
HCross(a, b) == <<HSub(HMul(a[2], b[3]), HMul(a[3], b[2])),
                  HSub(HMul(a[3], b[1]), HMul(a[1], b[3])),
                  HSub(HMul(a[1], b[2]), HMul(a[2], b[1]))>>
\* members of a vector of intervals: each component at its i-th quarter
At(s, i) == RAdd(s.lo[2], RMul(RSub(s.hi[2], s.lo[2]), RFrac(i, 4)))
MemberAt(a, sel) == [k \in 1 .. Len(a) |-> At(a[k], sel[k])]
=============================================================================
