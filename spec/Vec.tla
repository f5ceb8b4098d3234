-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Vectors of exact rationals (sequences), and what a float computation of *)
(* them may return (property C07).                                         *)
(***************************************************************************)
EXTENDS IEEE

\* strict left-to-right sum of a sequence of rationals (Exact is fast enough)
RECURSIVE RSumTo(_, _)
RSumTo(s, n) == IF n = 0 THEN R0 ELSE RAdd(RSumTo(s, n - 1), s[n])
RSum(s) == RSumTo(s, Len(s))
VMap2(F(_, _), a, b) == [i \in 1 .. Len(a) |-> F(a[i], b[i])]
VAdd(a, b) == [i \in 1 .. Len(a) |-> RAdd(a[i], b[i])]
VSub(a, b) == [i \in 1 .. Len(a) |-> RSub(a[i], b[i])]
VMul(a, b) == [i \in 1 .. Len(a) |-> RMul(a[i], b[i])]
VNeg(a) == [i \in 1 .. Len(a) |-> RNeg(a[i])]
VAbs(a) == [i \in 1 .. Len(a) |-> RAbs(a[i])]
VScale(a, s) == [i \in 1 .. Len(a) |-> RMul(a[i], s)]
VDot(a, b) == RSum(VMul(a, b))
VSq(a) == VDot(a, a)
VCross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                  RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                  RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
\* the same with absolute values and sums: scale of the rounding error
VCrossAbs(a, b) == <<RAdd(RAbs(RMul(a[2], b[3])), RAbs(RMul(a[3], b[2]))),
                     RAdd(RAbs(RMul(a[3], b[1])), RAbs(RMul(a[1], b[3]))),
                     RAdd(RAbs(RMul(a[1], b[2])), RAbs(RMul(a[2], b[1])))>>
RMaxOf(s) == LET M[i \in 1 .. Len(s)] == IF i = 1 THEN RAbs(s[1]) ELSE RMax(M[i - 1], RAbs(s[i])) IN M[Len(s)]

\* |x - y| <= k * eps * scale, plus k units of underflow
WithinEps(x, y, k, scale, w) ==
    RLe(RAbs(RSub(x, y)), RAdd(RMul(RMul(RInt(k), Eps(w)), scale), RMul(RInt(k), RPow2(EMinSub(w)))))
\* a square root known to 2^-90 relatively (from below)
SqrtOf(r) == IF RSgn(r) <= 0 THEN R0
             ELSE LET e == RLog2(r) IN RSqrt2(r, 90 + (IF e < 0 THEN (1 - e) \div 2 + 1 ELSE 0))
VNorm(a) == SqrtOf(VSq(a))
=============================================================================
