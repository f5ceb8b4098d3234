-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* Certified enclosures of pi, sine and cosine at exact rational arguments,*)
(* from first principles (Machin's formula, Taylor series) in exact        *)
(* arithmetic.  SinCos(x) = [s, c, e] with |sin x - s| <= e and            *)
(* |cos x - c| <= e.                                                       *)
(***************************************************************************)
EXTENDS Exact

PK == 1400                                  \* working precision of pi (bits): enough for every binary64
TK == 150                                   \* target precision of sin/cos

\* atan(1/n) by its alternating series, fixed point with PK+20 bits
RECURSIVE AtanInvSum(_, _, _, _)
LOCAL AtanInvSum(n2, p, k, sgn) ==
    IF RSgn(p) = 0 THEN R0
    ELSE LET t == RFloor2(RDiv(p, RInt(2 * k + 1)), PK + 20)
             next == AtanInvSum(n2, RFloor2(RDiv(p, n2), PK + 20), k + 1, -sgn)
         IN  RAdd(RMul(RInt(sgn), t), next)
LOCAL AtanInv(n) == AtanInvSum(RInt(n * n), RFloor2(RFrac(1, n), PK + 20), 0, 1)

\* each of the < 1400 truncated terms errs by < 2^-(PK+20+...): well below 2^-(PK+5)
PiMid == RFloor2(RSub(RMul(RInt(16), AtanInv(5)), RMul(RInt(4), AtanInv(239))), PK + 10)
PiErr == RPow2(-PK)
PiLo == RSub(PiMid, PiErr)
PiHi == RAdd(PiMid, PiErr)
HalfPi == RHalf(PiMid)

LOCAL W == TK + 20                            \* internal fixed point

\* sums of the two Taylor series of a small r, carrying the current term of each
RECURSIVE TaylorS(_, _, _), TaylorC(_, _, _)
LOCAL TaylorS(r2, t, n) ==                     \* t = +- r^n/n!
    IF RSgn(t) = 0 THEN R0
    ELSE RAdd(t, TaylorS(r2, LET q == RMul(t, r2)
                                 u == RDiv(RAbs(q), RInt((n + 1) * (n + 2)))
                             IN  RMul(RInt(-RSgn(t)), RFloor2(u, W)), n + 2))
LOCAL TaylorC(r2, t, n) == TaylorS(r2, t, n)

SinCos(x) ==
    LET k == RFloor2(RAdd(RDiv(x, HalfPi), RHalf(R1)), 0)     \* nearest multiple
        r == RFloor2(RSub(x, RMul(k, HalfPi)), W)             \* |r| < 0.8
        r2 == RFloor2(RSq(r), W)
        s0 == TaylorS(r2, r, 1)
        c0 == TaylorC(r2, R1, 0)
        q == RFloorInt(RSub(k, RMul(RInt(4), RFloor2(RDiv(k, RInt(4)), 0))))
        e == RAdd(RPow2(-TK), RMul(RAbs(k), PiErr))
    IN  CASE q = 0 -> [s |-> s0, c |-> c0, e |-> e]
          [] q = 1 -> [s |-> c0, c |-> RNeg(s0), e |-> e]
          [] q = 2 -> [s |-> RNeg(s0), c |-> RNeg(c0), e |-> e]
          [] OTHER -> [s |-> RNeg(c0), c |-> s0, e |-> e]
=============================================================================
