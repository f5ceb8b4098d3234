-------------------------------- MODULE IXf ---------------------------------
(***************************************************************************)
(* Transforms with interval entries (C23).  An interval transform stands   *)
(* for a set of exact transforms; every operation on it has to stand for   *)
(* at least the results on all of them.  This module: the affine maps      *)
(* x -> a x + b of one coordinate, kept with their inverses x -> c x + d   *)
(* as the library keeps matrix and inverse matrix, in exact interval       *)
(* arithmetic, together with one member [a, b] that is followed exactly.   *)
(***************************************************************************)
EXTENDS Interval
Pt(r) == Iv(Fin(r), Fin(r))
IAdd(x, y) == Hull2("add", x, y)
IMul(x, y) == Hull2("mul", x, y)
IDiv(x, y) == Hull2("div", x, y)
IMap(t, x) == IAdd(IMul(t.a, x), t.b)
IMapInv(t, x) == IAdd(IMul(t.c, x), t.d)
ITr(x) == [a |-> Pt(R1), b |-> x, c |-> Pt(R1), d |-> HNeg(x)]
ISc(x) == [a |-> x, b |-> Pt(R0), c |-> IDiv(Pt(R1), x), d |-> Pt(R0)]
ICompose(s, t) == [a |-> IMul(s.a, t.a), b |-> IMap(s, t.b), c |-> IMul(t.c, s.c), d |-> IMapInv(t, s.d)]
IInvert(t) == [a |-> t.c, b |-> t.d, c |-> t.a, d |-> t.b]
\* members: the exact maps
XTr(r) == [a |-> R1, b |-> r]
XSc(r) == [a |-> r, b |-> R0]
XMap(x, r) == RAdd(RMul(x.a, r), x.b)
XCompose(x, y) == [a |-> RMul(x.a, y.a), b |-> XMap(x, y.b)]
XInvert(x) == [a |-> RInv(x.a), b |-> RNeg(RDiv(x.b, x.a))]
In(r, x) == MemberOf(Fin(r), x)
Contains(t, x) == In(x.a, t.a) /\ In(x.b, t.b) /\ LET y == XInvert(x) IN In(y.a, t.c) /\ In(y.b, t.d)
=============================================================================
