-------------------------------- MODULE Ulp --------------------------------
(***************************************************************************)
(* The line of floats (property C05).                                      *)
(*                                                                         *)
(* The floats of one width, both zeros identified, form a line; a float's  *)
(* place on it is its ordinal (module IEEE).  next_up moves one place to   *)
(* the right and stays at +infinity, next_down is its mirror image, NaN    *)
(* stays NaN.                                                              *)
(***************************************************************************)
EXTENDS IEEE

RightOf(o, w) == RMin(RAdd(o, R1), InfOrd(w))
LeftOf(o, w)  == RMax(RSub(o, R1), RNeg(InfOrd(w)))

\* the float f may answer a step from x
IsNextUp(x, f) ==
    IF IsNaN(Dec(x)) THEN IsNaN(Dec(f))
    ELSE ~IsNaN(Dec(f)) /\ Ord(f) = RightOf(Ord(x), WidthOf(x))
IsNextDown(x, f) ==
    IF IsNaN(Dec(x)) THEN IsNaN(Dec(f))
    ELSE ~IsNaN(Dec(f)) /\ Ord(f) = LeftOf(Ord(x), WidthOf(x))
=============================================================================
