----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all trace specifications share: the recorded trace, the place in   *)
(* it, and the verdict on one event.  An event that the specification does *)
(* not allow is reported (REJECT line, number, reason) and the walk goes   *)
(* on; an event marked ctl is a deliberately corrupted copy that the       *)
(* specification is expected not to allow.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Has(e, f) == f \in DOMAIN e
IsCtl(e) == "ctl" \in DOMAIN e

\* verdict: "ok", or "known:<id>" for a named deviation, or a reason
IsKnown(v) == Len(v) > 6 /\ SubSeq(v, 1, 6) = "known:"
Report(l, e, v) ==
    IF IsCtl(e) THEN IF v = "ok" THEN PrintT(<<"CTLMISS", l, e.e>>) ELSE PrintT(<<"CTLHIT", l, v>>)
    ELSE IF v = "ok" THEN TRUE
    ELSE IF IsKnown(v) THEN PrintT(<<"KNOWN", l, SubSeq(v, 7, Len(v))>>)
    ELSE PrintT(<<"REJECT", l, v>>)
Finish(l) == IF l = Len(Trace) THEN PrintT(<<"END", l>>) ELSE TRUE
Say(b, reason) == IF b THEN "ok" ELSE reason
=============================================================================
