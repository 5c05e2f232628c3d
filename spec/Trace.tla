------------------------------- MODULE Trace --------------------------------
(* Validates observations of the implementation (trace.ndjson, one JSON      *)
(* object per line) against the specification.  Judge(e) is "" when the      *)
(* specification allows the observation e and otherwise says what is wrong.  *)
(* Lanes 1..Lanes walk over the trace with stride Lanes so that TLC's        *)
(* workers share it.                                                         *)
EXTENDS Judge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16

VARIABLES lane, i, bad

Init == lane \in 1..Lanes /\ i = lane /\ bad = 0

Step ==
  /\ i <= Len(Trace)
  /\ LET why == Judge(Trace[i])
     IN /\ IF why = "" THEN TRUE ELSE PrintT("VERDICT " \o ToString(i) \o " " \o why)
        /\ bad' = IF why = "" THEN bad ELSE bad + 1
  /\ i' = i + Lanes
  /\ UNCHANGED lane

Spec == Init /\ [][Step]_<<lane, i, bad>>

TypeOK == bad <= i
=============================================================================
