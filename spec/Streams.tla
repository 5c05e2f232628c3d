------------------------------ MODULE Streams -------------------------------
(* Streams that transfer less than they are asked to, are interrupted, or     *)
(* fail.  A stream executes operations (transfers and moves) numbered from 1. *)
(* A plan says how it behaves:                                                *)
(*   chunk  most bytes moved by one transfer, 0 for any number                *)
(*   intr   every transfer is first answered with "interrupted"               *)
(*   fault  "none", or what happens at operation number at:                   *)
(*          "fail"  it and all later operations fail                          *)
(*          "once"  it fails, later ones work                                 *)
(*          "zero"  it is a transfer that takes no byte (writing only)        *)
(* Interruptions are not counted as operations.                               *)
EXTENDS Naturals, Sequences

Min2(a, b) == IF a < b THEN a ELSE b

(* What the stream answers to operation number i, a request for n bytes       *)
(* (0: a move).                                                                *)
Answer(plan, i, n) ==
  IF plan.fault = "fail" /\ i >= plan.at THEN [k |-> "err", n |-> 0]
  ELSE IF plan.fault = "once" /\ i = plan.at THEN [k |-> "err", n |-> 0]
  ELSE IF plan.fault = "zero" /\ i = plan.at /\ n > 0 THEN [k |-> "ok", n |-> 0]
  ELSE [k |-> "ok", n |-> IF plan.chunk = 0 THEN n ELSE Min2(n, plan.chunk)]

(* The results that are allowed: hit says whether the fault took place.       *)
WriteResults(plan, hit) == IF hit THEN {"err"} ELSE {"ok"}
ReadResults(plan, hit) == IF ~hit THEN {"ok"} ELSE IF plan.fault = "once" THEN {"ok", "err"} ELSE {"err"}

(* An observation x of a call: its result, the content it left or the value   *)
(* it returned (what), and whether all in front of the position the call      *)
(* started at is as before (kept).                                            *)
StreamProblem(dir, x, right) ==
  LET may == IF dir # "read" THEN WriteResults(x.plan, x.hit) ELSE ReadResults(x.plan, x.hit)
  IN IF x.r.k = "panic" THEN x.r.e
     ELSE IF x.r.k \notin may
          THEN (IF x.r.k = "ok" THEN dir \o " succeeds although the stream failed"
                ELSE IF x.hit THEN dir \o " fails" ELSE dir \o " fails although the stream did not: " \o x.r.e)
     ELSE IF ~x.kept THEN "what stood before the position of the stream changed"
     ELSE IF x.r.k = "ok" /\ x.what # right THEN dir \o " has another outcome than with an undisturbed stream"
     ELSE ""
=============================================================================
