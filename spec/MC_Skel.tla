------------------------------ MODULE MC_Skel -------------------------------
(* Walking from each bone to its root with a memory of the bones passed, over   *)
(* all assignments of parents (none, any bone, an absent bone).                 *)
EXTENDS Skel, TLC, Json
CONSTANTS MaxBones
VARIABLES up, bone, at, seen, cyc
vars == <<up, bone, at, seen, cyc>>
Init == \E n \in 0..MaxBones : up \in [1..n -> 0..n + 1] /\ bone = 1 /\ at = (IF n = 0 THEN 0 ELSE 1) /\ seen = {} /\ cyc = {}
NextBone == bone' = bone + 1 /\ at' = (IF bone + 1 <= Len(up) THEN bone + 1 ELSE 0) /\ seen' = {}
Next == /\ bone <= Len(up)
        /\ UNCHANGED up
        /\ IF up[at] \notin 1..Len(up) THEN NextBone /\ UNCHANGED cyc
           ELSE IF up[at] \in seen THEN NextBone /\ cyc' = cyc \cup {bone}
           ELSE at' = up[at] /\ seen' = seen \cup {up[at]} /\ UNCHANGED <<bone, cyc>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == IF bone > Len(up) THEN PrintT(<<"GEN", ToJson([up |-> up])>>) ELSE TRUE
(* The walk finds exactly the bones below a cycle, and ends. *)
Right == cyc = {b \in 1..Min(bone - 1, Len(up)) : Endless(up, b)}
Ends == <>(bone > Len(up))
=============================================================================
