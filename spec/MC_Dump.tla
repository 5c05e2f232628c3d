------------------------------- MODULE MC_Dump ------------------------------
(* Two workers test the files of a folder, taking them in any order and        *)
(* printing a line for a file when they are done with it. However they are      *)
(* interleaved, when all is done the lines are those of the files taken alone.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFiles, Depths
VARIABLES files, todo, busy, lines, fresh
vars == <<files, todo, busy, lines, fresh>>
Exts == {"ssbh", "meshex", "adj", "none"}
States(x) == CASE x = "meshex" -> {"kept", "moved", "broken", "unwritable"}
               [] x = "none" -> {"broken"}
               [] OTHER -> {"kept", "moved", "broken"}
Kinds == {[ext |-> x, state |-> s, depth |-> d] : x \in Exts, s \in {"kept", "moved", "broken", "unwritable"}, d \in Depths}
Files == {f \in Kinds : f.state \in States(f.ext)}
Report(f) == IF f.ext = "none" \/ f.state = "kept" THEN {} ELSE IF f.state = "moved" THEN {"differs"} ELSE {"error"}
Workers == {1, 2}
Init == /\ files \in UNION {[1..n -> Files] : n \in 0..MaxFiles}
        /\ todo = DOMAIN files /\ busy = [w \in Workers |-> 0] /\ lines = <<>> /\ fresh = TRUE
Take(w) == \E i \in todo : busy[w] = 0 /\ busy' = [busy EXCEPT ![w] = i] /\ todo' = todo \ {i} /\ UNCHANGED <<files, lines>>
Done(w) == /\ busy[w] # 0
           /\ busy' = [busy EXCEPT ![w] = 0]
           /\ lines' = IF Report(files[busy[w]]) = {} THEN lines ELSE Append(lines, <<busy[w], CHOOSE r \in Report(files[busy[w]]) : TRUE>>)
           /\ UNCHANGED <<files, todo>>
Next == fresh' = FALSE /\ \E w \in Workers : Take(w) \/ Done(w)
Spec == Init /\ [][Next]_vars
Over == todo = {} /\ \A w \in Workers : busy[w] = 0
Complete == Over => {lines[k] : k \in 1..Len(lines)} = {x \in (DOMAIN files) \X {"differs", "error"} : x[2] \in Report(files[x[1]])}
Once == \A j, k \in 1..Len(lines) : lines[j][1] = lines[k][1] => j = k
Emit == fresh => PrintT(<<"GEN", ToJson([files |-> files])>>)
=============================================================================
