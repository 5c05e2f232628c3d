------------------------------ MODULE MC_Usual ------------------------------
(* A file as what its data shows and what it hides, edited by others and saved again by loading and saving. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES shown, hidden, made, past
vars == <<shown, hidden, made, past>>
Init == shown \in {"a", "b"} /\ hidden = "usual" /\ made = shown /\ past = <<>>
(* another program changes what the data does not show *)
Others == hidden' \in {"usual", "other"} /\ past' = Append(past, "others") /\ UNCHANGED <<shown, made>>
Resave == hidden' = "usual" /\ past' = Append(past, "save") /\ UNCHANGED <<shown, made>>
Next == Len(past) < Depth /\ (Others \/ Resave)
Spec == Init /\ [][Next]_vars
Kept == shown = made
Usually == past # <<>> /\ past[Len(past)] = "save" => hidden = "usual"
NeverTouched == (\A i \in 1..Len(past) : past[i] = "save") => hidden = "usual"
Emit == IF shown = "a" /\ hidden = "usual" THEN PrintT(<<"GEN", ToJson([past |-> past])>>) ELSE TRUE
=============================================================================
