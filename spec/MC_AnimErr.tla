----------------------------- MODULE MC_AnimErr -----------------------------
(* Saving checks the version, then every track against the final frame: the     *)
(* walk over the tracks and the condition on the longest one agree.             *)
EXTENDS Anim, TLC, Json
CONSTANTS Majors, Minors, MaxTracks, MaxLen, Lasts
VARIABLES major, minor, last, lens, at, bad
vars == <<major, minor, last, lens, at, bad>>
(* names of singles *)
F == [minus1 |-> <<0, 0, 128, 191>>, zero |-> Zeros(4), minus0 |-> <<0, 0, 0, 128>>, below1 |-> <<255, 255, 127, 63>>, one |-> <<0, 0, 128, 63>>,
      above1 |-> <<1, 0, 128, 63>>, two |-> <<0, 0, 0, 64>>, tiny |-> <<1, 0, 0, 0>>, minustiny |-> <<1, 0, 0, 128>>,
      inf |-> <<0, 0, 128, 127>>, minusinf |-> <<0, 0, 128, 255>>, nan |-> <<0, 0, 192, 127>>, half |-> <<0, 0, 0, 63>>]
Init == /\ major \in Majors /\ minor \in Minors /\ last \in Lasts /\ at = 1 /\ bad = FALSE
        /\ \E k \in 0..MaxTracks : lens \in [1..k -> 0..MaxLen]
(* the frame n - 1 is at most the final frame f *)
Covers(f, n) == ~IsNaN(F[f]) /\ (n = 0 \/ (n = 1 /\ (Sign(F[f]) = 0 \/ IsZero(F[f]))) \/ (n = 2 /\ f \in {"one", "above1", "two", "inf"}) \/ (n = 3 /\ f \in {"two", "inf"}))
Next == at <= Len(lens) /\ at' = at + 1 /\ bad' = (bad \/ ~Covers(last, lens[at])) /\ UNCHANGED <<major, minor, last, lens>>
Spec == Init /\ [][Next]_vars
Data == [major_version |-> LE(major, 2), minor_version |-> LE(minor, 2), final_frame_index |-> F[last],
         groups |-> << [nodes |-> << [tracks |-> [i \in 1..Len(lens) |-> [values |-> [d |-> [j \in 1..lens[i] |-> 0]]]]] >>] >>]
Negative == last \in {"minus1", "minustiny", "minusinf", "nan"}
Right == (at > Len(lens)) =>
  /\ ([e |-> "InvalidFinalFrameIndex", a |-> F[last], b |-> <<>>] \in AnimErrors(Data)) = (Negative \/ bad)
  /\ ([e |-> "UnsupportedVersion", a |-> LE(major, 2), b |-> LE(minor, 2)] \in AnimErrors(Data)) = (major # 2 \/ minor \notin {0, 1})
Emit == IF at > Len(lens) THEN PrintT(<<"GEN", ToJson([major |-> major, minor |-> minor, last |-> F[last],
          groups |-> << << [i \in 1..Len(lens) |-> [t |-> "Float", n |-> lens[i]]] >> >>])>>) ELSE TRUE
=============================================================================
