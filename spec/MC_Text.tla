------------------------------- MODULE MC_Text ------------------------------
(* Decoding UTF-8 byte by byte with a counter of bytes to come and the range   *)
(* of the next one, stopping at a NUL, agrees with the description by sequences *)
(* for all short byte strings over the bytes where ranges begin and end.        *)
EXTENDS Texts, TLC, Json
CONSTANTS MaxLen, Alphabet
VARIABLES s, at, more, lo, hi, state
vars == <<s, at, more, lo, hi, state>>
Init == s = <<>> /\ at = 0 /\ more = 0 /\ lo = 128 /\ hi = 191 /\ state = "text"
(* what the first byte of a sequence requires *)
First(x) == CASE x < 128 -> [n |-> 0, lo |-> 128, hi |-> 191]
              [] x \in 194..223 -> [n |-> 1, lo |-> 128, hi |-> 191]
              [] x \in 224..239 -> [n |-> 2, lo |-> IF x = 224 THEN 160 ELSE 128, hi |-> IF x = 237 THEN 159 ELSE 191]
              [] x \in 240..244 -> [n |-> 3, lo |-> IF x = 240 THEN 144 ELSE 128, hi |-> IF x = 244 THEN 143 ELSE 191]
              [] OTHER -> [n |-> 9, lo |-> 0, hi |-> 0]
Step(x) ==
  /\ Len(s) < MaxLen
  /\ s' = Append(s, x)
  /\ IF state # "text" THEN UNCHANGED <<at, more, lo, hi, state>>
     ELSE IF x = 0 THEN state' = (IF more = 0 THEN "end" ELSE "bad") /\ UNCHANGED <<at, more, lo, hi>>
     ELSE IF more > 0 THEN (IF x >= lo /\ x <= hi THEN at' = at + 1 /\ more' = more - 1 /\ lo' = 128 /\ hi' = 191 /\ UNCHANGED state
                            ELSE state' = "bad" /\ UNCHANGED <<at, more, lo, hi>>)
     ELSE IF First(x).n = 9 THEN state' = "bad" /\ UNCHANGED <<at, more, lo, hi>>
     ELSE at' = at + 1 /\ more' = First(x).n /\ lo' = First(x).lo /\ hi' = First(x).hi /\ UNCHANGED state
Next == \E x \in Alphabet : Step(x)
Spec == Init /\ [][Next]_vars
Good0 == (state = "end" \/ state = "text") /\ more = 0
Agree == /\ Good0 = Utf8(CutAtNul(s))
         /\ Good0 => Len(CutAtNul(s)) = at
Emit == PrintT(<<"GEN", ToJson([bytes |-> s])>>)
=============================================================================
