------------------------------ MODULE MC_Stable -----------------------------
(* Every stored number of the lossy kinds (half floats, bytes) is loaded as a   *)
(* value that is stored as the same number, so that the second and later        *)
(* generations are equal; and all short histories of saves, failed saves, loads *)
(* and saves in other threads by a saver that keeps something of its last use.   *)
EXTENDS Stable, Json
CONSTANTS Halves, MaxHistory
VARIABLES mode, n, gen, cell, hist, kept
vars == <<mode, n, gen, cell, hist, kept>>
(* all halves, or a sample of them *)
HalfNumbers == IF Halves = 0 THEN 0..65535 ELSE {k * Halves : k \in 0..(65535 \div Halves)} \cup (31700..31800) \cup (0..300) \cup (64500..64600)
HalfOf(k) == <<k % 256, k \div 256>>
Ops == {"a", "b", "failed", "load", "thread"}
Init == \/ mode = "half" /\ n \in HalfNumbers /\ gen = 0 /\ cell = HalfOf(n) /\ hist = <<>> /\ kept = "none"
        \/ mode = "byte" /\ n \in 0..255 /\ gen = 0 /\ cell = n /\ hist = <<>> /\ kept = "none"
        \/ mode = "history" /\ n = 0 /\ gen = 0 /\ cell = <<>> /\ hist = <<>> /\ kept = "none"
(* load the cell, save what was loaded *)
Generation == /\ mode \in {"half", "byte"} /\ gen < 2 /\ gen' = gen + 1 /\ UNCHANGED <<mode, n, hist, kept>>
              /\ IF mode = "half" THEN cell' = F16(F32of16(cell))
                 ELSE cell' = CHOOSE b \in 0..255 : IsByteOf(b, ByteFloatOf(cell))
SaveOp(o) == /\ mode = "history" /\ Len(hist) < MaxHistory /\ hist' = Append(hist, o)
             /\ kept' = (IF o \in {"failed", "b"} THEN "b" ELSE IF o = "load" THEN kept ELSE "a") /\ UNCHANGED <<mode, n, gen, cell>>
Next == Generation \/ \E o \in Ops : SaveOp(o)
Spec == Init /\ [][Next]_vars
(* what the saver gives out must not depend on what it kept *)
Out(v) == [k |-> "ok", h |-> v]
SavedBy(o) == IF o = "b" \/ o = "failed" THEN "b" ELSE "a"
Right == /\ (mode = "half" /\ gen > 0) => IF HNaN(HalfOf(n)) THEN HNaN(cell) ELSE cell = HalfOf(n)
         /\ (mode = "byte" /\ gen > 0) => cell = n
         /\ mode = "history" => IsFunction([i \in 1..Len(hist) |-> [v |-> SavedBy(hist[i]), out |-> Out(SavedBy(hist[i]))]])
Emit == IF mode = "history" /\ Len(hist) = MaxHistory THEN PrintT(<<"GEN", ToJson(hist)>>) ELSE TRUE
=============================================================================
