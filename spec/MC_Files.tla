------------------------------ MODULE MC_Files ------------------------------
(* Every behaviour of at most Depth operations over two paths, from every      *)
(* initial content.  Each complete behaviour is a scenario for the code.       *)
EXTENDS Files, TLC, Json

CONSTANTS Depth
Contents == {"none", "short", "long", "other", "like", "small", "large"}
Ops == [do : {"save"}, path : {"a", "b", "gone", "dir"}, val : {"small", "large", "bad"}] \cup [do : {"load"}, path : {"a", "b", "gone", "dir"}, val : {""}]
BytesOf == [small |-> "small", large |-> "large", bad |-> "none"]
Denotes == [short |-> "none", long |-> "none", other |-> "none", like |-> "LIKE", small |-> "SMALL", large |-> "LARGE"]

VARIABLES disk, start, hist
vars == <<disk, start, hist>>
Init == disk \in [Paths -> Contents] /\ start = disk /\ hist = <<>>
Do(op) ==
  LET s == FileStep(disk, op, BytesOf, Denotes, "none")
      h == Append(hist, op)
  IN /\ disk' = s.disk
     /\ hist' = h
     /\ IF Len(h) = Depth THEN PrintT(<<"GEN", ToJson([start |-> start, ops |-> h])>>) ELSE TRUE
     /\ UNCHANGED start
Next == Len(hist) < Depth /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

(* A path holds what was last saved there, or what it held at the start. *)
LastSave(p) ==
  LET k == {i \in 1..Len(hist) : hist[i].do = "save" /\ hist[i].path = p /\ hist[i].val # "bad"}
  IN IF k = {} THEN start[p] ELSE hist[CHOOSE i \in k : \A j \in k : j <= i].val
Kept == \A p \in Paths : disk[p] = LastSave(p)
=============================================================================
