----------------------------- MODULE MC_Hostile -----------------------------
(* Walks every format that has a data type: a state is a part of a format;    *)
(* each replacement of each part gives a value that a file can hold, so that  *)
(* a program meets it when it reads that file.                                *)
EXTENDS Hostile, TLC, Json
CONSTANT Kinds
VARIABLES k, ver, path, edit
vars == <<k, ver, path, edit>>
Root == RootOf(k, ver)
Part == PartAt(Root, path)
Value == Edited(Root, Smallest(Root, path), path, edit)
Init == k \in (IF Kinds = {} THEN DataKinds ELSE Kinds) /\ ver \in {Versions(k)[i] : i \in 1..Len(Versions(k))} /\ path = <<>> /\ edit = ""
Descend == edit = "" /\ UNCHANGED <<k, ver, edit>> /\ \E u \in Under(Part) : path' = Append(path, u[1])
Replace == edit = "" /\ UNCHANGED <<k, ver, path>> /\ edit' \in EditsOf(Part)
Next == Descend \/ Replace
Spec == Init /\ [][Next]_vars

Fits == edit = "" \/ Ok(Root, Value)
Bytes_ == CASE k = "MeshEx" -> MeshExBytes(Value) [] k = "Adj" -> AdjBytes(Value) [] OTHER -> SsbhBytes(k, ver, Value)
Back == CASE k = "MeshEx" -> LET r == MeshExRead(Bytes_) IN [ok |-> r.ok, v |-> r.v]
          [] k = "Adj" -> LET r == AdjRead(Bytes_) IN [ok |-> r.ok, v |-> r.v]
          [] OTHER -> LET r == SsbhRead(Bytes_) IN [ok |-> r.ok /\ r.f = k /\ r.ver = ver, v |-> r.v]
(* Only MeshEx files cannot hold every value: both tables share one count. *)
Storable == edit = "" \/ (k = "MeshEx" /\ ~MeshExValid(Value)) \/ (Back.ok /\ Eq(Root, Value, Back.v))
(* Replacements other than swaps change the part (unless it has that value already, or nothing to choose from). *)
Emit == edit = "" \/ PrintT(<<"GEN", ToJson([fmt |-> k, ver |-> ver, path |-> path, edit |-> edit, val |-> Value])>>)
=============================================================================
