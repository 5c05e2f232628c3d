------------------------------- MODULE Saving ------------------------------
(* Saving any data of the eight types (D22): which values are refused, and     *)
(* what holds of the file otherwise.                                            *)
EXTENDS Docs, Stable

(* The reasons to refuse d; {} means that it has to be saved. *)
SaveRefusals(fmt, d) ==
  CASE fmt = "Mesh" -> {x.e : x \in MeshErrors(d)}
    [] fmt = "Skel" -> (IF UInt(d.major_version) = 1 /\ UInt(d.minor_version) = 0 THEN {} ELSE {"version"})
                       \cup (IF Cyclic(ParentsOf(d)) THEN {"cycle"} ELSE {})
    [] fmt = "Anim" -> {x.e : x \in AnimErrors(d)}
    [] fmt = "Matl" -> IF MatlVersion(d) = "" THEN {"version"} ELSE {}
    [] fmt = "Adj" -> IF \E i \in 1..Len(d.entries) : \E k \in 5..8 : d.entries[i].mesh_object_index[k] # 0 THEN {"range"} ELSE {}
    [] OTHER -> {}
(* The version of the file, by that of the data. *)
SaveVersion(fmt, d) ==
  CASE fmt = "Mesh" -> VerOf(d)
    [] fmt = "Skel" -> "V10"
    [] fmt = "Anim" -> IF UInt(d.minor_version) = 0 THEN "V20" ELSE "V21"
    [] fmt = "Matl" -> MatlVersion(d)
    [] fmt = "Modl" -> "V17"
    [] fmt = "Hlpb" -> "V11"
    [] OTHER -> ""
SaveMemory == 16384     \* KiB: the values are small
SaveJudge(e) ==
  LET why == SaveRefusals(e.fmt, e.data)
  IN IF e.r.k = "panic" THEN e.r.e
     ELSE IF e.direct.k = "panic" THEN e.direct.e
     ELSE IF e.peak > SaveMemory THEN "saving takes too much memory"
     ELSE IF e.direct.k # e.r.k \/ ~e.same THEN "saving and converting first differ"
     ELSE IF why # {} THEN (IF e.r.k = "ok" THEN "a value that has to be refused is saved"
                            ELSE IF e.size # 0 THEN "something was written before the value was refused" ELSE "")
     ELSE IF e.r.k # "ok" THEN "a value is refused: " \o e.r.e
     ELSE IF e.low.k # "ok" THEN "what is saved cannot be read: " \o e.low.e
     ELSE IF e.low.v.fmt # e.fmt \/ e.low.v.ver # SaveVersion(e.fmt, e.data) THEN "the file has another format or version"
     ELSE IF e.load.k # "ok" THEN "what is saved cannot be loaded: " \o e.load.e
     ELSE ""
=============================================================================
