----------------------------- MODULE MC_Schema ------------------------------
(* Exports the formats to the harness and checks that the schemas are well    *)
(* formed: distinct tags, magics and versions.                                *)
EXTENDS File, TLC, Json

VARIABLE f
Kinds == DOMAIN SsbhFormats \cup {"MeshEx", "Adj"}
Export == [Adj |-> <<[name |-> "", maj |-> 0, min |-> 0, end |-> 1, t |-> AdjSchema]>>,
           MeshEx |-> <<[name |-> "", maj |-> 0, min |-> 0, end |-> 16, t |-> St(MeshExFields)]>>]
Vers(k) == IF k \in DOMAIN SsbhFormats THEN SsbhFormats[k].vers ELSE Export[k]
Magic(k) == IF k \in DOMAIN SsbhFormats THEN SsbhFormats[k].magic ELSE <<>>
Init == f = ""
Next == /\ f = ""
        /\ f' \in Kinds
        /\ PrintT(<<"GEN", ToJson([fmt |-> f', magic |-> Magic(f'), vers |-> Vers(f')])>>)
Spec == Init /\ [][Next]_f

RECURSIVE WF(_)
WF(s) ==
  CASE s.k \in {"b", "bits", "unit", "cs", "buf"} -> TRUE
    [] s.k = "rep" -> \A x, y \in DOMAIN s.vars : Len(s.vars[x]) = s.n /\ (x = y \/ s.vars[x] # s.vars[y])
    [] s.k = "st" -> /\ \A i, j \in 1..Len(s.f) : i = j \/ s.f[i].n # s.f[j].n
                     /\ \A i \in 1..Len(s.f) : WF(s.f[i].t)
    [] s.k \in {"vec", "tup", "opt", "ptr", "aptr", "arr", "al"} -> WF(s.t)
    [] s.k = "en" -> \A x, y \in DOMAIN s.vars : (x = y \/ s.vars[x].tag # s.vars[y].tag) /\ WF(s.vars[x].t)
WellFormed == f = "" \/ \A i \in 1..Len(Vers(f)) : WF(Vers(f)[i].t)
Distinct ==
  \A x, y \in DOMAIN SsbhFormats :
    /\ x = y \/ SsbhFormats[x].magic # SsbhFormats[y].magic
    /\ \A i, j \in 1..Len(SsbhFormats[x].vers) :
         i = j \/ <<SsbhFormats[x].vers[i].maj, SsbhFormats[x].vers[i].min>> # <<SsbhFormats[x].vers[j].maj, SsbhFormats[x].vers[j].min>>
=============================================================================
