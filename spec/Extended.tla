------------------------------ MODULE Extended ------------------------------
(* Extended mesh data (D14): groups of mesh objects, with an entry and flags   *)
(* per object of a group.                                                       *)
EXTENDS Adjacent

BitOf(b, k) == (b \div P2(k)) % 2
FlagsOf(f) == [draw_model |-> <<BitOf(f.bytes[1][1], 0)>>, cast_shadow |-> <<BitOf(f.bytes[1][1], 1)>>]
OptSeq(x) == IF x = <<>> THEN <<>> ELSE x[1]
(* The flags of group g (from 0): those of its entries, in order, as far as there are flags. *)
GroupFlags(entries, flags, g) ==
  LET is == SelectIdx(Min(Len(entries), Len(flags)), LAMBDA i : UInt(entries[i].mesh_object_group_index) = g)
  IN [i \in 1..Len(is) |-> FlagsOf(flags[is[i]])]
MeshExLoad(m) ==
  LET gs == OptSeq(m.mesh_object_groups)
  IN [mesh_object_groups |-> [g \in 1..Len(gs) |->
       [bounding_sphere |-> gs[g].bounding_sphere, mesh_object_full_name |-> Text(gs[g].mesh_object_full_name),
        mesh_object_name |-> Text(gs[g].mesh_object_name), entry_flags |-> GroupFlags(OptSeq(m.entries), OptSeq(m.entry_flags), g - 1)]]]
(* the group of each entry *)
EntryGroups(gs) == Concat([g \in 1..Len(gs) |-> [i \in 1..Len(gs[g].entry_flags) |-> g - 1]])
MeshExDataJudge(e) ==
  LET m == e.lib.v
      gs == e.data.mesh_object_groups
      es == OptSeq(m.entries)
      S == {gs[g].bounding_sphere : g \in 1..Len(gs)}
      \* numbers whose squares are neither too large nor too small for floating point numbers
      N == UNION {{x.center.x, x.center.y, x.center.z, x.radius} : x \in S}
      regular == /\ \A x \in S : Key(x.radius) >= 0
                 /\ \A f \in N : Expo(f) < 180
                 /\ (MaxExp(N) > 90 \/ \A f \in N : IsZero(f))
  IN IF e.lib.k # "ok" THEN e.lib.e
     ELSE IF MeshExLoad(m) # e.data THEN "the converted file denotes other data"
     ELSE IF Len(es) # Len(OptSeq(m.entry_flags)) THEN "entries and flags differ in number"
     ELSE IF [i \in 1..Len(es) |-> UInt(es[i].mesh_object_group_index)] # EntryGroups(gs) THEN "the entries do not list the members of the groups"
     ELSE IF m.all_data = <<>> THEN "no overall sphere"
     ELSE IF regular /\ S # {} /\ ~HoldsSpheres(m.all_data[1].bounding_sphere, S) THEN "a group's sphere is not inside of the overall sphere"
     ELSE IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e
     ELSE IF e.rt.v # e.data THEN "the loaded data differs" ELSE ""
MeshExFileJudge(e) ==
  IF e.r.k # "ok" THEN e.r.e ELSE IF e.r.v # MeshExLoad(e.m) THEN "the data loaded differs from what the file stores" ELSE ""

(* ---- groups of mesh objects *)
StartsAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
TagVis == <<95, 86, 73, 83>>             \* _VIS
TagO == <<95, 79, 95>>                   \* _O_
TagShape == <<83, 104, 97, 112, 101>>    \* Shape
(* The name before its first tag; without a tag, without a final Shape. *)
Stripped(s) ==
  LET tags == {i \in 1..Len(s) : StartsAt(s, TagVis, i) \/ StartsAt(s, TagO, i)}
  IN IF tags # {} THEN SubSeq(s, 1, (CHOOSE i \in tags : \A j \in tags : i <= j) - 1)
     ELSE IF Len(s) >= 5 /\ StartsAt(s, TagShape, Len(s) - 4) THEN SubSeq(s, 1, Len(s) - 5)
     ELSE s
(* The runs of equal elements, as pairs of first and last position. *)
Runs(names) ==
  LET firsts == SelectIdx(Len(names), LAMBDA i : IF i = 1 THEN TRUE ELSE names[i - 1] # names[i])
  IN [k \in 1..Len(firsts) |-> <<firsts[k], IF k = Len(firsts) THEN Len(names) ELSE firsts[k + 1] - 1>>]
GroupsJudge(e) ==
  LET os == e.objects
      runs == Runs([i \in 1..Len(os) |-> os[i].name])
      gs == e.r.v.mesh_object_groups
      ps(k) == Concat([i \in 1..runs[k][2] - runs[k][1] + 1 |-> Points(os[runs[k][1] + i - 1])])
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF Len(gs) # Len(runs) THEN "not one group per run of equal names"
     ELSE IF \E k \in 1..Len(gs) : gs[k].mesh_object_full_name # os[runs[k][1]].name THEN "the full name of a group differs"
     ELSE IF \E k \in 1..Len(gs) : gs[k].mesh_object_name # Stripped(os[runs[k][1]].name) THEN "the name of a group is not the full name without tags"
     ELSE IF \E k \in 1..Len(gs) : Len(gs[k].entry_flags) # runs[k][2] - runs[k][1] + 1 THEN "not one entry per object of the run"
     ELSE IF \E k \in 1..Len(gs) : LET p == ps(k) IN p # <<>> /\ ~HoldsPoints(gs[k].bounding_sphere, {p[i] : i \in 1..Len(p)}) THEN "a vertex is outside of the group's sphere"
     ELSE ""
=============================================================================
