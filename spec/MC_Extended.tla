----------------------------- MODULE MC_Extended ----------------------------
(* Grouping objects in one pass, stripping names by reading them once from the  *)
(* left, and loading any small arrangement of entries and flags.                *)
EXTENDS Extended, Json
CONSTANTS MaxObjects, MaxTokens, MaxGroups, MaxEntries
VARIABLES mode, objs, groups, toks, at, m
vars == <<mode, objs, groups, toks, at, m>>
Tokens == {<<97>>, TagVis, TagO, TagShape, <<95>>, <<95, 79>>, <<83, 104, 97, 112>>}
NameOf(ts) == Concat(ts)
Init ==
  \/ mode = "group" /\ at = 1 /\ groups = <<>> /\ toks = <<>> /\ m = <<>> /\ \E k \in 0..MaxObjects : objs \in [1..k -> {1, 2, 3}]
  \/ mode = "strip" /\ at = 0 /\ groups = <<>> /\ objs = <<>> /\ m = <<>> /\ \E k \in 0..MaxTokens : toks \in [1..k -> Tokens]
  \/ /\ mode = "load" /\ at = 1 /\ objs = <<>> /\ toks = <<>>
     /\ \E g \in 0..MaxGroups : groups = [i \in 1..g |-> <<>>] /\ \E k, f \in 0..MaxEntries : \E own \in [1..k -> 0..g] :
          /\ m = [own |-> own, flags |-> [i \in 1..f |-> [draw_model |-> <<i % 2>>, cast_shadow |-> <<(i \div 2) % 2>>]]]
Group == /\ mode = "group" /\ at <= Len(objs) /\ at' = at + 1 /\ UNCHANGED <<mode, objs, toks, m>>
         /\ groups' = IF groups # <<>> /\ groups[Len(groups)].name = objs[at] THEN [groups EXCEPT ![Len(groups)].n = @ + 1]
                      ELSE Append(groups, [name |-> objs[at], n |-> 1])
(* at characters have been read without a tag beginning among them *)
Strip == /\ mode = "strip" /\ UNCHANGED <<objs, groups, toks, m>>
         /\ LET s == NameOf(toks)
                rest == SubSeq(s, at + 1, Len(s))
            IN IF StartsAt(rest, TagVis, 1) \/ StartsAt(rest, TagO, 1) THEN mode' = "stripped" /\ UNCHANGED at
               ELSE IF rest = <<>> THEN mode' = "stripped" /\ at' = (IF Len(s) >= 5 /\ SubSeq(s, Len(s) - 4, Len(s)) = TagShape THEN at - 5 ELSE at)
               ELSE at' = at + 1 /\ UNCHANGED mode
LoadEntry == /\ mode = "load" /\ at <= Len(m.own) /\ at' = at + 1 /\ UNCHANGED <<mode, objs, toks, m>>
        /\ groups' = (IF m.own[at] < Len(groups) /\ at <= Len(m.flags) THEN [groups EXCEPT ![m.own[at] + 1] = Append(@, m.flags[at])] ELSE groups)
Next == Group \/ Strip \/ LoadEntry
Spec == Init /\ [][Next]_vars
FlagBytes(f) == [bytes |-> <<<<f.draw_model[1] + 2 * f.cast_shadow[1]>>, <<0>>>>]
File0 == [mesh_object_groups |-> << [i \in 1..Len(groups) |-> [bounding_sphere |-> i, mesh_object_full_name |-> <<>>, mesh_object_name |-> << <<65>> >>]] >>,
          entries |-> << [i \in 1..Len(m.own) |-> [mesh_object_group_index |-> LE(m.own[i], 4)]] >>,
          entry_flags |-> << [i \in 1..Len(m.flags) |-> FlagBytes(m.flags[i])] >>]
Right ==
  /\ (mode = "group" /\ at > Len(objs)) =>
       LET r == Runs(objs) IN groups = [k \in 1..Len(r) |-> [name |-> objs[r[k][1]], n |-> r[k][2] - r[k][1] + 1]]
  /\ mode = "stripped" => Stripped(NameOf(toks)) = SubSeq(NameOf(toks), 1, at)
  /\ (mode = "load" /\ at > Len(m.own)) => [g \in 1..Len(groups) |-> MeshExLoad(File0).mesh_object_groups[g].entry_flags] = groups
Emit == IF mode = "group" /\ at > Len(objs) THEN PrintT(<<"GEN", ToJson([m |-> "group", objs |-> objs])>>)
        ELSE IF mode = "stripped" THEN PrintT(<<"GEN", ToJson([m |-> "strip", name |-> NameOf(toks)])>>)
        ELSE IF mode = "load" /\ at > Len(m.own) THEN PrintT(<<"GEN", ToJson([m |-> "load", groups |-> Len(groups), own |-> m.own, flags |-> Len(m.flags)])>>)
        ELSE TRUE
=============================================================================
