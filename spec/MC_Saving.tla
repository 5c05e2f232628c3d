----------------------------- MODULE MC_Saving -----------------------------
(* Small values that gain faults one by one: the faults and the reasons to refuse agree, in any order. *)
EXTENDS Saving, TLC, Json
CONSTANTS Depth
VARIABLES fmt, d, faults
vars == <<fmt, d, faults>>
(* the faults of the harness *)
Kinds == {"arbitrary", "version", "twin", "faces", "range", "lengths", "weights", "numbers", "empty"}
Num4(x) == <<x, 0, 0, 0>>
SvVectors(n) == [i \in 1..n |-> [c \in 1..3 |-> Num4(0)]]
SvAttr(n) == <<[name |-> <<80>>, data |-> [v |-> "Vector3", d |-> SvVectors(n)]]>>
SvObj(x) == [name |-> <<x>>, subindex |-> Zeros(8), parent_bone_name |-> <<>>, sort_bias |-> Num4(0), disable_depth_write |-> <<0>>, disable_depth_test |-> <<0>>,
           vertex_indices |-> <<Num4(0), Num4(0), Num4(0)>>, positions |-> SvAttr(1), normals |-> SvAttr(1), binormals |-> <<>>, tangents |-> <<>>,
           texture_coordinates |-> <<>>, color_sets |-> <<>>,
           bone_influences |-> <<[bone_name |-> <<66>>, vertex_weights |-> <<[vertex_index |-> Num4(0), vertex_weight |-> Num4(0)]>>]>>]
SvBone(p) == [name |-> <<66>>, transform |-> <<>>, parent_index |-> p]
Num8(x) == <<x, 0, 0, 0, 0, 0, 0, 0>>
SvBase == [Mesh |-> [major_version |-> <<1, 0>>, minor_version |-> <<10, 0>>, objects |-> <<SvObj(65), SvObj(66)>>],
         Skel |-> [major_version |-> <<1, 0>>, minor_version |-> <<0, 0>>, bones |-> <<SvBone(<<>>), SvBone(<<Num8(0)>>), SvBone(<<Num8(1)>>)>>],
         Anim |-> [major_version |-> <<2, 0>>, minor_version |-> <<0, 0>>, final_frame_index |-> Num4(0), groups |-> <<>>],
         Matl |-> [major_version |-> <<1, 0>>, minor_version |-> <<6, 0>>, entries |-> <<>>],
         Adj |-> [entries |-> <<[mesh_object_index |-> Num8(0), vertex_adjacency |-> <<>>]>>]]
Init == fmt \in DOMAIN SvBase /\ d = SvBase[fmt] /\ faults = <<>>
Faulty(k, x) == d' = x /\ faults' = Append(faults, k) /\ UNCHANGED fmt
ObjectFault(k) == LET o == d.objects IN
  \/ Faulty("twin", [d EXCEPT !.objects = Append(o, o[k])])
  \/ Faulty("faces", [d EXCEPT !.objects[k].vertex_indices = Append(@, Num4(0))])
  \/ Faulty("range", [d EXCEPT !.objects[k].vertex_indices[1] = Num4(9)])
  \/ Faulty("lengths", [d EXCEPT !.objects[k].normals = SvAttr(2)])
  \/ Faulty("weights", [d EXCEPT !.objects[k].bone_influences[1].vertex_weights[1].vertex_index = <<0, 0, 1, 0>>])
Next == /\ Len(faults) < Depth
        /\ \/ fmt # "Adj" /\ \E m \in {<<1, 0>>, <<1, 1>>}, n \in {<<8, 0>>, <<5, 0>>, <<0, 0>>, <<0, 1>>} :
                Faulty("version", [d EXCEPT !.major_version = m, !.minor_version = n])
           \/ fmt = "Mesh" /\ \E k \in 1..2 : ObjectFault(k)
           \/ fmt = "Skel" /\ \E b \in 1..3, p \in {0, 1, 2, 3} : Faulty("twin", [d EXCEPT !.bones[b].parent_index = <<Num8(p)>>])
           \/ fmt = "Anim" /\ \E f \in {<<0, 0, 128, 191>>, <<0, 0, 192, 255>>, <<0, 0, 192, 127>>, <<0, 0, 128, 63>>} : Faulty("range", [d EXCEPT !.final_frame_index = f])
           \/ fmt = "Adj" /\ \E k \in {4, 5, 8} : Faulty("range", [d EXCEPT !.entries[1].mesh_object_index[k] = 1])
Spec == Init /\ [][Next]_vars
Why == SaveRefusals(fmt, d)
Suffered(k) == \E i \in 1..Len(faults) : faults[i] = k
Untouched == faults = <<>> => Why = {}
(* every reason comes from a fault that can cause it *)
Caused == /\ "DuplicateSubindex" \in Why => Suffered("twin")
          /\ "NonTriangulatedFaces" \in Why => Suffered("faces")
          /\ "AttributeDataLengthMismatch" \in Why => Suffered("lengths")
          /\ "SkinWeightVertexIndexExceedsLimit" \in Why => Suffered("weights") /\ VerOf(d) = "V10"
          /\ "cycle" \in Why => Suffered("twin")
          /\ Why \cap {"version", "UnsupportedVersion"} # {} => Suffered("version")
(* what is wrong stays wrong when more goes wrong (unless the same part is changed again) *)
Stays == [][\A x \in Why : x \in {"DuplicateSubindex", "AttributeDataLengthMismatch", "range"} => x \in SaveRefusals(fmt', d')]_vars
Refused == SaveVersion(fmt, d) = "none" => Why # {}
Gives(l) == PrintT(<<"GEN", ToJson([faults |-> l])>>)
Emit == IF faults = <<>> /\ fmt = "Adj"
        THEN /\ Gives(<<>>)
             /\ \A k \in Kinds : Gives(<<k>>)
             /\ \A k, m \in Kinds : Gives(<<k, m>>)
        ELSE TRUE
=============================================================================
