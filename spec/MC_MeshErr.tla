----------------------------- MODULE MC_MeshErr -----------------------------
(* Every way of breaking the conditions of a valid mesh: each condition at no   *)
(* object or at one of the objects, alone and combined.                         *)
EXTENDS Mesh, TLC, Json
CONSTANTS Objects
Faults == <<"tri", "len", "out", "wt", "edge">>
Versions == {<<1, 8>>, <<1, 9>>, <<1, 10>>, <<1, 7>>, <<1, 11>>, <<2, 8>>, <<0, 0>>}
VARIABLES ver, dup, at
vars == <<ver, dup, at>>
Vec3(n) == [v |-> "Vector3", d |-> [i \in 1..n |-> <<F1, F0, F1>>]]
Obj(k, f) ==    \* f: the faults of the object
  LET n == 3
  IN [name |-> <<97>>, subindex |-> LE(IF dup /\ k > 1 THEN 1 ELSE k, 8), parent_bone_name |-> <<>>, sort_bias |-> LE(0, 4),
      disable_depth_write |-> <<0>>, disable_depth_test |-> <<0>>,
      vertex_indices |-> (IF "edge" \in f THEN <<LE(n - 1, 4), LE(n - 1, 4), LE(n - 1, 4)>> ELSE <<>>)
                         \o (IF "out" \in f THEN <<LE(n, 4), LE(0, 4), LE(0, 4)>> ELSE <<LE(0, 4), LE(1, 4), LE(2, 4)>>)
                         \o (IF "tri" \in f THEN <<LE(0, 4)>> ELSE <<>>),
      positions |-> <<[name |-> <<>>, data |-> Vec3(n)]>>,
      normals |-> <<>>, binormals |-> <<>>, tangents |-> <<>>,
      texture_coordinates |-> <<>>,
      color_sets |-> IF "len" \in f THEN <<[name |-> <<>>, data |-> Vec3(n + 1)]>> ELSE <<>>,
      bone_influences |-> <<[bone_name |-> <<98>>,
                             vertex_weights |-> (IF "edge" \in f THEN <<[vertex_index |-> LE(65535, 4), vertex_weight |-> F1]>> ELSE <<>>)
                                \o (IF "wt" \in f THEN <<[vertex_index |-> LE(65536, 4), vertex_weight |-> F1]>> ELSE <<>>)]>>]
Mesh0 == [major_version |-> LE(ver[1], 2), minor_version |-> LE(ver[2], 2),
          objects |-> [k \in 1..Objects |-> Obj(k, {Faults[i] : i \in {i \in 1..Len(at) : at[i] = k}})]]
Init == ver \in Versions /\ dup \in BOOLEAN /\ at = <<>>
Next == /\ Len(at) < Len(Faults)
        /\ \E k \in 0..Objects : at' = Append(at, k)
        /\ UNCHANGED <<ver, dup>>
Spec == Init /\ [][Next]_vars
Emit == IF Len(at) = Len(Faults) THEN PrintT(<<"GEN", ToJson(Mesh0)>>) ELSE TRUE
(* A complete choice is refused exactly for the faults that were chosen. *)
Kinds == {e.e : e \in MeshErrors(Mesh0)}
Exact == Len(at) = Len(Faults) =>
  Kinds = (IF dup THEN {"DuplicateSubindex"} ELSE {})
          \cup (IF ver \in {<<1, 8>>, <<1, 9>>, <<1, 10>>} THEN {} ELSE {"UnsupportedVersion"})
          \cup (IF at[1] > 0 THEN {"NonTriangulatedFaces"} ELSE {})
          \cup (IF at[2] > 0 THEN {"AttributeDataLengthMismatch"} ELSE {})
          \cup (IF at[3] > 0 /\ at[3] # at[2] THEN {"VertexIndexOutOfRange"} ELSE {})
          \cup (IF at[4] > 0 /\ ver = <<1, 10>> THEN {"SkinWeightVertexIndexExceedsLimit"} ELSE {})
=============================================================================
