------------------------------- MODULE Model -------------------------------
(* Models and helper bones (D12).                                              *)
EXTENDS Matl

ModlEntryOf(e) == [mesh_object_name |-> Text(e.mesh_object_name), mesh_object_subindex |-> e.mesh_object_subindex, material_label |-> Text(e.material_label)]
ModlLoad(m) ==
  [major_version |-> LE(1, 2), minor_version |-> LE(7, 2), model_name |-> Text(m.model_name), skeleton_file_name |-> Text(m.skeleton_file_name),
   material_file_names |-> [i \in 1..Len(m.material_file_names) |-> Text(m.material_file_names[i])],
   animation_file_name |-> IF m.animation_file_name = <<>> THEN <<>> ELSE <<Text(m.animation_file_name[1])>>,
   mesh_file_name |-> Text(m.mesh_file_name), entries |-> [i \in 1..Len(m.entries) |-> ModlEntryOf(m.entries[i])]]
AimOf(a) ==
  [name |-> Text(a.name), aim_bone_name1 |-> Text(a.aim_bone_name1), aim_bone_name2 |-> Text(a.aim_bone_name2), aim_type1 |-> Text(a.aim_type1),
   aim_type2 |-> Text(a.aim_type2), target_bone_name1 |-> Text(a.target_bone_name1), target_bone_name2 |-> Text(a.target_bone_name2),
   unk1 |-> a.unk1, unk2 |-> a.unk2, aim |-> a.aim, up |-> a.up, quat1 |-> a.quat1, quat2 |-> a.quat2]
OrientOf(o) ==
  [name |-> Text(o.name), parent_bone_name1 |-> Text(o.parent_bone_name1), parent_bone_name2 |-> Text(o.parent_bone_name2),
   source_bone_name |-> Text(o.source_bone_name), target_bone_name |-> Text(o.target_bone_name), unk_type |-> o.unk_type,
   constraint_axes |-> o.constraint_axes, quat1 |-> o.quat1, quat2 |-> o.quat2, range_min |-> o.range_min, range_max |-> o.range_max]
HlpbLoad(h) ==
  [major_version |-> LE(1, 2), minor_version |-> LE(1, 2), aim_constraints |-> [i \in 1..Len(h.aim_constraints) |-> AimOf(h.aim_constraints[i])],
   orient_constraints |-> [i \in 1..Len(h.orient_constraints) |-> OrientOf(h.orient_constraints[i])]]
(* the constraint numbered i (from 1) of a file with na aim constraints *)
ConstraintAt(na, i) == IF i <= na THEN [type |-> "Aim", index |-> i - 1] ELSE [type |-> "Orient", index |-> i - 1 - na]
ConstraintsListed(h) ==
  LET na == Len(h.aim_constraints)
      n == na + Len(h.orient_constraints)
  IN /\ Len(h.constraint_indices) = n /\ Len(h.constraint_types) = n
     /\ \A i \in 1..n : LET c == ConstraintAt(na, i) IN h.constraint_indices[i] = LE(c.index, 4) /\ h.constraint_types[i].v = c.type

(* ---- The versions of the data are not stored: a file has the version of its format. *)
AsVersion(d, maj, min) == [d EXCEPT !.major_version = LE(maj, 2), !.minor_version = LE(min, 2)]
ModelWant(fmt, d) == IF fmt = "Modl" THEN AsVersion(d, 1, 7) ELSE AsVersion(d, 1, 1)
ModelLoad(fmt, m) == IF fmt = "Modl" THEN ModlLoad(m) ELSE HlpbLoad(m)
ModelJudge(e) ==
  LET want == ModelWant(e.fmt, e.data)
  IN IF e.lib.k # "ok" THEN e.lib.e
     ELSE IF ModelLoad(e.fmt, e.lib.v.d) # want THEN "the converted file denotes other data"
     ELSE IF e.fmt = "Hlpb" /\ ~ConstraintsListed(e.lib.v.d) THEN "the lists of constraints are not every aim and then every orient constraint once"
     ELSE IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e
     ELSE IF e.rt.v # want THEN "the loaded data differs" ELSE ""
ModelFileJudge(e) ==
  IF e.r.k # "ok" THEN e.r.e ELSE IF e.r.v # ModelLoad(e.fmt, e.m) THEN "the data loaded differs from what the file stores" ELSE ""
=============================================================================
