------------------------------ MODULE MC_Matl -------------------------------
(* A loader that passes over the parameters of a material once, adding each to  *)
(* the list of its kind, over all sequences of kinds (with parameters of         *)
(* unknown kind and without value among them).                                   *)
EXTENDS Matl, Json
CONSTANTS MaxParams, Vers
VARIABLES ver, seq, at, got
vars == <<ver, seq, at, got>>
Kinds == {MatlKinds[k] : k \in 1..8}
All0 == Kinds \cup {"unknown", "null"}
U(v) == Unit0(v)
N4(n) == LE(n, 4)
Payload(kind, i) ==
  CASE kind = "floats" -> N4(i)
    [] kind = "booleans" -> N4((i % 3) * 65535)
    [] kind = "vectors" -> [x |-> N4(i), y |-> N4(i + 1), z |-> N4(i + 2), w |-> N4(i + 3)]
    [] kind = "textures" -> IF (i % 2) = 0 THEN <<>> ELSE << [j \in 1..i |-> 65] >>
    [] kind = "uv_transforms" -> [scale_u |-> N4(i), scale_v |-> N4(1), rotation |-> N4(2), translate_u |-> N4(3), translate_v |-> N4(4)]
    [] kind = "blend_states" ->
         [source_color |-> U("Zero"), color_operation |-> U("Minimum"), destination_color |-> U("One"), source_alpha |-> U("SourceAlpha"),
          alpha_operation |-> U("Maximum"), destination_alpha |-> U("DestinationAlpha")]
         @@ (IF ver = "V15" THEN [unk6 |-> Zeros(8), unk7 |-> N4(7), unk8 |-> N4(8), unk9 |-> N4(9)]
             ELSE [alpha_sample_to_coverage |-> N4((i % 3) * 256), unk8 |-> N4(8), unk9 |-> N4(9), unk10 |-> N4(10)])
    [] kind = "rasterizer_states" ->
         IF ver = "V15" THEN [cull_mode |-> U("Front")]
         ELSE [fill_mode |-> U("Line"), cull_mode |-> U("Disabled"), depth_bias |-> N4(i), unk4 |-> N4(4), unk5 |-> N4(5), unk6 |-> N4(6)]
    [] kind = "samplers" ->
         [wraps |-> U("Repeat"), wrapt |-> U("ClampToEdge"), wrapr |-> U("MirroredRepeat"), min_filter |-> U("Nearest"), mag_filter |-> U("Linear"),
          texture_filtering_type |-> U(<<"Default", "Default2", "AnisotropicFiltering">>[(i % 3) + 1]),
          border_color |-> [r |-> N4(1), g |-> N4(2), b |-> N4(3), a |-> N4(i)], unk11 |-> N4(11), unk12 |-> N4(12), lod_bias |-> N4(13), max_anisotropy |-> U("Eight")]
    [] kind = "unknown" -> [r |-> N4(1), g |-> N4(2), b |-> N4(3), a |-> N4(i)]
Attr(i) == LET kind == seq[i]
           IN [param_id |-> U("Id" \o ToString(i)),
               param |-> [data |-> IF kind = "null" THEN <<>>
                                   ELSE << [v |-> IF kind = "unknown" THEN "Unk7" ELSE ParamOf[kind], d |-> Payload(kind, i)] >>]]
File0 == [entries |-> << [material_label |-> <<>>, shader_label |-> <<<<66>>>>, attributes |-> [i \in 1..Len(seq) |-> Attr(i)]] >>]
Init == /\ ver \in Vers /\ at = 1 /\ got = [k \in Kinds |-> <<>>]
        /\ \E n \in 0..MaxParams : seq \in [1..n -> All0]
Next == /\ at <= Len(seq) /\ at' = at + 1 /\ UNCHANGED <<ver, seq>>
        /\ got' = (IF seq[at] \in Kinds THEN [got EXCEPT ![seq[at]] = Append(@, [param_id |-> Attr(at).param_id, data |-> FromParam(ver, seq[at], Payload(seq[at], at))])]
                   ELSE got)
Spec == Init /\ [][Next]_vars
Loaded == MatlLoad(ver, File0)
Distributed == at > Len(seq) => \A k \in Kinds : Loaded.entries[1][k] = got[k]
(* Saving what was loaded, as either version, keeps all that version can represent; saved again it stays the same. *)
Kept_ == at > Len(seq) =>
  \A w \in {"V15", "V16"} : LET d == [Loaded EXCEPT !.minor_version = LE(MatlMinor[w], 2)]
                            IN /\ MatlLoad(w, MatlSave(w, d)) = MatlAs(w, d)
                               /\ MatlAs(w, MatlAs(w, d)) = MatlAs(w, d)
                               /\ w = ver => MatlAs(w, d) = d
Emit == IF at > Len(seq) THEN PrintT(<<"GEN", ToJson([ver |-> ver, seq |-> seq])>>) ELSE TRUE
=============================================================================
