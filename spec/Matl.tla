------------------------------- MODULE Matl --------------------------------
(* Materials (D11).  "data" has the fields of MatlData; "m" are the contents of *)
(* a Matl file of version V15 or V16.                                           *)
EXTENDS Anim, TLC

MatlKinds == <<"blend_states", "floats", "booleans", "vectors", "rasterizer_states", "samplers", "textures", "uv_transforms">>
ParamOf == [blend_states |-> "BlendState", floats |-> "Float", booleans |-> "Boolean", vectors |-> "Vector4",
            rasterizer_states |-> "RasterizerState", samplers |-> "Sampler", textures |-> "String", uv_transforms |-> "UvTransform"]
Unit0(v) == [v |-> v, d |-> <<>>]
Truth(b) == IF \A i \in 1..Len(b) : b[i] = 0 THEN <<0>> ELSE <<1>>

(* ---- what a stored parameter x of a kind means *)
FromParam(ver, kind, x) ==
  CASE kind \in {"floats", "vectors", "uv_transforms"} -> x
    [] kind = "booleans" -> Truth(x)
    [] kind = "textures" -> Text(x)
    [] kind = "blend_states" ->
         [source_color |-> x.source_color, color_operation |-> x.color_operation, destination_color |-> x.destination_color,
          source_alpha |-> x.source_alpha, alpha_operation |-> x.alpha_operation, destination_alpha |-> x.destination_alpha,
          alpha_sample_to_coverage |-> IF ver = "V15" THEN <<0>> ELSE Truth(x.alpha_sample_to_coverage)]
    [] kind = "rasterizer_states" ->
         IF ver = "V15" THEN [fill_mode |-> Unit0("Solid"), cull_mode |-> x.cull_mode, depth_bias |-> Zeros(4)]
         ELSE [fill_mode |-> x.fill_mode, cull_mode |-> x.cull_mode, depth_bias |-> x.depth_bias]
    [] kind = "samplers" ->
         [wraps |-> x.wraps, wrapt |-> x.wrapt, wrapr |-> x.wrapr, min_filter |-> x.min_filter, mag_filter |-> x.mag_filter,
          border_color |-> x.border_color, lod_bias |-> x.lod_bias,
          max_anisotropy |-> IF x.texture_filtering_type.v = "AnisotropicFiltering" THEN x.max_anisotropy ELSE Unit0("One")]

(* The parameters of one kind, in stored order. *)
IsOf(kind, a) == a.param.data # <<>> /\ a.param.data[1].v = ParamOf[kind]
ParamsOf(ver, kind, attributes) ==
  LET s == SelectSeq(attributes, LAMBDA a : IsOf(kind, a))
  IN [i \in 1..Len(s) |-> [param_id |-> s[i].param_id, data |-> FromParam(ver, kind, s[i].param.data[1].d)]]
MatlEntryOf(ver, e) ==
  [material_label |-> Text(e.material_label), shader_label |-> Text(e.shader_label),
   blend_states |-> ParamsOf(ver, "blend_states", e.attributes), floats |-> ParamsOf(ver, "floats", e.attributes),
   booleans |-> ParamsOf(ver, "booleans", e.attributes), vectors |-> ParamsOf(ver, "vectors", e.attributes),
   rasterizer_states |-> ParamsOf(ver, "rasterizer_states", e.attributes), samplers |-> ParamsOf(ver, "samplers", e.attributes),
   textures |-> ParamsOf(ver, "textures", e.attributes), uv_transforms |-> ParamsOf(ver, "uv_transforms", e.attributes)]
MatlMinor == [V15 |-> 5, V16 |-> 6]
MatlLoad(ver, m) == [major_version |-> LE(1, 2), minor_version |-> LE(MatlMinor[ver], 2),
                     entries |-> [i \in 1..Len(m.entries) |-> MatlEntryOf(ver, m.entries[i])]]

(* ---- what a version can represent *)
MatlVersion(d) == IF UInt(d.major_version) = 1 /\ UInt(d.minor_version) = 5 THEN "V15"
                  ELSE IF UInt(d.major_version) = 1 /\ UInt(d.minor_version) = 6 THEN "V16" ELSE ""
EachData(ps, G(_)) == [i \in 1..Len(ps) |-> [param_id |-> ps[i].param_id, data |-> G(ps[i].data)]]
MatlAs(ver, d) ==
  IF ver = "V16" THEN d
  ELSE [d EXCEPT !.entries = [i \in 1..Len(d.entries) |->
         [d.entries[i] EXCEPT !.blend_states = EachData(@, LAMBDA x : [x EXCEPT !.alpha_sample_to_coverage = <<0>>]),
                              !.rasterizer_states = EachData(@, LAMBDA x : [fill_mode |-> Unit0("Solid"), cull_mode |-> x.cull_mode, depth_bias |-> Zeros(4)])]]]

(* ---- one way of saving: kinds one after the other *)
ToParam(ver, kind, x) ==
  CASE kind \in {"floats", "vectors", "uv_transforms"} -> x
    [] kind = "booleans" -> x \o Zeros(3)
    [] kind = "textures" -> <<x>>
    [] kind = "blend_states" ->
         LET s == [source_color |-> x.source_color, color_operation |-> x.color_operation, destination_color |-> x.destination_color,
                   source_alpha |-> x.source_alpha, alpha_operation |-> x.alpha_operation, destination_alpha |-> x.destination_alpha]
         IN IF ver = "V15" THEN s @@ [unk6 |-> Zeros(8), unk7 |-> Zeros(4), unk8 |-> LE(5, 4), unk9 |-> Zeros(4)]
            ELSE s @@ [alpha_sample_to_coverage |-> x.alpha_sample_to_coverage \o Zeros(3), unk8 |-> Zeros(4), unk9 |-> Zeros(4), unk10 |-> LE(5, 4)]
    [] kind = "rasterizer_states" ->
         IF ver = "V15" THEN [cull_mode |-> x.cull_mode]
         ELSE x @@ [unk4 |-> Zeros(4), unk5 |-> Zeros(4), unk6 |-> LE(16777217, 4)]
    [] kind = "samplers" ->
         x @@ [texture_filtering_type |-> Unit0(IF x.max_anisotropy.v = "One" THEN "Default" ELSE "AnisotropicFiltering"), unk11 |-> Zeros(4), unk12 |-> LE(2139095022, 4)]
MatlSave(ver, d) ==
  [entries |-> [i \in 1..Len(d.entries) |->
    LET e == d.entries[i]
        of(kind) == [j \in 1..Len(e[kind]) |-> [param_id |-> e[kind][j].param_id,
                       param |-> [data |-> << [v |-> ParamOf[kind], d |-> ToParam(ver, kind, e[kind][j].data)] >>]]]
    IN [material_label |-> <<e.material_label>>, shader_label |-> <<e.shader_label>>, attributes |-> Concat([k \in 1..8 |-> of(MatlKinds[k])])]]]
MatlParams(d) == SumTo([i \in 1..Len(d.entries) |-> SumTo([k \in 1..8 |-> Len(d.entries[i][MatlKinds[k]])], 8)], Len(d.entries))

(* ---- e.data was converted to a file (e.lib) and saved and loaded again (e.rt) *)
MatlJudge(e) ==
  LET ver == MatlVersion(e.data)
      want == MatlAs(ver, e.data)
  IN IF e.lib.k = "panic" THEN e.lib.e
     ELSE IF ver = "" THEN (IF e.lib.k = "ok" \/ e.rt.k = "ok" THEN "an unsupported version is saved"
                            ELSE IF e.lib.e # [e |-> "UnsupportedVersion", a |-> e.data.major_version, b |-> e.data.minor_version] THEN "the error names another condition" ELSE "")
     ELSE IF e.lib.k = "err" THEN "a material file is refused: " \o e.lib.e.e
     ELSE IF e.lib.v.v # ver THEN "converted to another version"
     ELSE IF MatlLoad(ver, e.lib.v.d) # want THEN "the converted file denotes other data"
     ELSE IF SumTo([i \in 1..Len(want.entries) |-> Len(e.lib.v.d.entries[i].attributes)], Len(want.entries)) # MatlParams(want) THEN "number of stored parameters differs"
     ELSE IF \E i \in 1..Len(want.entries) :
               LET known == MatlSave(ver, want).entries[i].attributes
                   is(x, y) == x.param_id = y.param_id /\ x.param.data[1].v = y.param.data[1].v /\ x.param.data[1].d = y.param.data[1].d
               IN \E j \in 1..Len(e.lib.v.d.entries[i].attributes) :
                    \A k \in 1..Len(known) : ~is(e.lib.v.d.entries[i].attributes[j], known[k])
          THEN "a field that the data does not carry has another value than its constant"
     ELSE IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e
     ELSE IF e.rt.v # want THEN "the loaded data differs" ELSE ""
MatlFileJudge(ver, m, r) ==
  IF r.k # "ok" THEN r.e
  ELSE IF r.v # MatlLoad(ver, m) THEN "the data loaded differs from what the file stores" ELSE ""
=============================================================================
