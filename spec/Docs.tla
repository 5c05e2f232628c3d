-------------------------------- MODULE Docs --------------------------------
(* Documents: the JSON of the data types, as programs and people edit it.     *)
(* A document is a tree as in Convert: null, truth values, numbers (as integer *)
(* i with its sign and as float f), texts, lists, objects.  What a document of *)
(* a type means is a value with every field in place: fields are found by name *)
(* in any order, other fields are ignored, a field that is not there has its   *)
(* default if it has one, and everything else makes the document refused.      *)
EXTENDS Convert, ParamIds

DocU(n) == [k |-> "u", n |-> n]              \* unsigned, n bytes
DocI(n) == [k |-> "i", n |-> n]              \* signed
DocF == [k |-> "f"]
DocB == [k |-> "bool"]
DocT == [k |-> "text"]
DocNames(v) == [k |-> "names", v |-> v]
DocList(t) == [k |-> "list", t |-> t]
DocFixed(n, t) == [k |-> "fixed", n |-> n, t |-> t]
DocOpt(t) == [k |-> "opt", t |-> t]           \* null or not there: absent
DocOr(t, d) == [k |-> "or", t |-> t, d |-> d] \* null: d
DocOne(v) == [k |-> "one", v |-> v]           \* one of several kinds, named
DocRec(f) == [k |-> "rec", f |-> f]
Fd(n, t) == [n |-> n, t |-> t, d |-> <<>>]
FdOr(n, t, d) == [n |-> n, t |-> t, d |-> <<d>>]

DocFits(t, j) == /\ j.t = "n" /\ j.i # <<>>
                 /\ IF t.k = "u" THEN ~j.neg /\ \A k \in (t.n + 1)..8 : j.i[k] = 0
                    ELSE (j.neg <=> j.i[t.n] >= 128) /\ \A k \in (t.n + 1)..8 : j.i[k] = (IF j.neg THEN 255 ELSE 0)
RECURSIVE DocOk(_, _)
DocOk(t, j) ==
  CASE t.k \in {"u", "i"} -> DocFits(t, j)
    [] t.k = "f" -> j.t = "n"
    [] t.k = "bool" -> j.t = "bool"
    [] t.k = "text" -> j.t = "s"
    [] t.k = "names" -> j.t = "s" /\ j.name \in t.v
    [] t.k = "list" -> j.t = "a" /\ \A i \in 1..Len(j.v) : DocOk(t.t, j.v[i])
    [] t.k = "fixed" -> j.t = "a" /\ Len(j.v) = t.n /\ \A i \in 1..Len(j.v) : DocOk(t.t, j.v[i])
    [] t.k \in {"opt", "or"} -> j.t = "null" \/ DocOk(t.t, j)
    [] t.k = "one" -> j.t = "o" /\ \E n \in DOMAIN t.v : DOMAIN j.v = {n} /\ DocOk(t.v[n], j.v[n])
    [] t.k = "rec" -> j.t = "o" /\ \A i \in 1..Len(t.f) :
                        IF t.f[i].n \in DOMAIN j.v THEN DocOk(t.f[i].t, j.v[t.f[i].n]) ELSE t.f[i].d # <<>> \/ t.f[i].t.k = "opt"
(* What an accepted document means. *)
RECURSIVE DocFill(_, _)
DocFill(t, j) ==
  CASE t.k \in {"u", "i"} -> <<"i", j.i>>
    [] t.k = "f" -> <<"f", j.f>>
    [] t.k = "bool" -> <<"b", j.v>>
    [] t.k = "text" -> <<"t", j.v>>
    [] t.k = "names" -> <<"e", j.name>>
    [] t.k \in {"list", "fixed"} -> <<"l", [i \in 1..Len(j.v) |-> DocFill(t.t, j.v[i])]>>
    [] t.k = "opt" -> IF j.t = "null" THEN <<"0">> ELSE DocFill(t.t, j)
    [] t.k = "or" -> IF j.t = "null" THEN t.d ELSE DocFill(t.t, j)
    [] t.k = "one" -> LET n == CHOOSE n \in DOMAIN j.v : TRUE IN <<"o", n, DocFill(t.v[n], j.v[n])>>
    [] t.k = "rec" -> <<"r", [i \in 1..Len(t.f) |->
                        IF t.f[i].n \in DOMAIN j.v THEN DocFill(t.f[i].t, j.v[t.f[i].n]) ELSE IF t.f[i].d # <<>> THEN t.f[i].d[1] ELSE <<"0">>]>>
(* Documents as the library writes them: every field, and no other. *)
RECURSIVE DocWhole(_, _)
DocWhole(t, j) ==
  CASE t.k \in {"list", "fixed"} -> \A i \in 1..Len(j.v) : DocWhole(t.t, j.v[i])
    [] t.k \in {"opt"} -> j.t = "null" \/ DocWhole(t.t, j)
    [] t.k = "or" -> j.t # "null" /\ DocWhole(t.t, j)
    [] t.k = "one" -> LET n == CHOOSE n \in DOMAIN j.v : TRUE IN DocWhole(t.v[n], j.v[n])
    [] t.k = "rec" -> DOMAIN j.v = {t.f[i].n : i \in 1..Len(t.f)} /\ \A i \in 1..Len(t.f) : DocWhole(t.f[i].t, j.v[t.f[i].n])
    [] OTHER -> TRUE
RECURSIVE DocShow(_, _)
DocShow(t, c) ==
  CASE c = <<"0">> -> [t |-> "null"]
    [] t.k \in {"u", "i"} -> [t |-> "n", i |-> c[2], neg |-> t.k = "i" /\ c[2][8] >= 128, f |-> <<0, 0, 0, 0>>]
    [] t.k = "f" -> [t |-> "n", i |-> <<>>, neg |-> FALSE, f |-> c[2]]
    [] t.k = "bool" -> [t |-> "bool", v |-> c[2]]
    [] t.k = "text" -> [t |-> "s", v |-> c[2], name |-> ""]
    [] t.k = "names" -> [t |-> "s", v |-> <<>>, name |-> c[2]]
    [] t.k \in {"list", "fixed"} -> [t |-> "a", v |-> [i \in 1..Len(c[2]) |-> DocShow(t.t, c[2][i])]]
    [] t.k \in {"opt", "or"} -> DocShow(t.t, c)
    [] t.k = "one" -> [t |-> "o", v |-> [n \in {c[2]} |-> DocShow(t.v[n], c[3])]]
    [] t.k = "rec" -> [t |-> "o", v |-> [n \in {t.f[i].n : i \in 1..Len(t.f)} |-> LET i == CHOOSE i \in 1..Len(t.f) : t.f[i].n = n IN DocShow(t.f[i].t, c[2][i])]]

(* ---- the data types *)
Ver16(f) == DocRec(<<Fd("major_version", DocU(2)), Fd("minor_version", DocU(2))>> \o f)
DocV3 == DocRec(<<Fd("x", DocF), Fd("y", DocF), Fd("z", DocF)>>)
DocV4 == DocRec(<<Fd("x", DocF), Fd("y", DocF), Fd("z", DocF), Fd("w", DocF)>>)
DocUv == DocRec(<<Fd("scale_u", DocF), Fd("scale_v", DocF), Fd("rotation", DocF), Fd("translate_u", DocF), Fd("translate_v", DocF)>>)
DocAttributes == DocList(DocRec(<<Fd("name", DocT), Fd("data", DocOne([Vector2 |-> DocList(DocFixed(2, DocF)), Vector3 |-> DocList(DocFixed(3, DocF)),
                                                                        Vector4 |-> DocList(DocFixed(4, DocF))]))>>))
DocNamed(s) == DocNames(DOMAIN s.vars)
DocFloat0 == <<"f", <<0, 0, 0, 0>>>>
DocNull(n, s, d) == FdOr(n, DocNamed(s), <<"e", d>>)
DocSampler == DocRec(<<DocNull("wraps", WrapMode, "ClampToEdge"), DocNull("wrapt", WrapMode, "ClampToEdge"), DocNull("wrapr", WrapMode, "ClampToEdge"),
  DocNull("min_filter", MinFilter, "LinearMipmapLinear"), DocNull("mag_filter", MagFilter, "Linear"),
  FdOr("border_color", DocRec(<<Fd("r", DocF), Fd("g", DocF), Fd("b", DocF), Fd("a", DocF)>>), <<"r", <<DocFloat0, DocFloat0, DocFloat0, DocFloat0>>>>),
  FdOr("lod_bias", DocF, DocFloat0), FdOr("max_anisotropy", DocOr(DocNamed(MaxAnisotropy), <<"e", "One">>), <<"e", "One">>)>>)
DocBlend == DocRec(<<DocNull("source_color", BlendFactor, "One"), DocNull("color_operation", BlendOperation, "Add"), DocNull("destination_color", BlendFactor, "Zero"),
  DocNull("source_alpha", BlendFactor, "One"), DocNull("alpha_operation", BlendOperation, "Add"), DocNull("destination_alpha", BlendFactor, "Zero"),
  FdOr("alpha_sample_to_coverage", DocB, <<"b", FALSE>>)>>)
DocParams(t) == DocList(DocRec(<<Fd("param_id", DocNames(DOMAIN ParamIdNumbers)), Fd("data", t)>>))
DocTexts(names) == [i \in 1..Len(names) |-> Fd(names[i], DocT)]
DocVecs(names, t) == [i \in 1..Len(names) |-> Fd(names[i], t)]
DocTypes == [
  Mesh |-> Ver16(<<Fd("objects", DocList(DocRec(<<Fd("name", DocT), Fd("subindex", DocU(8)), Fd("parent_bone_name", DocT), Fd("sort_bias", DocI(4)),
      Fd("disable_depth_write", DocB), Fd("disable_depth_test", DocB), Fd("vertex_indices", DocList(DocU(4)))>>
      \o DocVecs(<<"positions", "normals", "binormals", "tangents", "texture_coordinates", "color_sets">>, DocAttributes)
      \o <<Fd("bone_influences", DocList(DocRec(<<Fd("bone_name", DocT),
             Fd("vertex_weights", DocList(DocRec(<<Fd("vertex_index", DocU(4)), Fd("vertex_weight", DocF)>>)))>>)))>>)))>>),
  Skel |-> Ver16(<<Fd("bones", DocList(DocRec(<<Fd("name", DocT), Fd("transform", DocFixed(4, DocFixed(4, DocF))), Fd("parent_index", DocOpt(DocU(8))),
      Fd("billboard_type", DocNamed(Billboard))>>)))>>),
  Anim |-> Ver16(<<Fd("final_frame_index", DocF), Fd("groups", DocList(DocRec(<<Fd("group_type", DocNamed(GroupType)),
      Fd("nodes", DocList(DocRec(<<Fd("name", DocT), Fd("tracks", DocList(DocRec(<<Fd("name", DocT), Fd("compensate_scale", DocB),
        Fd("transform_flags", DocRec(DocVecs(<<"override_translation", "override_rotation", "override_scale", "override_compensate_scale">>, DocB))),
        Fd("values", DocOne([Transform |-> DocList(DocRec(<<Fd("scale", DocV3), Fd("rotation", DocV4), Fd("translation", DocV3)>>)), UvTransform |-> DocList(DocUv),
             Float |-> DocList(DocF), PatternIndex |-> DocList(DocU(4)), Boolean |-> DocList(DocB), Vector4 |-> DocList(DocV4)]))>>)))>>)))>>)))>>),
  Matl |-> Ver16(<<Fd("entries", DocList(DocRec(DocTexts(<<"material_label", "shader_label">>) \o <<Fd("blend_states", DocParams(DocBlend)),
      Fd("floats", DocParams(DocF)), Fd("booleans", DocParams(DocB)), Fd("vectors", DocParams(DocV4)),
      Fd("rasterizer_states", DocParams(DocRec(<<Fd("fill_mode", DocNamed(FillMode)), Fd("cull_mode", DocNamed(CullMode)), Fd("depth_bias", DocF)>>))),
      Fd("samplers", DocParams(DocSampler)), Fd("textures", DocParams(DocT)), FdOr("uv_transforms", DocParams(DocUv), <<"l", <<>>>>)>>)))>>),
  Modl |-> Ver16(<<Fd("model_name", DocT), Fd("skeleton_file_name", DocT), Fd("material_file_names", DocList(DocT)), Fd("animation_file_name", DocOpt(DocT)),
      Fd("mesh_file_name", DocT), Fd("entries", DocList(DocRec(<<Fd("mesh_object_name", DocT), Fd("mesh_object_subindex", DocU(8)), Fd("material_label", DocT)>>)))>>),
  Hlpb |-> Ver16(<<Fd("aim_constraints", DocList(DocRec(DocTexts(<<"name", "aim_bone_name1", "aim_bone_name2", "aim_type1", "aim_type2", "target_bone_name1",
      "target_bone_name2">>) \o <<Fd("unk1", DocU(4)), Fd("unk2", DocU(4)), Fd("aim", DocV3), Fd("up", DocV3), Fd("quat1", DocV4), Fd("quat2", DocV4)>>))),
    Fd("orient_constraints", DocList(DocRec(DocTexts(<<"name", "parent_bone_name1", "parent_bone_name2", "source_bone_name", "target_bone_name">>)
      \o <<Fd("unk_type", DocU(4)), Fd("constraint_axes", DocV3), Fd("quat1", DocV4), Fd("quat2", DocV4), Fd("range_min", DocV3), Fd("range_max", DocV3)>>)))>>),
  Adj |-> DocRec(<<Fd("entries", DocList(DocRec(<<Fd("mesh_object_index", DocU(8)), Fd("vertex_adjacency", DocList(DocI(2)))>>)))>>),
  MeshEx |-> DocRec(<<Fd("mesh_object_groups", DocList(DocRec(<<Fd("bounding_sphere", DocRec(<<Fd("center", DocV3), Fd("radius", DocF)>>)),
      Fd("mesh_object_full_name", DocT), Fd("mesh_object_name", DocT),
      Fd("entry_flags", DocList(DocRec(<<Fd("draw_model", DocB), Fd("cast_shadow", DocB)>>)))>>)))>>)]

(* ---- D21: the document e.doc was read as data of kind e.kind (e.r) and that was written as e.again.  e.bin: for documents *)
(* as written, whether the data makes the same file as the data that was written.                                            *)
DocJudge(e) ==
  LET t == DocTypes[e.kind] IN
  IF e.r.k = "panic" THEN e.r.e
  ELSE IF e.broken THEN (IF e.r.k = "err" THEN "" ELSE "a text that is no document was accepted")
  ELSE IF e.bin # "edited" /\ ~(DocOk(t, e.doc) /\ DocWhole(t, e.doc)) THEN "the document written lacks a field or shows one wrongly"
  ELSE IF ~DocOk(t, e.doc) THEN (IF e.r.k = "err" THEN "" ELSE "a document that does not describe the data was accepted")
  ELSE IF e.r.k # "ok" THEN "a document is refused: " \o e.r.e
  ELSE IF ~DocOk(t, e.again) \/ ~DocWhole(t, e.again) THEN "the document written again lacks a field or shows one wrongly"
  ELSE IF DocFill(t, e.doc) # DocFill(t, e.again) THEN "the document is read as other data"
  ELSE IF e.bin = "differs" THEN "the document makes another file" ELSE ""

(* ---- Edited JSON of ssbh_lib_json, by the schemas of the formats.  Which numbers are floats and whether a field that holds *)
(* an offset may be left out is not recorded there, so some documents may be either refused or taken for what they show.      *)
PtrLike(s) == s.k \in {"opt", "ptr", "aptr"}
SmallInt(n, j) == j.i # <<>> /\ ~j.neg /\ j.i[n] < 128 /\ \A k \in (n + 1)..8 : j.i[k] = 0
RECURSIVE LibSure(_, _)         \* certainly a value
LibSure(s, j) ==
  CASE s.k = "b" -> j.t = "n" /\ SmallInt(s.n, j)
    [] s.k = "bits" -> j.t = "o" /\ "bytes" \in DOMAIN j.v /\ j.v["bytes"].t = "a" /\ Len(j.v["bytes"].v) = s.n
                       /\ \A i \in 1..s.n : j.v["bytes"].v[i].t = "n" /\ SmallInt(1, j.v["bytes"].v[i])
    [] s.k = "rep" -> j.t = "s" /\ j.name \in DOMAIN s.vars
    [] s.k = "st" -> j.t = "o" /\ \A i \in 1..Len(s.f) : s.f[i].n \in DOMAIN j.v /\ LibSure(s.f[i].t, j.v[s.f[i].n])
    [] s.k \in {"vec", "arr"} -> j.t = "a" /\ \A i \in 1..Len(j.v) : LibSure(s.t, j.v[i])
    [] s.k = "tup" -> j.t = "a" /\ Len(j.v) = s.n /\ \A i \in 1..Len(j.v) : LibSure(s.t, j.v[i])
    [] PtrLike(s) -> j.t = "null" \/ LibSure(s.t, j)
    [] s.k = "unit" -> j.t = "null"
    [] s.k = "cs" -> j.t = "s" /\ \A i \in 1..Len(j.v) : j.v[i] # 0
    [] s.k = "buf" -> j.t = "s" /\ Len(j.v) % 2 = 0 /\ \A i \in 1..Len(j.v) : HexDigit(j.v[i]) < 16
    [] s.k = "en" -> j.t = "o" /\ "data" \in DOMAIN j.v
                     /\ LET d == j.v["data"] IN d.t = "null" \/ (d.t = "o" /\ \E n \in DOMAIN s.vars : DOMAIN d.v = {n} /\ LibSure(s.vars[n].t, d.v[n]))
    [] s.k = "al" -> LibSure(s.t, j)
RECURSIVE LibBad(_, _)          \* certainly none
LibBad(s, j) ==
  CASE s.k = "b" -> j.t # "n" \/ (s.n # 4 /\ (j.i = <<>> \/ (j.neg /\ (j.i[s.n] < 128 \/ \E k \in (s.n + 1)..8 : j.i[k] # 255)) \/ (~j.neg /\ \E k \in (s.n + 1)..8 : j.i[k] # 0)))
    [] s.k = "bits" -> j.t # "o"
    [] s.k = "rep" -> j.t # "s" \/ j.name \notin DOMAIN s.vars
    [] s.k = "st" -> j.t # "o" \/ \E i \in 1..Len(s.f) : IF s.f[i].n \in DOMAIN j.v THEN LibBad(s.f[i].t, j.v[s.f[i].n]) ELSE ~PtrLike(s.f[i].t)
    [] s.k \in {"vec", "arr"} -> j.t # "a" \/ \E i \in 1..Len(j.v) : LibBad(s.t, j.v[i])
    [] s.k = "tup" -> j.t # "a" \/ Len(j.v) # s.n \/ \E i \in 1..Len(j.v) : LibBad(s.t, j.v[i])
    [] PtrLike(s) -> j.t # "null" /\ LibBad(s.t, j)
    [] s.k = "unit" -> FALSE
    [] s.k = "cs" -> j.t # "s" \/ \E i \in 1..Len(j.v) : j.v[i] = 0      \* a text ends at its first NUL
    [] s.k = "buf" -> j.t # "s" \/ Len(j.v) % 2 # 0 \/ \E i \in 1..Len(j.v) : HexDigit(j.v[i]) > 15
    [] s.k = "en" -> j.t # "o" \/ ("data" \in DOMAIN j.v /\
                     LET d == j.v["data"] IN d.t # "null" /\ (d.t # "o" \/ ~\E n \in DOMAIN s.vars : DOMAIN d.v = {n} /\ ~LibBad(s.vars[n].t, d.v[n])))
    [] s.k = "al" -> LibBad(s.t, j)
(* What is left out is null. *)
RECURSIVE LibWithNulls(_, _)
LibWithNulls(s, j) ==
  CASE s.k = "st" -> [t |-> "o", v |-> [n \in {s.f[i].n : i \in 1..Len(s.f)} |-> LET i == CHOOSE i \in 1..Len(s.f) : s.f[i].n = n
                                        IN IF n \in DOMAIN j.v THEN LibWithNulls(s.f[i].t, j.v[n]) ELSE [t |-> "null"]]]
    [] s.k \in {"vec", "arr", "tup"} -> [t |-> "a", v |-> [i \in 1..Len(j.v) |-> LibWithNulls(s.t, j.v[i])]]
    [] PtrLike(s) -> IF j.t = "null" THEN j ELSE LibWithNulls(s.t, j)
    [] s.k = "en" -> IF "data" \notin DOMAIN j.v THEN [t |-> "o", v |-> [data |-> [t |-> "null"]]]
                     ELSE IF j.v["data"].t = "null" THEN j
                     ELSE LET d == j.v["data"]
                              n == CHOOSE n \in DOMAIN d.v : TRUE
                          IN [t |-> "o", v |-> [data |-> [t |-> "o", v |-> [x \in {n} |-> LibWithNulls(s.vars[n].t, d.v[n])]]]]
    [] s.k = "al" -> LibWithNulls(s.t, j)
    [] OTHER -> j
(* The format and version a document names: of its kind if it has the shape of one that was written for e.kind. *)
LibKind(e) ==
  IF e.kind = "MeshEx" THEN [f |-> "MeshEx", ver |-> "", t |-> MeshExSchema, j |-> e.doc]
  ELSE IF e.kind = "Adj" THEN [f |-> "Adj", ver |-> "", t |-> AdjSchema, j |-> e.doc]
  ELSE LET none == [f |-> "none"]
       IN IF e.doc.t # "o" THEN none
          ELSE IF Cardinality(DOMAIN e.doc.v) # 1 THEN none
          ELSE LET f == CHOOSE f \in DOMAIN e.doc.v : TRUE
               IN IF f \notin DOMAIN SsbhFormats THEN none
                  ELSE IF e.doc.v[f].t # "o" THEN none
                  ELSE IF Cardinality(DOMAIN e.doc.v[f].v) # 1 THEN none
                  ELSE LET w == CHOOSE w \in DOMAIN e.doc.v[f].v : TRUE
                       IN IF ~\E i \in 1..Len(SsbhFormats[f].vers) : SsbhFormats[f].vers[i].name = w THEN none
                          ELSE [f |-> f, ver |-> w, t |-> VersionNamed(f, w).t, j |-> e.doc.v[f].v[w]]
(* L12: ssbh_lib_json was given the document e.doc; the file it made, if any, was read as e.r. *)
LibDocJudge(e) ==
  LET k == LibKind(e)
      made == e.r.k # "none"
  IN IF e.broken THEN (IF made THEN "a text that is no document made a file" ELSE "")
     ELSE IF k.f = "none" THEN (IF made THEN "a document of no format and version made a file" ELSE "")
     ELSE IF LibBad(k.t, k.j) THEN (IF made THEN "a document that shows no value of the format made a file" ELSE "")
     ELSE IF ~made THEN (IF LibSure(k.t, k.j) /\ k.f # "MeshEx" THEN "a document that shows a value is refused" ELSE "")
     ELSE IF e.r.k # "ok" THEN (IF k.f = "MeshEx" THEN "" ELSE "the file made cannot be read: " \o e.r.e)
     ELSE IF e.r.v.fmt # k.f \/ e.r.v.ver # k.ver THEN "the file made has another format or version"
     ELSE IF ~Shows(k.t, e.r.v.val, LibWithNulls(k.t, k.j)) THEN "the file made holds another value than the document shows" ELSE ""
=============================================================================
