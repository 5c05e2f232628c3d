------------------------------ MODULE Formats ------------------------------
(* Every file format of ssbh_lib as a term of Schema.tla.                    *)
EXTENDS Schema, ParamIds

Num(w, m) == [n \in DOMAIN m |-> LE(m[n], w)]
R8(m)  == Rep(1, Num(1, m))
R32(m) == Rep(4, Num(4, m))
R64(m) == Rep(8, Num(8, m))

Vec3 == St(<<F("x", F32), F("y", F32), F("z", F32)>>)
Vec4 == St(<<F("x", F32), F("y", F32), F("z", F32), F("w", F32)>>)
Color4 == St(<<F("r", F32), F("g", F32), F("b", F32), F("a", F32)>>)
Mat3 == St(<<F("col1", Vec3), F("col2", Vec3), F("col3", Vec3)>>)
Mat4 == St(<<F("col1", Vec4), F("col2", Vec4), F("col3", Vec4), F("col4", Vec4)>>)

(* ---- Hlpb *)
AimConstraint == St(<<
  F("name", Str), F("aim_bone_name1", Str), F("aim_bone_name2", Str), F("aim_type1", Str), F("aim_type2", Str),
  F("target_bone_name1", Str), F("target_bone_name2", Str), F("unk1", U32), F("unk2", U32), F("aim", Vec3), F("up", Vec3),
  F("quat1", Vec4), F("quat2", Vec4), F("unk17", F32), F("unk18", F32), F("unk19", F32), F("unk20", F32), F("unk21", F32), F("unk22", F32)>>)
OrientConstraint == St(<<
  F("name", Str), F("parent_bone_name1", Str), F("parent_bone_name2", Str), F("source_bone_name", Str), F("target_bone_name", Str),
  F("unk_type", U32), F("constraint_axes", Vec3), F("quat1", Vec4), F("quat2", Vec4), F("range_min", Vec3), F("range_max", Vec3)>>)
ConstraintType == R32([Aim |-> 0, Orient |-> 1])
HlpbV11 == St(<<F("aim_constraints", Arr(AimConstraint)), F("orient_constraints", Arr(OrientConstraint)),
                F("constraint_indices", Arr(U32)), F("constraint_types", Arr(ConstraintType))>>)

(* ---- Matl *)
BlendFactor == R32([Zero |-> 0, One |-> 1, SourceAlpha |-> 2, DestinationAlpha |-> 3, SourceColor |-> 4, DestinationColor |-> 5,
  OneMinusSourceAlpha |-> 6, OneMinusDestinationAlpha |-> 7, OneMinusSourceColor |-> 8, OneMinusDestinationColor |-> 9, SourceAlphaSaturate |-> 10])
BlendOperation == R32([Add |-> 0, Subtract |-> 1, ReverseSubtract |-> 2, Minimum |-> 3, Maximum |-> 4])
FillMode == R32([Line |-> 0, Solid |-> 1])
CullMode == R32([Back |-> 0, Front |-> 1, Disabled |-> 2])
WrapMode == R32([Repeat |-> 0, ClampToEdge |-> 1, MirroredRepeat |-> 2, ClampToBorder |-> 3])
MinFilter == R32([Nearest |-> 0, LinearMipmapLinear |-> 1, LinearMipmapLinear2 |-> 2])
MagFilter == R32([Nearest |-> 0, Linear |-> 1, Linear2 |-> 2])
FilteringType == R32([Default |-> 0, Default2 |-> 1, AnisotropicFiltering |-> 2])
MaxAnisotropy == R32([One |-> 1, Two |-> 2, Four |-> 4, Eight |-> 8, Sixteen |-> 16])
Sampler == St(<<F("wraps", WrapMode), F("wrapt", WrapMode), F("wrapr", WrapMode), F("min_filter", MinFilter), F("mag_filter", MagFilter),
  F("texture_filtering_type", FilteringType), F("border_color", Color4), F("unk11", U32), F("unk12", U32), F("lod_bias", F32), F("max_anisotropy", MaxAnisotropy)>>)
UvTransform == St(<<F("scale_u", F32), F("scale_v", F32), F("rotation", F32), F("translate_u", F32), F("translate_v", F32)>>)
BlendV15 == St(<<F("source_color", BlendFactor), F("color_operation", BlendOperation), F("destination_color", BlendFactor),
  F("source_alpha", BlendFactor), F("alpha_operation", BlendOperation), F("destination_alpha", BlendFactor),
  F("unk6", U64), F("unk7", U32), F("unk8", U32), F("unk9", U32)>>)
BlendV16 == StPad(<<F("source_color", BlendFactor), F("color_operation", BlendOperation), F("destination_color", BlendFactor),
  F("source_alpha", BlendFactor), F("alpha_operation", BlendOperation), F("destination_alpha", BlendFactor),
  F("alpha_sample_to_coverage", U32), F("unk8", U32), F("unk9", U32), F("unk10", U32)>>, 8)
RasterV15 == St(<<F("cull_mode", CullMode)>>)
RasterV16 == StPad(<<F("fill_mode", FillMode), F("cull_mode", CullMode), F("depth_bias", F32), F("unk4", F32), F("unk5", F32), F("unk6", U32)>>, 4)
Param(blend, raster) == [
  Float |-> Tag(1, F32), Boolean |-> Tag(2, U32), Vector4 |-> Tag(5, Vec4), Unk7 |-> Tag(7, Color4), String |-> Tag(11, Str),
  Sampler |-> Tag(14, Sampler), UvTransform |-> Tag(16, UvTransform), BlendState |-> Tag(17, blend), RasterizerState |-> Tag(18, raster)]
ParamId == R64(ParamIdNumbers)
MatlEntry(blend, raster) == St(<<F("material_label", Str),
  F("attributes", Arr(St(<<F("param_id", ParamId), F("param", En(Param(blend, raster)))>>))), F("shader_label", Str)>>)
MatlV15 == St(<<F("entries", Arr(MatlEntry(BlendV15, RasterV15)))>>)
MatlV16 == St(<<F("entries", Arr(MatlEntry(BlendV16, RasterV16)))>>)

(* ---- Modl *)
ModlV17 == St(<<F("model_name", Str), F("skeleton_file_name", Str), F("material_file_names", Arr(Str)), F("animation_file_name", Ptr(Str)),
  F("mesh_file_name", Str8), F("entries", Arr(St(<<F("mesh_object_name", Str), F("mesh_object_subindex", U64), F("material_label", Str)>>)))>>)

(* ---- Mesh *)
UsageV8 == R32([Position |-> 0, Normal |-> 1, Tangent |-> 3, TextureCoordinate |-> 4, ColorSet |-> 8])
UsageV9 == R32([Position |-> 0, Normal |-> 1, Binormal |-> 2, Tangent |-> 3, TextureCoordinate |-> 4, ColorSet |-> 5])
DataTypeV8 == R32([Float3 |-> 820, Float4 |-> 1076, HalfFloat4 |-> 1077, Float2 |-> 1079, Byte4 |-> 1024])
DataTypeV10 == R32([Float3 |-> 0, Byte4 |-> 2, Float4 |-> 4, HalfFloat4 |-> 5, Float2 |-> 7, HalfFloat2 |-> 8])
AttrV8 == St(<<F("usage", UsageV8), F("data_type", DataTypeV8), F("buffer_index", U32), F("buffer_offset", U32), F("subindex", U32)>>)
AttrNamed(dt) == St(<<F("usage", UsageV9), F("data_type", dt), F("buffer_index", U32), F("buffer_offset", U32), F("subindex", U64),
                      F("name", Str), F("attribute_names", Arr(Str))>>)
AttrV9 == AttrNamed(DataTypeV8)
AttrV10 == AttrNamed(DataTypeV10)
WeightV8 == St(<<F("vertex_index", U32), F("vertex_weight", F32)>>)
Sphere == St(<<F("center", Vec3), F("radius", F32)>>)
BoundingInfo == St(<<F("bounding_sphere", Sphere), F("bounding_volume", St(<<F("min", Vec3), F("max", Vec3)>>)),
  F("oriented_bounding_box", St(<<F("center", Vec3), F("transform", Mat3), F("size", Vec3)>>))>>)
DepthFlags == StPad(<<F("disable_depth_write", U8), F("disable_depth_test", U8)>>, 2)
RiggingFlags == StPad(<<F("max_influences", U8), F("unk1", U8)>>, 6)
DrawElementType == R32([UnsignedShort |-> 0, UnsignedInt |-> 1])
MeshObject(attr) == St(<<F("name", Str), F("subindex", U64), F("parent_bone_name", Str), F("vertex_count", U32), F("vertex_index_count", U32),
  F("unk2", U32), F("vertex_buffer0_offset", U32), F("vertex_buffer1_offset", U32), F("vertex_buffer2_offset", U32), F("vertex_buffer3_offset", U32),
  F("stride0", U32), F("stride1", U32), F("stride2", U32), F("stride3", U32), F("index_buffer_offset", U32), F("unk8", U32),
  F("draw_element_type", DrawElementType), F("use_vertex_skinning", U32), F("sort_bias", U32), F("depth_flags", DepthFlags),
  F("bounding_info", BoundingInfo), F("attributes", Arr(attr))>>)
RiggingGroup(w) == St(<<F("mesh_object_name", Str), F("mesh_object_subindex", U64), F("flags", RiggingFlags),
  F("buffers", Arr(St(<<F("bone_name", Str), F("data", w)>>)))>>)
MeshInner(attr, w) == StPad(<<F("model_name", Str), F("bounding_info", BoundingInfo), F("unk1", U32), F("objects", Arr(MeshObject(attr))),
  F("buffer_sizes", Arr(U32)), F("polygon_index_size", U64), F("vertex_buffers", Arr(Buf)), F("index_buffer", Buf), F("rigging_buffers", Arr(RiggingGroup(w)))>>, 16)

(* ---- Skel *)
Billboard == R8([Disabled |-> 0, XAxisViewPointAligned |-> 1, YAxisViewPointAligned |-> 2, Unk3 |-> 3, XYAxisViewPointAligned |-> 4,
  YAxisViewPlaneAligned |-> 6, XYAxisViewPlaneAligned |-> 8])
SkelEntry == St(<<F("name", Str), F("index", U16), F("parent_index", U16), F("flags", StPad(<<F("unk1", U8), F("billboard_type", Billboard)>>, 2))>>)
SkelV10 == St(<<F("bone_entries", Arr(SkelEntry)), F("world_transforms", Arr(Mat4)), F("inv_world_transforms", Arr(Mat4)),
  F("transforms", Arr(Mat4)), F("inv_transforms", Arr(Mat4))>>)

(* ---- Anim *)
TrackTypeV2 == R8([Transform |-> 1, UvTransform |-> 2, Float |-> 3, PatternIndex |-> 5, Boolean |-> 8, Vector4 |-> 9])
CompressionType == R8([Direct |-> 1, ConstTransform |-> 2, Compressed |-> 4, Constant |-> 5])
TrackTypeV1 == R64([Transform |-> 0, UvTransform |-> 2, Visibility |-> 5])
GroupType == R64([Transform |-> 1, Visibility |-> 2, Material |-> 4, Camera |-> 5])
TrackV2 == St(<<F("name", Str), F("flags", StPad(<<F("track_type", TrackTypeV2), F("compression_type", CompressionType)>>, 2)), F("frame_count", U32),
  F("transform_flags", Bits(4)), F("data_offset", U32), F("data_size", U64)>>)
Group == St(<<F("group_type", GroupType), F("nodes", Arr(St(<<F("name", Str), F("tracks", Arr(TrackV2))>>)))>>)
TrackV1 == St(<<F("name", Str), F("track_type", TrackTypeV1), F("properties", Arr(St(<<F("name", Str), F("buffer_index", U64)>>)))>>)
SubItem == St(<<F("unk1", U32), F("unk2", U32)>>)
UnkData == St(<<F("unk1", Arr(St(<<F("unk1", U64), F("unk2", Arr(SubItem))>>))), F("unk2", Arr(St(<<F("unk1", Str), F("unk2", Arr(SubItem))>>)))>>)
AnimV12 == St(<<F("name", Str), F("unk1", F32), F("final_frame_index", F32), F("unk2", F32), F("unk3", F32), F("tracks", Arr(TrackV1)), F("buffers", Arr(Buf))>>)
AnimFields == <<F("final_frame_index", F32), F("unk1", U16), F("unk2", U16), F("name", Str), F("groups", Arr(Group)), F("buffer", Buf)>>
AnimV20 == St(AnimFields)
AnimV21 == St(Append(AnimFields, F("unk_data", UnkData)))

(* ---- Nlst *)
NlstV10 == St(<<F("file_names", Arr(Str))>>)

(* ---- Nrpd *)
Pair == St(<<F("item1", Str), F("item2", Str)>>)
UnkFormat == R64([UnkFormat0 |-> 256, UnkFormat1 |-> 308, UnkFormat2 |-> 324, UnkFormat3 |-> 528, UnkFormat4 |-> 532, UnkFormat5 |-> 582,
  UnkFormat6 |-> 801, UnkFormat7 |-> 836, UnkFormat8 |-> 1024, UnkFormat9 |-> 1025, UnkFormat10 |-> 1029, UnkFormat11 |-> 1088])
FrameBuffer == [
  Framebuffer0 |-> Tag(0, St(<<F("name", Str), F("width", U32), F("height", U32), F("unk1", UnkFormat), F("unk2", U32), F("unk3", U32)>>)),
  Framebuffer1 |-> Tag(1, St(<<F("name", Str), F("width", U32), F("height", U32), F("unk1", U64), F("unk2", U32), F("unk3", U32)>>)),
  UniformBuffer |-> Tag(2, St(<<F("name", Str), F("unk1", U32), F("unk2", U32), F("unk3", U64)>>)),
  Framebuffer3 |-> Tag(3, St(<<F("name", Str), F("width", U32), F("height", U32), F("unk1", U32), F("unk2", U32), F("unk3", U32), F("unk4", U32)>>)),
  Framebuffer4 |-> Tag(4, St(<<F("name", Str), F("width", U32), F("height", U32), F("unk3", U64)>>))]
NrpdState == [
  Sampler |-> Tag(0, St(<<F("name", Str), F("data", Sampler), F("unk13", U64)>>)),
  RasterizerState |-> Tag(1, St(<<F("name", Str), F("fill_mode", FillMode), F("cull_mode", CullMode), F("depth_bias", F32), F("unk4", F32), F("unk5", F32), F("unk6", U32)>>)),
  DepthState |-> Tag(2, St(<<F("name", Str), F("unk2", U32), F("unk3", U32), F("unk4", U32), F("unk5", U32), F("unk6", U32), F("unk7", U32),
                             F("unk8", U64), F("unk9", U64), F("unk10", U64), F("unk11", U64)>>)),
  BlendState |-> Tag(3, St(<<F("name", Str), F("source_color", BlendFactor), F("unk2", U32), F("destination_color", BlendFactor), F("unk4", U32), F("unk5", U32),
                             F("unk6", U32), F("alpha_sample_to_coverage", U32), F("unk8", U32), F("unk9", U32), F("unk10", U32)>>))]
TwoPtrs(t) == St(<<F("unk1", Str), F("unk2", Str), F("unk3", Ptr(t)), F("unk4", U64), F("unk5", Ptr(t)), F("unk6", U64)>>)
PassData == [
  FramebufferRtp |-> Tag(0, St(<<F("unk1", Str), F("unk2", Str), F("unk3", U64)>>)),
  PassUnk1 |-> Tag(1, St(<<F("unk1", Str), F("unk2", Str)>>)),
  UnkTexture1 |-> Tag(2, TwoPtrs(U64)),
  UnkLight |-> Tag(3, TwoPtrs(St(<<F("unk1", U32), F("unk2", U32)>>))),
  Unk8 |-> Tag(8, TwoPtrs(U64)),
  ColorClear |-> Tag(9, St(<<F("name", Str), F("color", Color4), F("unk1", U64)>>)),
  DepthStencilClear |-> Tag(10, St(<<F("name", Str), F("depth", F32), F("stencil", U32)>>)),
  Viewport |-> Tag(12, St(<<F("name", Str), F("unk2", U64), F("width", F32), F("height", F32), F("unk_min", F32), F("unk_max", F32), F("unk4", U64)>>)),
  Sampler |-> Tag(13, TwoPtrs(U64)),
  BlendState |-> Tag(14, Pair), RasterizerState |-> Tag(15, Pair), DepthStencilState |-> Tag(16, Pair),
  FramebufferRenderTarget |-> Tag(17, Str), FramebufferDepthStencil |-> Tag(18, Str),
  UnkTexture2 |-> Tag(19, St(<<F("unk1", Str), F("unk2", U64)>>))]
PassUnk == [
  UnkDataUnk0 |-> Tag(0, Unit),
  UnkDataUnk3 |-> Tag(3, St(<<F("unk1", Str), F("unk2", Str), F("unk3", F32), F("unk4", F32), F("unk5", F32), F("unk6", F32)>>))]
PassContainer == StPad(<<F("name", Str), F("unk1", Arr(En(PassData))), F("unk2", Arr(En(PassData))), F("unk3", En(PassUnk))>>, 8)
NrpdItem2 == [
  UnkItem20 |-> Tag(0, St(<<F("unk1", Str), F("unk2", Str)>>)),
  UnkItem21 |-> Tag(1, St(<<F("unk1", Str), F("unk2", Str), F("unk3", Tup(2, U32))>>)),
  UnkItem22 |-> Tag(2, St(<<F("unk1", Str), F("unk2", Str), F("unk3", U32), F("unk4", U32), F("unk5", U32), F("unk6", UnkFormat), F("unk8", U32)>>)),
  UnkItem24 |-> Tag(4, St(<<F("unk1", Str), F("unk2", Str), F("unk3", Tup(6, U32))>>))]
NrpdV16 == St(<<
  F("frame_buffers", Arr(En(FrameBuffer))), F("state_containers", Arr(En(NrpdState))), F("render_passes", Arr(PassContainer)),
  F("unk_string_list1", Arr(Pair)), F("unk_string_list2", Arr(En(NrpdItem2))),
  F("unk_list", Arr(St(<<F("unk1", Str), F("unk2", Arr(St(<<F("name", Str), F("value", Str)>>)))>>))),
  F("unk_width1", U32), F("unk_height1", U32), F("unk3", U32), F("unk4", U32), F("unk5", U32), F("unk6", U32), F("unk7", U32), F("unk8", U32),
  F("unk9", Str), F("unk_width2", U32), F("unk_height2", U32), F("unk10", U64)>>)

(* ---- Nufx *)
VertexAttribute == St(<<F("name", Str), F("attribute_name", Str)>>)
MaterialParameter == StPad(<<F("param_id", U64), F("parameter_name", Str8)>>, 8)
Stages == St(<<F("vertex_shader", Str), F("unk_shader1", Str), F("unk_shader2", Str), F("geometry_shader", Str), F("pixel_shader", Str), F("compute_shader", Str)>>)
NufxItem == St(<<F("name", Str), F("unk1", Arr(Str))>>)
NufxV0 == St(<<F("programs", Arr(St(<<F("name", Str), F("render_pass", Str), F("shaders", Stages), F("material_parameters", Arr(MaterialParameter))>>))),
               F("unk_string_list", Arr(NufxItem))>>)
NufxV1 == St(<<F("programs", Arr(St(<<F("name", Str), F("render_pass", Str), F("shaders", Stages), F("vertex_attributes", Arr(VertexAttribute)),
                                      F("material_parameters", Arr(MaterialParameter))>>))),
               F("unk_string_list", Arr(NufxItem))>>)

(* ---- Shdr *)
Shader == StPad(<<F("name", Str), F("shader_stage", R32([Vertex |-> 0, Geometry |-> 3, Fragment |-> 4, Compute |-> 5])), F("unk3", U32),
  F("shader_binary", Buf), F("binary_size", U64)>>, 16)
ShdrV12 == St(<<F("shaders", Arr(Shader))>>)

(* ---- SSBH container: magic, version and type of every supported format.  *)
Ver(name, maj, min, t) == [name |-> name, maj |-> maj, min |-> min, t |-> t, end |-> 1]
VerA(name, maj, min, t) == [name |-> name, maj |-> maj, min |-> min, t |-> t, end |-> 8]
SsbhFormats == [
  Hlpb |-> [magic |-> <<66, 80, 76, 72>>, vers |-> <<Ver("V11", 1, 1, HlpbV11)>>],
  Matl |-> [magic |-> <<76, 84, 65, 77>>, vers |-> <<Ver("V15", 1, 5, MatlV15), Ver("V16", 1, 6, MatlV16)>>],
  Modl |-> [magic |-> <<76, 68, 79, 77>>, vers |-> <<Ver("V17", 1, 7, ModlV17)>>],
  Mesh |-> [magic |-> <<72, 83, 69, 77>>, vers |-> <<VerA("V8", 1, 8, MeshInner(AttrV8, Arr(WeightV8))), VerA("V9", 1, 9, MeshInner(AttrV9, Arr(WeightV8))),
                                                     VerA("V10", 1, 10, MeshInner(AttrV10, Buf))>>],
  Skel |-> [magic |-> <<76, 69, 75, 83>>, vers |-> <<Ver("V10", 1, 0, SkelV10)>>],
  Anim |-> [magic |-> <<77, 73, 78, 65>>, vers |-> <<Ver("V12", 1, 2, AnimV12), Ver("V20", 2, 0, AnimV20), VerA("V21", 2, 1, AnimV21)>>],
  Nlst |-> [magic |-> <<84, 83, 76, 78>>, vers |-> <<Ver("V10", 1, 0, NlstV10)>>],
  Nrpd |-> [magic |-> <<68, 80, 82, 78>>, vers |-> <<Ver("V16", 1, 6, NrpdV16)>>],
  Nufx |-> [magic |-> <<88, 70, 85, 78>>, vers |-> <<Ver("V0", 1, 0, NufxV0), Ver("V1", 1, 1, NufxV1)>>],
  Shdr |-> [magic |-> <<82, 68, 72, 83>>, vers |-> <<Ver("V12", 1, 2, ShdrV12)>>]]

HBSS == <<72, 66, 83, 83>>
Header(magic) == HBSS \o LE(64, 8) \o Zeros(4) \o magic

VersionNamed(f, name) == LET vs == SsbhFormats[f].vers IN vs[CHOOSE i \in 1..Len(vs) : vs[i].name = name]

(* ---- MeshEx and Adj: absolute offsets, counts before the tables. *)
ExEntry == Al(16, St(<<F("mesh_object_group_index", U32), F("unk1", Vec3)>>))
ExAll == Al(16, St(<<F("bounding_sphere", Sphere), F("name", APtr(8, CS(16)))>>))
ExGroup == Al(16, St(<<F("bounding_sphere", Sphere), F("mesh_object_full_name", APtr(8, CS(4))), F("mesh_object_name", APtr(8, CS(4)))>>))
ExFlags == Al(16, Vec(Bits(2)))
AdjEntry == St(<<F("mesh_object_index", U32), F("index_buffer_offset", U32)>>)
=============================================================================
