------------------------------- MODULE Mesh --------------------------------
(* Meshes: what saving must preserve (D01), when it must refuse (D02), how the  *)
(* buffers of the file are organised (D03), bounding volumes (D04), skinning     *)
(* (D05) and what any mesh file denotes (D19).                                   *)
(* A mesh value "data" has the fields of MeshData; "m" those of a Mesh file.     *)
EXTENDS Floats

Opt1(x, else) == IF x = <<>> THEN else ELSE x[1]
Text(x) == Opt1(x, <<>>)              \* the text behind an offset; null counts as empty

Usages == <<"Position", "Normal", "Binormal", "Tangent", "TextureCoordinate", "ColorSet">>
FieldOf == [Position |-> "positions", Normal |-> "normals", Binormal |-> "binormals", Tangent |-> "tangents",
            TextureCoordinate |-> "texture_coordinates", ColorSet |-> "color_sets"]
Stores(ver, u) == ver # "V8" \/ u # "Binormal"
UsagesOf(ver) == SelectSeq(Usages, LAMBDA u : Stores(ver, u))
BufferOf(u) == IF u \in {"TextureCoordinate", "ColorSet"} THEN 1 ELSE 0

DimOf == [Vector2 |-> 2, Vector3 |-> 3, Vector4 |-> 4]
TypeDim == [Float2 |-> 2, Float3 |-> 3, Float4 |-> 4, HalfFloat2 |-> 2, HalfFloat4 |-> 4, Byte4 |-> 4]
CompSize == [Float2 |-> 4, Float3 |-> 4, Float4 |-> 4, HalfFloat2 |-> 2, HalfFloat4 |-> 2, Byte4 |-> 1]
TypeSize(t) == TypeDim[t] * CompSize[t]
VectorOf(t) == CASE TypeDim[t] = 2 -> "Vector2" [] TypeDim[t] = 3 -> "Vector3" [] OTHER -> "Vector4"
(* Positions keep full precision, colors take the least, the others half precision where the version has it. *)
TypeFor(ver, u, dim) ==
  IF u = "Position" THEN CASE dim = 2 -> "Float2" [] dim = 3 -> "Float3" [] OTHER -> "Float4"
  ELSE CASE dim = 3 -> "Float3"
         [] dim = 2 -> IF ver = "V10" THEN "HalfFloat2" ELSE "Float2"
         [] OTHER   -> IF u = "ColorSet" THEN "Byte4" ELSE "HalfFloat4"

(* ---- values *)
(* y is what remains of x when stored as type t and loaded *)
Kept(t, x, y) ==
  CASE CompSize[t] = 4 -> Same(x, y)
    [] CompSize[t] = 2 -> Same(y, F32of16(F16(x)))
    [] OTHER -> \E b \in 0..255 : IsByteOf(b, x) /\ Abs(Key(y) - Key(ByteFloat[b])) <= 1
(* the bytes e store x as type t *)
Stored(t, x, e) ==
  CASE CompSize[t] = 4 -> Same(x, e)
    [] CompSize[t] = 2 -> SameHalf(F16(x), e)
    [] OTHER -> IsByteOf(e[1], x)
Load(t, e) ==
  CASE CompSize[t] = 4 -> e
    [] CompSize[t] = 2 -> F32of16(e)
    [] OTHER -> ByteFloat[e[1]]

(* ---- objects *)
Lens(o) == UNION {{Len(o[FieldOf[u]][i].data.d) : i \in 1..Len(o[FieldOf[u]])} : u \in {Usages[k] : k \in 1..6}}
VertexCount(o) == IF Lens(o) = {} THEN 0 ELSE CHOOSE n \in Lens(o) : TRUE
(* The attributes a version stores, in order. *)
Attrs(ver, o) ==
  LET us == UsagesOf(ver)
  IN Concat([k \in 1..Len(us) |-> [i \in 1..Len(o[FieldOf[us[k]]]) |->
       LET a == o[FieldOf[us[k]]][i]
       IN [u |-> us[k], i |-> i - 1, name |-> a.name, d |-> a.data.d, t |-> TypeFor(ver, us[k], DimOf[a.data.v])]]])

VerOf(d) == CASE d.major_version = <<1, 0>> /\ d.minor_version = <<8, 0>> -> "V8"
              [] d.major_version = <<1, 0>> /\ d.minor_version = <<9, 0>> -> "V9"
              [] d.major_version = <<1, 0>> /\ d.minor_version = <<10, 0>> -> "V10"
              [] OTHER -> "none"
IndexBelow(x, n) == UInt(x) < n
Fits16(x) == x[3] = 0 /\ x[4] = 0

(* Standard names of attributes for versions that store none. *)
StdName(u, digits) ==
  (CASE u = "Position" -> <<80, 111, 115, 105, 116, 105, 111, 110>>
     [] u = "Normal" -> <<78, 111, 114, 109, 97, 108>>
     [] u = "Tangent" -> <<84, 97, 110, 103, 101, 110, 116>>
     [] u = "TextureCoordinate" -> <<84, 101, 120, 116, 117, 114, 101, 67, 111, 111, 114, 100, 105, 110, 97, 116, 101>>
     [] u = "ColorSet" -> <<99, 111, 108, 111, 114, 83, 101, 116>>) \o digits

(* ---- D02: the conditions under which saving must be refused, with what the error says *)
Wide(x) == x \o Zeros(8 - Len(x))      \* numbers in errors have 8 bytes
MeshErrors(d) ==
  LET os == d.objects
      O == 1..Len(os)
      dup == {[e |-> "DuplicateSubindex", name |-> os[i].name, n |-> os[i].subindex, limit |-> <<>>] :
                i \in {i \in O : \E j \in O : i # j /\ os[i].name = os[j].name /\ os[i].subindex = os[j].subindex}}
      ver == IF VerOf(d) = "none" THEN {[e |-> "UnsupportedVersion", name |-> d.major_version, n |-> d.minor_version, limit |-> <<>>]} ELSE {}
      tri == {[e |-> "NonTriangulatedFaces", name |-> <<>>, n |-> LE(Len(os[i].vertex_indices), 8), limit |-> <<>>] :
                i \in {i \in O : Len(os[i].vertex_indices) % 3 # 0}}
      len == IF \E i \in O : Cardinality(Lens(os[i])) > 1 THEN {[e |-> "AttributeDataLengthMismatch", name |-> <<>>, n |-> <<>>, limit |-> <<>>]} ELSE {}
      out == UNION {{[e |-> "VertexIndexOutOfRange", name |-> <<>>, n |-> Wide(os[i].vertex_indices[k]), limit |-> LE(VertexCount(os[i]), 8)] :
                        k \in {k \in 1..Len(os[i].vertex_indices) : ~IndexBelow(os[i].vertex_indices[k], VertexCount(os[i]))}} :
                     i \in {i \in O : Cardinality(Lens(os[i])) <= 1}}
      wts == IF VerOf(d) # "V10" THEN {}
             ELSE UNION {UNION {{[e |-> "SkinWeightVertexIndexExceedsLimit", name |-> <<>>, n |-> Wide(w.vertex_index), limit |-> LE(65535, 8)] :
                        w \in {bi.vertex_weights[k] : k \in {k \in 1..Len(bi.vertex_weights) : ~Fits16(bi.vertex_weights[k].vertex_index)}}} :
                        bi \in {os[i].bone_influences[k] : k \in 1..Len(os[i].bone_influences)}} : i \in O}
  IN dup \cup ver \cup tri \cup len \cup out \cup wts

(* ---- D01, D05: what loading a saved mesh yields *)
KeptVectors(t, a, b) == Len(a) = Len(b) /\ \A v \in 1..Len(a) : Len(a[v]) = Len(b[v]) /\ \A c \in 1..Len(a[v]) : Kept(t, a[v][c], b[v][c])
KeptAttrs(ver, u, as, bs) ==
  IF ~Stores(ver, u) THEN bs = <<>>
  ELSE /\ Len(as) = Len(bs)
       /\ \A i \in 1..Len(as) :
            /\ bs[i].name = (IF ver = "V8" THEN StdName(u, Dec(LE(i - 1, 4))) ELSE as[i].name)
            /\ bs[i].data.v = as[i].data.v
            /\ KeptVectors(TypeFor(ver, u, DimOf[as[i].data.v]), as[i].data.d, bs[i].data.d)
SameWeights(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].vertex_index = b[i].vertex_index /\ Same(a[i].vertex_weight, b[i].vertex_weight)
SameInfluences(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].bone_name = b[i].bone_name /\ SameWeights(a[i].vertex_weights, b[i].vertex_weights)
KeptMesh(d, x) ==
  LET ver == VerOf(d)
      os == d.objects
      xs == x.objects
      each(P(_, _)) == \A k \in 1..Len(os) : P(os[k], xs[k])
  IN IF Len(os) # Len(xs) THEN "number of objects differs"
     ELSE IF x.major_version # d.major_version \/ x.minor_version # d.minor_version THEN "version differs"
     ELSE IF ~each(LAMBDA a, b : a.name = b.name /\ a.subindex = b.subindex) THEN "object names or subindices differ"
     ELSE IF ~each(LAMBDA a, b : a.parent_bone_name = b.parent_bone_name /\ a.sort_bias = b.sort_bias
                /\ a.disable_depth_write = b.disable_depth_write /\ a.disable_depth_test = b.disable_depth_test) THEN "object settings differ"
     ELSE IF ~each(LAMBDA a, b : a.vertex_indices = b.vertex_indices) THEN "vertex indices differ"
     ELSE IF ~each(LAMBDA a, b : \A k \in 1..6 : KeptAttrs(ver, Usages[k], a[FieldOf[Usages[k]]], b[FieldOf[Usages[k]]])) THEN "attributes differ"
     ELSE IF ~each(LAMBDA a, b : SameInfluences(a.bone_influences, b.bone_influences)) THEN "bone influences differ"
     ELSE ""

(* ---- D03: the file's buffers *)
BufOff(o, b) == CASE b = 0 -> o.vertex_buffer0_offset [] b = 1 -> o.vertex_buffer1_offset [] b = 2 -> o.vertex_buffer2_offset [] b = 3 -> o.vertex_buffer3_offset
BufStride(o, b) == CASE b = 0 -> o.stride0 [] b = 1 -> o.stride1 [] b = 2 -> o.stride2 [] b = 3 -> o.stride3
IndexSize(o) == IF o.draw_element_type.v = "UnsignedShort" THEN 2 ELSE 4
Disjoint(rs) == \A i, j \in 1..Len(rs) : i = j \/ rs[i].lo = rs[i].hi \/ rs[j].lo = rs[j].hi \/ rs[i].hi <= rs[j].lo \/ rs[j].hi <= rs[i].lo
Inside(rs, n) == \A i \in 1..Len(rs) : rs[i].lo = rs[i].hi \/ rs[i].hi <= n
(* Attributes (with type and buffer) of one object in file order, tightly packed in each buffer. *)
RECURSIVE PackFrom(_, _, _)
PackFrom(as, i, at) ==      \* at: next free place in an element of buffers 0 and 1
  IF i > Len(as) THEN <<>>
  ELSE LET b == BufferOf(as[i].u)
       IN <<[b |-> b, off |-> at[b]]>> \o PackFrom(as, i + 1, [at EXCEPT ![b] = @ + TypeSize(as[i].t)])
Pack(as) == PackFrom(as, 1, [b \in {0, 1} |-> 0])
StrideOf(as, b) == SumTo([i \in 1..Len(as) |-> IF BufferOf(as[i].u) = b THEN TypeSize(as[i].t) ELSE 0], Len(as))

AttrName(u, i, name) == CASE u = "Tangent" /\ i = 0 -> <<109, 97, 112, 49>>
                          [] u = "Binormal" /\ i = 0 -> <<109, 97, 112, 49>>
                          [] u = "Binormal" /\ i = 1 -> <<117, 118, 83, 101, 116>>
                          [] OTHER -> name
ObjectLayout(ver, m, o, x) ==   \* o: the object of the data, x: of the file
  LET as == Attrs(ver, o)
      ps == Pack(as)
      n  == VertexCount(o)
      fa == x.attributes
      vb == m.vertex_buffers
      ib == m.index_buffer
      wd == IndexSize(x)
      io == UInt(x.index_buffer_offset)
      small == \A k \in 1..Len(o.vertex_indices) : Fits16(o.vertex_indices[k])
  IN IF UInt(x.vertex_count) # n THEN "vertex count is wrong"
     ELSE IF UInt(x.vertex_index_count) # Len(o.vertex_indices) THEN "index count is wrong"
     ELSE IF UInt(x.stride0) # StrideOf(as, 0) \/ UInt(x.stride1) # StrideOf(as, 1) THEN "stride differs from the size of the attributes"
     ELSE IF UInt(x.stride2) # (IF ver = "V10" THEN 0 ELSE 32) \/ UInt(x.stride3) # 0 THEN "stride of an unused buffer is wrong"
     ELSE IF Len(fa) # Len(as) THEN "number of attributes is wrong"
     ELSE IF \E i \in 1..Len(as) : fa[i].usage.v # as[i].u \/ UInt(fa[i].subindex) # as[i].i THEN "attributes are not in the fixed order"
     ELSE IF \E i \in 1..Len(as) : UInt(fa[i].buffer_index) # ps[i].b THEN "attribute in the wrong buffer"
     ELSE IF \E i \in 1..Len(as) : UInt(fa[i].buffer_offset) # ps[i].off THEN "attributes do not tile the stride"
     ELSE IF \E i \in 1..Len(as) : fa[i].data_type.v # as[i].t THEN "data type is wrong"
     ELSE IF ver # "V8" /\ \E i \in 1..Len(as) : Text(fa[i].name) # AttrName(as[i].u, as[i].i, as[i].name) \/ Len(fa[i].attribute_names) # 1
                                                 \/ Text(fa[i].attribute_names[1]) # as[i].name THEN "attribute name is wrong"
     ELSE IF \E b \in 0..3 : n > 0 /\ UInt(BufStride(x, b)) > 0 /\ UInt(BufOff(x, b)) + n * UInt(BufStride(x, b)) > Len(vb[b + 1]) THEN "vertex data outside of its buffer"
     ELSE IF \E i \in 1..Len(as) : \E v \in 1..n :
               LET at == UInt(BufOff(x, ps[i].b)) + (v - 1) * UInt(BufStride(x, ps[i].b)) + ps[i].off
                   cs == CompSize[as[i].t]
               IN \E c \in 1..Len(as[i].d[v]) : ~Stored(as[i].t, as[i].d[v][c], Slice(vb[ps[i].b + 1], at + (c - 1) * cs, cs))
          THEN "vertex data differs from the attribute"
     ELSE IF (wd = 2) # small THEN "index type is wrong"
     ELSE IF Len(o.vertex_indices) > 0 /\ io + wd * Len(o.vertex_indices) > Len(ib) THEN "index data outside of its buffer"
     ELSE IF \E k \in 1..Len(o.vertex_indices) : Slice(ib, io + wd * (k - 1), wd) # SubSeq(o.vertex_indices[k], 1, wd) THEN "index data differs"
     ELSE IF x.unk2 # LE(3, 4) \/ x.unk8 # LE(4, 4) THEN "face or index size is wrong"
     ELSE IF x.subindex # o.subindex \/ Text(x.name) # o.name \/ Text(x.parent_bone_name) # o.parent_bone_name \/ x.sort_bias # o.sort_bias
             \/ x.depth_flags.disable_depth_write # o.disable_depth_write \/ x.depth_flags.disable_depth_test # o.disable_depth_test THEN "object settings differ"
     ELSE ""
MeshLayout(d, m) ==
  LET ver == VerOf(d)
      os == d.objects
      xs == m.objects
      K == 1..Len(os)
      vr(b) == [k \in K |-> [lo |-> UInt(BufOff(xs[k], b)), hi |-> UInt(BufOff(xs[k], b)) + UInt(xs[k].vertex_count) * UInt(BufStride(xs[k], b))]]
      ir == [k \in K |-> [lo |-> UInt(xs[k].index_buffer_offset), hi |-> UInt(xs[k].index_buffer_offset) + IndexSize(xs[k]) * UInt(xs[k].vertex_index_count)]]
      bad == IF Len(xs) # Len(os) THEN {} ELSE {k \in K : ObjectLayout(ver, m, os[k], xs[k]) # ""}
  IN IF Len(xs) # Len(os) THEN "number of objects is wrong"
     ELSE IF Len(m.vertex_buffers) # 4 \/ Len(m.buffer_sizes) # 4 THEN "number of buffers is wrong"
     ELSE IF bad # {} THEN ObjectLayout(ver, m, os[CHOOSE k \in bad : \A j \in bad : k <= j], xs[CHOOSE k \in bad : \A j \in bad : k <= j])
     ELSE IF \E b \in 0..3 : ~Disjoint(vr(b)) THEN "vertex data of two objects overlaps"
     ELSE IF ~Disjoint(ir) THEN "index data of two objects overlaps"
     ELSE IF \E b \in 1..4 : UInt(m.buffer_sizes[b]) # Len(m.vertex_buffers[b]) THEN "recorded buffer size is wrong"
     ELSE IF UInt(m.polygon_index_size) # Len(m.index_buffer) THEN "recorded index buffer size is wrong"
     ELSE ""

(* ---- D04: bounding volumes of finite points *)
Point(v, p) == IF DimOf[v] = 2 THEN <<p[1], p[2], F0>> ELSE <<p[1], p[2], p[3]>>
Points(o) == IF o.positions = <<>> THEN <<>>
             ELSE LET a == o.positions[1].data IN [i \in 1..Len(a.d) |-> Point(a.v, a.d[i])]
XYZ(r) == <<r.x, r.y, r.z>>
(* square of a number below 2^28 as three limbs of 14 bits, the highest unbounded *)
Sq(a) ==
  LET h == Abs(a) \div 16384
      l == Abs(a) % 16384
      m0 == (2 * h * l) + (l * l) \div 16384
  IN <<h * h + m0 \div 16384, m0 % 16384, (l * l) % 16384>>
AddSq(a, b) ==
  LET l == a[3] + b[3]
      m == a[2] + b[2] + l \div 16384
  IN <<a[1] + b[1] + m \div 16384, m % 16384, l % 16384>>
LeSq(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3]))
Bounds(ps, info) ==    \* ps: a nonempty sequence of points
  LET P == {ps[i] : i \in 1..Len(ps)}
      lo == XYZ(info.bounding_volume.min)
      hi == XYZ(info.bounding_volume.max)
      obb == info.oriented_bounding_box
      c == XYZ(obb.center)
      s == XYZ(obb.size)
      id == obb.transform
      sc == XYZ(info.bounding_sphere.center)
      r == info.bounding_sphere.radius
      all == {sc[1], sc[2], sc[3], r} \cup UNION {{p[1], p[2], p[3]} : p \in P}
      E == MaxExp(all)
      fx(f) == FixE(f, E)
  IN IF \E k \in 1..3 : ~((\A p \in P : Key(lo[k]) <= Key(p[k])) /\ (\E p \in P : Key(lo[k]) = Key(p[k]))) THEN "minimum of the bounding box is wrong"
     ELSE IF \E k \in 1..3 : ~((\A p \in P : Key(hi[k]) >= Key(p[k])) /\ (\E p \in P : Key(hi[k]) = Key(p[k]))) THEN "maximum of the bounding box is wrong"
     ELSE IF \E k \in 1..3 : ~IsFinite(c[k]) \/ ~IsFinite(s[k]) THEN "oriented box is not finite"
     ELSE IF \E k \in 1..3 : LET e == MaxExp({lo[k], hi[k], c[k], s[k]}) IN
               \/ Abs(2 * FixE(c[k], e) - FixE(lo[k], e) - FixE(hi[k], e)) > 32
               \/ Abs(2 * FixE(s[k], e) - FixE(hi[k], e) + FixE(lo[k], e)) > 32 THEN "oriented box differs from the box"
     ELSE IF XYZ(id.col1) # <<F1, F0, F0>> \/ XYZ(id.col2) # <<F0, F1, F0>> \/ XYZ(id.col3) # <<F0, F0, F1>> THEN "axes of the oriented box are not the identity"
     ELSE IF \E f \in all : ~IsFinite(f) THEN "sphere is not finite"
     ELSE IF Key(r) < 0 THEN "negative radius"
     ELSE IF \E p \in P : ~LeSq(AddSq(AddSq(Sq(fx(p[1]) - fx(sc[1])), Sq(fx(p[2]) - fx(sc[2]))), Sq(fx(p[3]) - fx(sc[3]))), Sq(fx(r) + 256))
          THEN "a vertex is outside of the bounding sphere"
     ELSE ""
(* every point of P lies in the sphere, up to rounding *)
HoldsPoints(sphere, P) ==
  LET sc == XYZ(sphere.center)
      r == sphere.radius
      all == {sc[1], sc[2], sc[3], r} \cup UNION {{p[1], p[2], p[3]} : p \in P}
      E == MaxExp(all)
      fx(f) == FixE(f, E)
  IN /\ \A f \in all : IsFinite(f)
     /\ Key(r) >= 0
     /\ \A p \in P : LeSq(AddSq(AddSq(Sq(fx(p[1]) - fx(sc[1])), Sq(fx(p[2]) - fx(sc[2]))), Sq(fx(p[3]) - fx(sc[3]))), Sq(fx(r) + 256))
(* every sphere of S (with finite numbers and a radius of at least zero) lies in the sphere, up to rounding *)
HoldsSpheres(sphere, S) ==
  LET sc == XYZ(sphere.center)
      r == sphere.radius
      all == {sc[1], sc[2], sc[3], r} \cup UNION {{x.center.x, x.center.y, x.center.z, x.radius} : x \in S}
      E == MaxExp(all)
      fx(f) == FixE(f, E)
  IN /\ \A f \in all : IsFinite(f)
     /\ \A x \in S : LET p == XYZ(x.center)
                          d == fx(r) - fx(x.radius) + 512
                      IN d >= 0 /\ LeSq(AddSq(AddSq(Sq(fx(p[1]) - fx(sc[1])), Sq(fx(p[2]) - fx(sc[2]))), Sq(fx(p[3]) - fx(sc[3]))), Sq(d))
MeshBounds(d, m) ==
  LET os == d.objects
      all == Concat([k \in 1..Len(os) |-> Points(os[k])])
      bad == {k \in 1..Len(os) : Points(os[k]) # <<>> /\ Bounds(Points(os[k]), m.objects[k].bounding_info) # ""}
  IN IF Len(m.objects) # Len(os) THEN "number of objects is wrong"
     ELSE IF bad # {} THEN "object: " \o Bounds(Points(os[CHOOSE k \in bad : TRUE]), m.objects[CHOOSE k \in bad : TRUE].bounding_info)
     ELSE IF all = <<>> THEN ""
     ELSE LET b == Bounds(all, m.bounding_info) IN IF b = "" THEN "" ELSE "mesh: " \o b

(* ---- D05: rigging groups *)
BytesLess(a, b) ==    \* order of texts
  LET n == Min(Len(a), Len(b))
      d == {i \in 1..n : a[i] # b[i]}
  IN IF d = {} THEN Len(a) < Len(b) ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN a[i] < b[i]
NumLess(a, b) ==      \* order of little endian numbers of the same width
  LET d == {i \in 1..Len(a) : a[i] # b[i]}
  IN d # {} /\ LET i == CHOOSE i \in d : \A j \in d : i >= j IN a[i] < b[i]
GroupLess(g, h) == \/ BytesLess(Text(g.mesh_object_name), Text(h.mesh_object_name))
                   \/ Text(g.mesh_object_name) = Text(h.mesh_object_name) /\ NumLess(g.mesh_object_subindex, h.mesh_object_subindex)
MaxInfluences(o) ==
  LET bi == o.bone_influences
      vs == UNION {{bi[i].vertex_weights[k].vertex_index : k \in 1..Len(bi[i].vertex_weights)} : i \in 1..Len(bi)}
      cnt(v) == Cardinality({i \in 1..Len(bi) : \E k \in 1..Len(bi[i].vertex_weights) : bi[i].vertex_weights[k].vertex_index = v})
  IN IF vs = {} THEN 0 ELSE LET ns == {cnt(v) : v \in vs} IN LET m == CHOOSE n \in ns : \A x \in ns : x <= n IN IF m > 255 THEN 255 ELSE m
WeightsStored(ver, ws, b) ==
  IF ver = "V10" THEN /\ Len(b) = 6 * Len(ws)
                      /\ \A i \in 1..Len(ws) : Slice(b, 6 * (i - 1), 2) = SubSeq(ws[i].vertex_index, 1, 2) /\ Same(Slice(b, 6 * (i - 1) + 2, 4), ws[i].vertex_weight)
  ELSE SameWeights(ws, b)
MeshRigging(d, m) ==
  LET ver == VerOf(d)
      os == d.objects
      gs == m.rigging_buffers
      obj(g) == {k \in 1..Len(os) : os[k].name = Text(g.mesh_object_name) /\ os[k].subindex = g.mesh_object_subindex}
      right(g) == LET o == os[CHOOSE k \in obj(g) : TRUE]
                  IN /\ Len(g.buffers) = Len(o.bone_influences)
                     /\ \A i \in 1..Len(g.buffers) : Text(g.buffers[i].bone_name) = o.bone_influences[i].bone_name
                                                     /\ WeightsStored(ver, o.bone_influences[i].vertex_weights, g.buffers[i].data)
  IN IF Len(gs) # Len(os) THEN "there is not one rigging group for each object"
     ELSE IF \E i \in 1..Len(gs) : obj(gs[i]) = {} THEN "a rigging group belongs to no object"
     ELSE IF \E i \in 1..Len(gs) - 1 : ~GroupLess(gs[i], gs[i + 1]) THEN "rigging groups are not sorted"
     ELSE IF \E i \in 1..Len(gs) : ~right(gs[i]) THEN "rigging data differs"
     ELSE IF \E i \in 1..Len(gs) : UInt(gs[i].flags.max_influences) # MaxInfluences(os[CHOOSE k \in obj(gs[i]) : TRUE]) THEN "maximum influence count is wrong"
     ELSE IF Len(m.objects) # Len(os) THEN "number of objects is wrong"
     ELSE IF \E k \in 1..Len(os) : UInt(m.objects[k].use_vertex_skinning) # (IF os[k].bone_influences = <<>> THEN 0 ELSE 1) THEN "skinning flag is wrong"
     ELSE ""

(* ---- D19: what a mesh file denotes *)
Cap(x) == Min(UInt(x), 500000000)
Fail == [ok |-> FALSE, v |-> <<>>]
Done(v) == [ok |-> TRUE, v |-> v]
(* n elements of w bytes, at off, off + stride, ... *)
Elements(b, off, stride, n, w) ==
  IF n = 0 THEN Done(<<>>)
  ELSE IF stride = 0 \/ n > Len(b) \/ off + w > Len(b) \/ (n > 1 /\ stride > Len(b)) THEN Fail
  ELSE IF off + (n - 1) * stride + w > Len(b) THEN Fail
  ELSE Done([i \in 1..n |-> Slice(b, off + (i - 1) * stride, w)])
ReadAttr(ver, m, x, a) ==
  LET bi == Cap(a.buffer_index)
      t == a.data_type.v
      cs == CompSize[t]
  IN IF bi >= Len(m.vertex_buffers) \/ bi > 3 THEN Fail
     ELSE LET e == Elements(m.vertex_buffers[bi + 1], Cap(a.buffer_offset) + Cap(BufOff(x, bi)), Cap(BufStride(x, bi)), Cap(x.vertex_count), TypeSize(t))
          IN IF ~e.ok THEN Fail
             ELSE Done([name |-> IF ver = "V8" THEN StdName(a.usage.v, Dec(a.subindex)) ELSE IF a.attribute_names = <<>> THEN <<>> ELSE Text(a.attribute_names[1]),
                        data |-> [v |-> VectorOf(t), t |-> t, d |-> [i \in 1..Len(e.v) |-> [c \in 1..TypeDim[t] |-> Load(t, Slice(e.v[i], (c - 1) * cs, cs))]]]])
AllOk(rs) == IF \A i \in 1..Len(rs) : rs[i].ok THEN Done([i \in 1..Len(rs) |-> rs[i].v]) ELSE Fail
ReadUsage(ver, m, x, u) ==
  LET as == SelectSeq(x.attributes, LAMBDA a : a.usage.v = u)
  IN AllOk([i \in 1..Len(as) |-> ReadAttr(ver, m, x, as[i])])
ReadWeights(ver, b) ==
  IF ver = "V10" THEN [i \in 1..(Len(b) \div 6) |-> [vertex_index |-> Slice(b, 6 * (i - 1), 2) \o <<0, 0>>, vertex_weight |-> Slice(b, 6 * (i - 1) + 2, 4)]]
  ELSE b
ReadRigging(ver, m, x) ==
  LET gs == SelectSeq(m.rigging_buffers, LAMBDA g : g.mesh_object_name = <<Text(x.name)>> /\ g.mesh_object_subindex = x.subindex)
      bs == Concat([i \in 1..Len(gs) |-> gs[i].buffers])
  IN IF \E i \in 1..Len(bs) : bs[i].bone_name = <<>> THEN Fail
     ELSE Done([i \in 1..Len(bs) |-> [bone_name |-> bs[i].bone_name[1], vertex_weights |-> ReadWeights(ver, bs[i].data)]])
ReadIndices(m, x) ==
  LET w == IndexSize(x)
      e == Elements(m.index_buffer, Cap(x.index_buffer_offset), w, Cap(x.vertex_index_count), w)
  IN IF e.ok THEN Done([i \in 1..Len(e.v) |-> e.v[i] \o Zeros(4 - w)]) ELSE Fail
Flag(b) == IF b = <<0>> THEN <<0>> ELSE <<1>>
(* The value of one object, or Fail. *)
ReadObject(ver, m, x) ==
  LET ix == ReadIndices(m, x)
      rg == ReadRigging(ver, m, x)
      at == [k \in 1..6 |-> ReadUsage(ver, m, x, Usages[k])]
  IN IF ~ix.ok \/ ~rg.ok \/ \E k \in 1..6 : ~at[k].ok THEN Fail
     ELSE Done([name |-> Text(x.name), subindex |-> x.subindex, parent_bone_name |-> Text(x.parent_bone_name), sort_bias |-> x.sort_bias,
                disable_depth_write |-> Flag(x.depth_flags.disable_depth_write), disable_depth_test |-> Flag(x.depth_flags.disable_depth_test),
                vertex_indices |-> ix.v, attrs |-> [k \in 1..6 |-> at[k].v], bone_influences |-> rg.v])
(* Numbers read: exact, except that of a byte only the nearest single or its neighbour is known. *)
SameVectors(t, a, b) == Len(a) = Len(b) /\ \A v \in 1..Len(a) : Len(a[v]) = Len(b[v]) /\ \A c \in 1..Len(a[v]) :
                           Same(a[v][c], b[v][c]) \/ (t = "Byte4" /\ Abs(Key(a[v][c]) - Key(b[v][c])) <= 1)
SameObject(s, o) ==    \* s: of the specification, o: observed
  /\ s.name = o.name /\ s.subindex = o.subindex /\ s.parent_bone_name = o.parent_bone_name /\ s.sort_bias = o.sort_bias
  /\ s.disable_depth_write = o.disable_depth_write /\ s.disable_depth_test = o.disable_depth_test
  /\ s.vertex_indices = o.vertex_indices
  /\ SameInfluences(s.bone_influences, o.bone_influences)
  /\ \A k \in 1..6 : LET as == s.attrs[k]
                         bs == o[FieldOf[Usages[k]]]
                     IN /\ Len(as) = Len(bs)
                        /\ \A i \in 1..Len(as) : as[i].name = bs[i].name /\ as[i].data.v = bs[i].data.v
                                                 /\ SameVectors(as[i].data.t, as[i].data.d, bs[i].data.d)
MeshFileJudge(ver, m, r) ==
  LET os == [k \in 1..Len(m.objects) |-> ReadObject(ver, m, m.objects[k])]
      ok == \A k \in 1..Len(os) : os[k].ok
  IN IF r.k = "panic" THEN r.e
     ELSE IF ~ok THEN (IF r.k = "err" THEN "" ELSE "data outside of the buffers was accepted")
     ELSE IF r.k # "ok" THEN "a well formed mesh is refused: " \o r.e
     ELSE IF r.v.major_version # <<1, 0>> \/ r.v.minor_version # (CASE ver = "V8" -> <<8, 0>> [] ver = "V9" -> <<9, 0>> [] OTHER -> <<10, 0>>) THEN "version differs"
     ELSE IF Len(r.v.objects) # Len(os) THEN "number of objects differs"
     ELSE IF \E k \in 1..Len(os) : ~SameObject(os[k].v, r.v.objects[k]) THEN "an object differs from what the file denotes"
     ELSE ""
(* e.count elements of e.size bytes from e.off on *)
ElementsJudge(e) ==
  LET o == UInt(e.off)
  IN IF e.count > 0 /\ (o > Len(e.b) \/ e.count * e.size > Len(e.b) - o)
     THEN (IF e.r.k = "err" THEN "" ELSE IF e.r.k = "ok" THEN "elements outside of the data were read" ELSE e.r.e)
     ELSE IF e.r.k # "ok" THEN "elements inside of the data are refused"
     ELSE IF e.r.v # [i \in 1..e.count |-> Slice(e.b, o + (i - 1) * e.size, e.size)] THEN "other elements were read" ELSE ""
=============================================================================
