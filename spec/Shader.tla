------------------------------- MODULE Shader ------------------------------
(* Metadata of compiled shaders (D18): where a binary stores the descriptions  *)
(* of its buffers, uniforms, inputs and outputs and how names are addressed.    *)
EXTENDS Extended

(* A stored value of 4 bytes at offset p (from 0) of the bytes b. *)
W4(b, p) == Slice(b, p, 4)
N4(b, p) == UInt(W4(b, p))
HeaderAt == 288
HeaderLen == 108
CodeLengthAt == 2504
CodeAt == 2896
(* the four lists of the header: size of an entry and of its stored part (the rest may lie past the end) *)
EntrySize == <<108, 164, 92, 92>>
EntryUsed == <<76, 104, 60, 60>>
DataTypes == [Boolean |-> 0, Int |-> 4, Unk7 |-> 7, UnsignedInt |-> 20, UVec3 |-> 22, Float |-> 36, Vector2 |-> 37, Vector3 |-> 38, Vector4 |-> 39,
              Matrix4x4 |-> 50, Sampler2d |-> 67, Sampler3d |-> 68, SamplerCube |-> 69, Sampler2dArray |-> 73, Image2d |-> 103]
TypeNamed(n) == {t \in DOMAIN DataTypes : DataTypes[t] = n}

HasHeader(b) == Len(b) >= HeaderAt + HeaderLen
EntryOffset(b) == N4(b, HeaderAt + 4)
ListCount(b, k) == N4(b, HeaderAt + 36 + 8 * k)
Plus(x, y) == IF x >= Far \/ y >= Far THEN Far ELSE x + y      \* smaller numbers are below 2^30
ListAt(b, k) == Plus(EntryOffset(b), N4(b, HeaderAt + 40 + 8 * k))
StringsAt(b) == Plus(EntryOffset(b), N4(b, HeaderAt + 104))
Within(b, at, n) == at <= Len(b) /\ n <= Len(b) /\ at + n <= Len(b)
EntryAt(b, k, i) == ListAt(b, k) + EntrySize[k] * (i - 1)
ListFits(b, k) == LET n == ListCount(b, k) IN n = 0 \/ (n <= Len(b) /\ Within(b, ListAt(b, k), EntrySize[k] * (n - 1) + EntryUsed[k]))
NameLen(b, p) == LET n == N4(b, p + 4) IN IF n = 0 THEN 0 ELSE n - 1
NameFits(b, p) == LET o == N4(b, p)
                      s == StringsAt(b)
                  IN NameLen(b, p) = 0 \/ (s <= Len(b) /\ o <= Len(b) /\ Within(b, s + o, NameLen(b, p)))
NameAt(b, p) == Slice(b, StringsAt(b) + N4(b, p), NameLen(b, p))
NameOf(b, p) == IF NameLen(b, p) = 0 THEN <<>> ELSE NameAt(b, p)
BufferAt(b, p) == [name |-> NameOf(b, p), used_size_in_bytes |-> W4(b, p + 40), uniform_count |-> W4(b, p + 44),
                   unk4 |-> W4(b, p + 48), unk5 |-> W4(b, p + 52), unk6 |-> W4(b, p + 56), unk7 |-> W4(b, p + 60)]
TypeOf(b, p) == LET t == CHOOSE t \in TypeNamed(N4(b, p + 40)) : TRUE IN [v |-> t, d |-> <<>>]
UniformAt(b, p) == [name |-> NameOf(b, p), data_type |-> TypeOf(b, p), buffer_index |-> W4(b, p + 44),
                    uniform_buffer_offset |-> W4(b, p + 48), unk11 |-> W4(b, p + 76)]
AttributeAt(b, p) == [name |-> NameOf(b, p), data_type |-> TypeOf(b, p), location |-> W4(b, p + 48)]
(* A binary can be read when everything it refers to is inside of it. *)
Readable(b) ==
  /\ HasHeader(b)
  /\ \A k \in 1..4 : ListFits(b, k)
  /\ \A k \in 2..4 : \A i \in 1..ListCount(b, k) : TypeNamed(N4(b, EntryAt(b, k, i) + 40)) # {}
  /\ \A k \in 1..4 : \A i \in 1..ListCount(b, k) : NameFits(b, EntryAt(b, k, i))
  /\ Len(b) >= CodeLengthAt + 4
  /\ (N4(b, CodeLengthAt) > 0 => Within(b, CodeAt, N4(b, CodeLengthAt)))
MetaOf(b) ==
  LET list(k, F(_, _)) == [i \in 1..ListCount(b, k) |-> F(b, EntryAt(b, k, i))]
  IN [buffers |-> list(1, BufferAt), uniforms |-> list(2, UniformAt), inputs |-> list(3, AttributeAt), outputs |-> list(4, AttributeAt)]
CodeOf(b) == Slice(b, CodeAt, N4(b, CodeLengthAt))

(* Names are text: bytes that are not UTF-8 are replaced, in a way not specified here. *)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  LET c(k) == IF i + k <= Len(s) THEN s[i + k] \div 64 = 2 ELSE FALSE
      b == s[i]
      low(k) == IF i + 1 <= Len(s) THEN s[i + 1] ELSE 0
  IN IF i > Len(s) THEN TRUE
     ELSE IF b < 128 THEN Utf8From(s, i + 1)
     ELSE IF b \in 194..223 THEN c(1) /\ Utf8From(s, i + 2)
     ELSE IF b \in 224..239 THEN c(1) /\ c(2) /\ (b = 224 => low(1) >= 160) /\ (b = 237 => low(1) < 160) /\ Utf8From(s, i + 3)
     ELSE IF b \in 240..244 THEN c(1) /\ c(2) /\ c(3) /\ (b = 240 => low(1) >= 144) /\ (b = 244 => low(1) < 144) /\ Utf8From(s, i + 4)
     ELSE FALSE
IsUtf8(s) == Utf8From(s, 1)
SameName(s, t) == s = t \/ ~IsUtf8(s)
SameEntry(x, y) == SameName(x.name, y.name) /\ [x EXCEPT !.name = <<>>] = [y EXCEPT !.name = <<>>]
SameList(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameEntry(x[i], y[i])
(* x is stored, y was loaded *)
MetaDiffers(x, y) ==
  IF ~SameList(x.buffers, y.buffers) THEN "a buffer differs from the stored one"
  ELSE IF ~SameList(x.uniforms, y.uniforms) THEN "a uniform differs from the stored one"
  ELSE IF ~SameList(x.inputs, y.inputs) THEN "an input differs from the stored one"
  ELSE IF ~SameList(x.outputs, y.outputs) THEN "an output differs from the stored one"
  ELSE ""
(* shaders of a file: name, stage and binary *)
StageNamed(n) == CASE n = 0 -> "Vertex" [] n = 3 -> "Geometry" [] n = 4 -> "Fragment" [] n = 5 -> "Compute"
ShaderFile(shaders, r) ==
  IF \E i \in 1..Len(shaders) : ~Readable(shaders[i].binary)
  THEN (IF r.k = "err" THEN "" ELSE IF r.k = "ok" THEN "a malformed binary was accepted" ELSE r.e)
  ELSE IF r.k # "ok" THEN "a well-formed binary was refused: " \o r.e
  ELSE IF Len(r.v.shaders) # Len(shaders) THEN "number of shaders differs"
  ELSE LET bad == {i \in 1..Len(shaders) : r.v.shaders[i].name # Text(shaders[i].name) \/ r.v.shaders[i].shader_stage # shaders[i].stage}
           diff == {MetaDiffers(MetaOf(shaders[i].binary), r.v.shaders[i].meta_data) : i \in 1..Len(shaders)} \ {""}
       IN IF bad # {} THEN "name or stage of a shader differs"
          ELSE IF diff # {} THEN CHOOSE x \in diff : TRUE ELSE ""
ShaderJudge(e) ==
  LET d == ShaderFile(e.shaders, e.r)
      b == e.shaders[1].binary
  IN IF d # "" THEN d
     ELSE IF e.fromfile.k # e.r.k \/ (e.r.k = "ok" /\ e.fromfile.v # e.r.v) THEN "reading the file gives other data than the loaded file"
     ELSE IF e.disk.k # e.r.k \/ (e.r.k = "ok" /\ e.disk.v # e.r.v) THEN "loading the file gives other data than reading it"
     ELSE IF e.after # "same" \/ ~e.unchanged THEN "loading modified the file's data"
     ELSE IF Len(e.shaders) = 0 THEN ""
     ELSE IF e.metafile.k # e.meta.k \/ (e.meta.k = "ok" /\ e.metafile.v # e.meta.v) THEN "loading the binary gives other data than reading it"
     ELSE IF ~Readable(b) THEN (IF e.meta.k = "err" THEN "" ELSE "a malformed binary was read as metadata")
     ELSE IF e.meta.k # "ok" THEN "a well-formed binary was refused: " \o e.meta.e
     ELSE IF MetaDiffers(MetaOf(b), e.meta.v) # "" THEN MetaDiffers(MetaOf(b), e.meta.v)
     ELSE IF e.code.k # "ok" \/ e.code.v # CodeOf(b) THEN "program code differs from the stored code"
     ELSE ""
=============================================================================
