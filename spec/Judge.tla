------------------------------- MODULE Judge --------------------------------
EXTENDS Compose, Files, Streams, Stable, Hostile, Convert, Saving, Usual, Texts, Dump, Bulk

All(cs) == LET bad == {i \in 1..Len(cs) : ~cs[i][1]}
           IN IF bad = {} THEN "" ELSE cs[CHOOSE i \in bad : \A j \in bad : i <= j][2]

SchemaOf(f, ver) == VersionNamed(f, ver).t

(* L01: e.val was written (e.w), read back (e.r) and written again (e.rw) *)
L01(e) ==
  LET t == SchemaOf(e.fmt, e.ver) IN
  IF e.w.k # "ok" THEN "write failed: " \o e.w.e
  ELSE IF e.r.k # "ok" THEN "read failed: " \o e.r.e
  ELSE IF e.rw.k # "ok" THEN "second write failed: " \o e.rw.e
  ELSE All(<< <<e.r.v.fmt = e.fmt /\ e.r.v.ver = e.ver, "read as another format or version">>,
              <<e.r.v.fmt # e.fmt \/ e.r.v.ver # e.ver \/ Eq(t, e.val, e.r.v.val), "value read differs from value written">>,
              <<e.rw.v = e.w.v, "second write differs">> >>)

L02(e) ==
  IF e.w.k # "ok" THEN "write failed: " \o e.w.e
  ELSE All(<< <<SsbhWritten(e.fmt, e.ver, e.val, e.w.v), "bytes differ from the layout rules">> >>)

(* The value a byte string denotes as a file of kind "MeshEx", "Adj" or, otherwise, as an SSBH file. *)
ReadSpec(kind, b) ==
  LET plain(r) == [ok |-> r.ok, f |-> kind, ver |-> "", v |-> r.v]
  IN CASE kind = "MeshEx" -> plain(MeshExRead(b))
       [] kind = "Adj"    -> plain(AdjRead(b))
       [] OTHER           -> SsbhRead(b)
KindSchema(f, ver) ==
  CASE f = "MeshEx" -> MeshExSchema
    [] f = "Adj"    -> AdjSchema
    [] OTHER        -> SchemaOf(f, ver)
(* b are the bytes written for v. *)
WrittenAs(f, ver, v, b) ==
  CASE f = "MeshEx" -> b = MeshExBytes(v)
    [] f = "Adj"    -> b = AdjBytes(v)
    [] OTHER        -> SsbhWritten(f, ver, v, b)

(* L03, L04: e.bytes were read (e.r) and the value was written again (e.rw). Exactly the byte strings with a meaning are  *)
(* accepted, with that meaning; memory stays within a fixed bound for these small files.                                  *)
ReadJudge(e) ==
  LET s == ReadSpec(e.fmt, e.bytes) IN
  IF e.r.k = "panic" THEN e.r.e
  ELSE IF e.kib > 160 * 1024 THEN "allocates too much memory"
  ELSE IF ~s.ok THEN (IF e.r.k = "err" THEN "" ELSE "accepted although the bytes denote no value")
  ELSE IF e.r.k # "ok" THEN "rejected although well formed: " \o e.r.e
  ELSE IF e.r.v.fmt # s.f \/ e.r.v.ver # s.ver THEN "read as another format or version"
  ELSE IF e.utf8 /\ ~Eq(KindSchema(s.f, s.ver), s.v, e.r.v.val) THEN "value differs from what the bytes denote"
  ELSE IF s.f = "MeshEx" /\ ~MeshExValid(s.v) THEN (IF e.rw.k = "err" THEN "" ELSE "a MeshEx with differing counts was written")
  ELSE IF e.rw.k # "ok" THEN "value read cannot be written: " \o e.rw.e
  ELSE IF ~WrittenAs(s.f, s.ver, s.v, e.rw.v) THEN "value read (as written again) differs from what the bytes denote"
  ELSE ""

(* Text in place ends at its first NUL, so the N zero bytes of an empty text with N > 1 are not all consumed. *)
EmptyTextInPlace(e) == e.ty = "StrIn" /\ e.val.s = <<>>
(* L06: a user defined type e.ty was written at position e.pos with free position e.dp. *)
L06(e) ==
  LET t  == ComposeTypes[e.ty]
      ld == Lead(e.ty)
      n  == Len(ld) + Size(t, e.val)
      d  == IF Composite(t) THEN Max(e.dp, e.pos + n) ELSE e.dp
      x0 == W(t, e.val, e.pos + Len(ld), d)
      x  == IF x0.o = <<>> THEN Zeros(e.pos) \o ld \o x0.i
            ELSE Zeros(e.pos) \o ld \o x0.i \o Zeros(d - e.pos - n) \o x0.o
      y  == AlignEnd(x, EndAlign(e.ty))
  IN IF e.size.k # "ok" THEN "size_in_bytes: " \o e.size.e
     ELSE IF x0.err THEN (IF e.w.k = "err" THEN "" ELSE "an absolute offset that does not fit was not refused")
     ELSE IF e.w.k # "ok" THEN "write failed: " \o e.w.e
     ELSE LET b == e.w.v.b IN
       All(<< <<e.size.v = n, "reported size differs from the bytes occupied in place">>,
              <<\/ b = y
                \/ /\ EmptyBuf(t, e.val) /\ Len(b) > Len(y) /\ Len(b) <= x0.dp /\ b = y \o Zeros(Len(b) - Len(y)),
                "bytes differ from the layout rules">>,
              <<e.w.v.dp >= e.dp /\ (~Composite(t) \/ e.w.v.dp >= Len(x)), "data pointer points inside written data">>,
              <<e.ty \in WriteOnly \/ (LET r == R(t, b, e.pos) IN IF r.ok THEN e.rd.k = "ok" /\ Eq(t, r.v, e.rd.v) ELSE e.rd.k = "err"),
                "value read back differs from what the bytes denote">>,
              <<e.ty \in WriteOnly \/ EmptyTextInPlace(e) \/ Eq(t, e.val, e.rd.v), "value read back differs">> >>)

(* L05: the bytes e.head followed by zeros were read as any SSBH file (e.r, written again e.w) and as each of the ten types. *)
L05(e) ==
  LET b == e.head \o Zeros(e.zeros)
      s == SsbhRead(b)
      typed(f) == e.typed[f].r
  IN IF ~s.ok THEN All(<< <<e.r.k = "err", "a file of no supported type or version was accepted">>,
                          <<\A f \in DOMAIN SsbhFormats : typed(f).k = "err", "a typed read accepts a file of no supported type or version">> >>)
     ELSE IF e.r.k # "ok" THEN "rejected although well formed: " \o e.r.e
     ELSE IF e.r.v.fmt # s.f \/ e.r.v.ver # s.ver THEN "read as another format or version"
     ELSE IF typed(s.f).k # "ok" THEN "the typed read fails: " \o typed(s.f).e
     ELSE IF typed(s.f).v.ver # s.ver THEN "the typed read yields another version"
     ELSE LET t == SchemaOf(s.f, s.ver) IN
       All(<< <<Eq(t, e.r.v.val, typed(s.f).v.val), "the typed read yields another value than SsbhFile::read">>,
              <<\A f \in DOMAIN SsbhFormats \ {s.f} : typed(f).k = "err" /\ typed(f).e = "type", "a typed read of another type does not fail with InvalidSsbhType">>,
              <<e.w.k = "ok" /\ e.typed[s.f].w.k = "ok" /\ e.w.v = e.typed[s.f].w.v, "SsbhFile::write and the typed write differ">>,
              <<SsbhWritten(s.f, s.ver, s.v, e.w.v), "written with another type, version or value">> >>)
L05Write(e) ==
  IF e.w.k # "ok" \/ e.tw.k # "ok" THEN "write failed"
  ELSE All(<< <<e.w.v = e.tw.v, "SsbhFile::write and the typed write differ">>,
              <<SsbhWritten(e.fmt, e.ver, e.val, e.w.v), "written with another type, version or value">> >>)

(* L07: a MeshEx or Adj was written (e.w; e.wrote bytes reached the output) and read back (e.r). *)
L07(e) ==
  IF e.kind = "MeshEx" /\ ~MeshExValid(e.val)
  THEN All(<< <<e.w.k = "err", "differing counts were not refused with an error">>, <<e.wrote = 0, "bytes were written before the error">> >>)
  ELSE IF e.w.k # "ok" THEN "write failed: " \o e.w.e
  ELSE IF e.r.k # "ok" THEN "read failed: " \o e.r.e
  ELSE All(<< <<WrittenAs(e.kind, "", e.val, e.w.v), "bytes differ from the documented layout">>,
              <<Eq(KindSchema(e.kind, ""), e.val, e.r.v), "value read differs from value written">> >>)

(* L08: a behaviour of saves and loads. Contents and values are numbered; 0 is none. *)
L08(e) ==
  LET Bad0(d, s) ==
        LET x == FileStep(d, s.op, e.bytesOf, e.denotes, 0)
        IN IF s.r.k = "panic" THEN s.r.e
           ELSE IF x.ok # (s.r.k = "ok") THEN (IF x.ok THEN s.op.do \o " fails: " \o s.r.e ELSE s.op.do \o " succeeds although it cannot")
           ELSE IF s.disk # x.disk THEN (IF s.op.do = "load" THEN "loading changed a file"
                                         ELSE IF x.ok THEN "the file does not hold the bytes write() produces" ELSE "a failed save changed a file")
           ELSE IF s.others # <<>> THEN "other files were created"
           ELSE IF s.op.do = "load" /\ x.ok /\ s.v # x.v THEN "from_file returns another value than read"
           ELSE ""
      RECURSIVE Go(_, _)
      Go(d, i) == IF i > Len(e.steps) THEN ""
                  ELSE LET y == Bad0(d, e.steps[i]) IN IF y # "" THEN y ELSE Go(e.steps[i].disk, i + 1)
  IN IF e.bytesOf.small = 0 \/ e.bytesOf.large = 0 THEN "a valid value is not written" ELSE Go(e.start, 1)

(* L11: calls on streams that are slow, interrupted or fail. *)
L11(e) ==
  IF e.plain.k # "ok" THEN "a valid value is not written"
  ELSE LET bad == {i \in 1..Len(e.calls) : StreamProblem(e.calls[i].dir, e.calls[i], e.calls[i].right) # ""}
       IN IF bad = {} THEN "" ELSE LET x == e.calls[CHOOSE i \in bad : \A j \in bad : i <= j] IN StreamProblem(x.dir, x, x.right)

(* Meshes: e.data was converted to a file (e.lib) or saved and loaded again (e.rt). *)
D01(e) == IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e ELSE KeptMesh(e.data, e.rt.v)
D02(e) ==
  LET es == MeshErrors(e.data)
  IN IF e.lib.k = "panic" THEN e.lib.e
     ELSE IF es = {} THEN (IF e.lib.k = "ok" THEN "" ELSE "a valid mesh is refused: " \o e.lib.e.e)
     ELSE IF e.lib.k = "ok" THEN "an invalid mesh is saved"
     ELSE IF e.lib.e \notin es THEN "the error names another condition: " \o e.lib.e.e
     ELSE ""
Converted(e, why) == IF e.lib.k = "panic" THEN e.lib.e ELSE IF e.lib.k = "err" THEN "a valid mesh is refused: " \o e.lib.e.e ELSE why
D05(e) ==
  LET x == Converted(e, MeshRigging(e.data, e.lib.v.d))
  IN IF x # "" THEN x
     ELSE IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e
     ELSE IF Len(e.rt.v.objects) # Len(e.data.objects) THEN "number of objects differs"
     ELSE IF \E k \in 1..Len(e.data.objects) : ~SameInfluences(e.data.objects[k].bone_influences, e.rt.v.objects[k].bone_influences)
          THEN "bone influences differ" ELSE ""
(* Large objects, with the vertex data left out: their index data, offsets and sizes. *)
BigLayout(e) ==
  LET m == e.lib.v
      os == m.objects
      K == 1..Len(e.indices)
      w(k) == IndexSize(os[k])
      lo(k) == UInt(os[k].index_buffer_offset)
      vr(b) == [k \in K |-> [lo |-> UInt(BufOff(os[k], b)), hi |-> UInt(BufOff(os[k], b)) + UInt(os[k].vertex_count) * UInt(BufStride(os[k], b))]]
      ir == [k \in K |-> [lo |-> lo(k), hi |-> lo(k) + w(k) * Len(e.indices[k])]]
  IN IF Len(os) # Len(e.indices) THEN "number of objects is wrong"
     ELSE IF \E k \in K : UInt(os[k].vertex_count) # UInt(e.counts[k]) \/ UInt(os[k].vertex_index_count) # Len(e.indices[k]) THEN "recorded count is wrong"
     ELSE IF \E k \in K : (w(k) = 2) # (\A i \in 1..Len(e.indices[k]) : Fits16(e.indices[k][i])) THEN "index type is wrong"
     ELSE IF \E k \in K : lo(k) + w(k) * Len(e.indices[k]) > Len(m.index_buffer)
                           \/ \E i \in 1..Len(e.indices[k]) : Slice(m.index_buffer, lo(k) + w(k) * (i - 1), w(k)) # SubSeq(e.indices[k][i], 1, w(k)) THEN "index data differs"
     ELSE IF \E k \in K : \E b \in 0..2 : UInt(BufStride(os[k], b)) # e.strides[b + 1] THEN "stride differs from the size of the attributes"
     ELSE IF \E b \in 0..2 : ~Disjoint(vr(b)) \/ ~Inside(vr(b), UInt(m.lens[b + 1])) THEN "vertex data of objects overlaps or leaves the buffer"
     ELSE IF ~Disjoint(ir) THEN "index data of objects overlaps"
     ELSE IF Len(m.buffer_sizes) # 4 \/ \E b \in 1..4 : UInt(m.buffer_sizes[b]) # UInt(m.lens[b]) THEN "recorded buffer size is wrong"
     ELSE IF UInt(m.polygon_index_size) # Len(m.index_buffer) THEN "recorded index buffer size is wrong"
     ELSE ""
BigKept(e) == IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e
              ELSE All(<< <<e.rt.v.indices = e.indices, "vertex indices differ">>, <<e.rt.v.counts = e.counts, "vertex counts differ">> >>)

AnimD06(e) == IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e ELSE AnimKept(e.data, e.rt.v)
AnimD07(e) == IF e.lib.k = "panic" THEN e.lib.e
              ELSE IF e.lib.k = "err" THEN "a valid animation is refused: " \o e.lib.e.e ELSE AnimLayout(e.data, e.lib.v)
AnimD09(e) ==
  LET es == AnimErrors(e.data)
  IN IF e.lib.k = "panic" THEN e.lib.e
     ELSE IF es = {} THEN (IF e.lib.k = "ok" THEN "" ELSE "a valid animation is refused: " \o e.lib.e.e)
     ELSE IF e.lib.k = "ok" THEN "an invalid animation is saved"
     ELSE IF e.lib.e \notin es THEN "the error names another condition: " \o e.lib.e.e
     ELSE ""

Judge(e) ==
  CASE e.op = "skip" -> ""
    [] e.op = "bulk" -> Many(e)
    [] e.op = "l08" -> L08(e)
    [] e.op = "l11" -> L11(e)
    [] e.op = "d01" -> D01(e)
    [] e.op = "d01big" -> BigKept(e)
    [] e.op = "d02" -> D02(e)
    [] e.op = "d03" -> Converted(e, MeshLayout(e.data, e.lib.v.d))
    [] e.op = "d03big" -> Converted(e, BigLayout(e))
    [] e.op = "d04" -> Converted(e, MeshBounds(e.data, e.lib.v.d))
    [] e.op = "d05" -> D05(e)
    [] e.op = "d06" -> AnimD06(e)
    [] e.op = "d07" -> AnimD07(e)
    [] e.op = "d09" -> AnimD09(e)
    [] e.op = "animfile" -> IF e.kib > 160 * 1024 THEN "allocates too much memory" ELSE AnimFileJudge(e.f, e.r)
    [] e.op = "d10" -> SkelJudge(e)
    [] e.op = "d10rel" -> RelJudge(e)
    [] e.op = "d10file" -> SkelFileJudge(e.s, e.r)
    [] e.op = "d11" -> MatlJudge(e)
    [] e.op = "d11file" -> MatlFileJudge(e.ver, e.m, e.r)
    [] e.op = "d12" -> ModelJudge(e)
    [] e.op = "d12file" -> ModelFileJudge(e)
    [] e.op = "d13" -> AdjDataJudge(e)
    [] e.op = "d13file" -> AdjFileJudge(e.a, e.r)
    [] e.op = "d13tri" -> TriJudge(e)
    [] e.op = "d14" -> MeshExDataJudge(e)
    [] e.op = "d14file" -> MeshExFileJudge(e)
    [] e.op = "d14mesh" -> GroupsJudge(e)
    [] e.op = "l10" -> DumpJudge(e)
    [] e.op = "d20t" -> TextJudge(e)
    [] e.op = "d20e" -> EnumJudge(e)
    [] e.op = "d20n" -> NameJudge(e)
    [] e.op = "d20l" -> ListJudge(e)
    [] e.op = "d20c" -> CompareJudge(e)
    [] e.op = "d20v" -> VectorsJudge(e)
    [] e.op = "l12" -> LibDocJudge(e)
    [] e.op = "d21" -> DocJudge(e)
    [] e.op = "d22" -> SaveJudge(e)
    [] e.op = "d23" -> UsualJudge(e)
    [] e.op = "d20h" -> HoldJudge(e)
    [] e.op = "l09s" -> SessionJudge(e)
    [] e.op = "l09j" -> IF e.back # "same" THEN "the way back gives another file: " \o e.back ELSE ShownJudge(e)
    [] e.op = "d15" -> HostileJudge(e)
    [] e.op = "d16" -> TransformJudge(e)
    [] e.op = "d16h" -> HelperJudge(e)
    [] e.op = "d16v" -> VectorJudge(e)
    [] e.op = "d16n" -> NormalJudge(e)
    [] e.op = "d17h" -> HistoryJudge(e)
    [] e.op = "d17g" -> GenerationJudge(e)
    [] e.op = "d18" -> IF e.kib > 160 * 1024 THEN "allocates too much memory" ELSE ShaderJudge(e)
    [] e.op = "d19list" -> ElementsJudge(e)
    [] e.op = "d19" -> IF e.kib > 160 * 1024 THEN "allocates too much memory" ELSE MeshFileJudge(e.ver, e.m, e.r)
    [] e.op = "l07" -> L07(e)
    [] e.op = "l05" -> L05(e)
    [] e.op = "l05w" -> L05Write(e)
    [] e.op = "l01" -> L01(e)
    [] e.op = "l02" -> L02(e)
    [] e.op = "l06" -> L06(e)
    [] e.op \in {"l03", "l04"} -> ReadJudge(e)
=============================================================================
