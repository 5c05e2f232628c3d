-------------------------------- MODULE File --------------------------------
(* Whole files: what is written for a value and what a byte string denotes. *)
EXTENDS Formats, Writer, Reader

(* ---- SSBH files *)
SsbhBytes(f, ver, v) ==
  LET vr == VersionNamed(f, ver)
      n  == Size(vr.t, v)
      e  == W(vr.t, v, 24, 24 + n)
  IN AlignEnd(Header(SsbhFormats[f].magic) \o LE(vr.maj, 2) \o LE(vr.min, 2) \o e.i \o e.o, vr.end)

(* The file may also extend to the place an empty byte buffer would have had (seeking there and writing nothing extends *)
(* some kinds of output with zeros). *)
SsbhWritten(f, ver, v, b) ==
  LET x == SsbhBytes(f, ver, v)
  IN \/ b = x
     \/ b = AlignEnd(x, 8) /\ EmptyBuf(VersionNamed(f, ver).t, v)

(* The formats and versions a byte string announces, as <<format, version index>> pairs. *)
Announced(b) ==
  IF Len(b) < 24 \/ Slice(b, 0, 4) # HBSS THEN {}
  ELSE {<<f, i>> \in {<<f, i>> : f \in DOMAIN SsbhFormats, i \in 1..3} :
          /\ Slice(b, 16, 4) = SsbhFormats[f].magic
          /\ i <= Len(SsbhFormats[f].vers)
          /\ Slice(b, 20, 4) = LE(SsbhFormats[f].vers[i].maj, 2) \o LE(SsbhFormats[f].vers[i].min, 2)}

(* [ok, f, ver, v]: the value of an SSBH file. *)
NoFile == [ok |-> FALSE, f |-> "", ver |-> "", v |-> <<>>]
SsbhRead(b) ==
  LET a == Announced(b)
  IN IF a = {} THEN NoFile
     ELSE LET x == CHOOSE x \in a : TRUE
              vr == SsbhFormats[x[1]].vers[x[2]]
              r == R(vr.t, b, 24)
          IN IF r.ok THEN [ok |-> TRUE, f |-> x[1], ver |-> vr.name, v |-> r.v] ELSE NoFile

(* ---- MeshEx files: [all_data, mesh_object_groups, entries, entry_flags, unk1], nulls as <<>> *)
OptLen(o) == IF o = <<>> THEN 0 ELSE Len(o[1])
MeshExFields == <<F("all_data", APtr(8, ExAll)), F("mesh_object_groups", APtr(8, Vec(ExGroup))),
                  F("entries", APtr(8, Vec(ExEntry))), F("entry_flags", APtr(8, ExFlags)), F("unk1", U32)>>
MeshExValid(v) == OptLen(v.entries) = OptLen(v.entry_flags)
MeshExBytes(v) ==
  LET a == WFields(MeshExFields, v, 1, 16, 64, Empty(64))
      body == LE(OptLen(v.entries), 4) \o LE(OptLen(v.mesh_object_groups), 4) \o a.i
      n == RU(64 + Len(a.o), 16)
  IN LE(n, 8) \o body \o Zeros(64 - 8 - Len(body)) \o a.o \o Zeros(n - 64 - Len(a.o))

(* A count that the bytes cannot hold is an error: every table element occupies space. *)
RTable(b, p, cnt, t, null) ==
  IF ~Has(b, p, 8) THEN Bad
  ELSE LET off == Slice(b, p, 8)
       IN IF off = Zeros(8) THEN Good(<<>>, p + 8)
          ELSE LET r == RSeq(t, b, cnt, UInt(off), <<>>) IN IF r.ok THEN Good(<<r.v>>, p + 8) ELSE Bad
MeshExRead(b) ==
  IF ~Has(b, 0, 52) THEN Bad
  ELSE LET ne == UInt(Slice(b, 8, 4))
           ng == UInt(Slice(b, 12, 4))
           al == R(APtr(8, ExAll), b, 16)
           gr == RTable(b, 24, ng, ExGroup, 0)
           en == RTable(b, 32, ne, ExEntry, 0)
           fl == RTable(b, 40, ne, Bits(2), 0)
       IN IF al.ok /\ gr.ok /\ en.ok /\ fl.ok
          THEN Good([all_data |-> al.v, mesh_object_groups |-> gr.v, entries |-> en.v, entry_flags |-> fl.v, unk1 |-> Slice(b, 48, 4)], 52)
          ELSE Bad
MeshExSchema == St(<<F("all_data", Opt(ExAll)), F("mesh_object_groups", Opt(Vec(ExGroup))), F("entries", Opt(Vec(ExEntry))),
                     F("entry_flags", Opt(Vec(Bits(2)))), F("unk1", U32)>>)

(* ---- Adj files: count, entries, then 16 bit indices up to the end of the file *)
AdjBytes(v) == LE(Len(v.entries), 4) \o WSeq(AdjEntry, v.entries, 1, 4, 0, Empty(0)).i \o Concat(v.index_buffer)
AdjRead(b) ==
  IF ~Has(b, 0, 4) THEN Bad
  ELSE LET r == RSeq(AdjEntry, b, UInt(Slice(b, 0, 4)), 4, <<>>)
       IN IF ~r.ok THEN Bad
          ELSE Good([entries |-> r.v, index_buffer |-> [i \in 1..((Len(b) - r.p) \div 2) |-> Slice(b, r.p + 2 * i - 2, 2)]], Len(b))
AdjSchema == St(<<F("entries", Vec(AdjEntry)), F("index_buffer", Vec(U16))>>)
=============================================================================
