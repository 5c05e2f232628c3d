------------------------------- MODULE Usual --------------------------------
(* What a file holds beyond what the data types represent (D23): saving gives  *)
(* it the usual values, whatever the file had that the data was loaded from.    *)
EXTENDS Docs, Stable

UsOne(n) == <<1>> \o Zeros(n - 1)
UsAll(s, UsGood(_)) == \A i \in 1..Len(s) : UsGood(s[i])
UsList(p) == IF p = <<>> THEN <<>> ELSE p[1]
UsFloat1 == <<0, 0, 128, 63>>
UsParam(a) == IF a.param.data = <<>> THEN "" ELSE LET p == a.param.data[1] IN
  CASE p.v = "Sampler" -> IF p.d.unk11 # Zeros(4) \/ p.d.unk12 # LE(2139095022, 4) THEN "sampler" ELSE ""
    [] p.v = "BlendState" -> IF (IF "unk6" \in DOMAIN p.d
                                 THEN p.d.unk6 # Zeros(8) \/ p.d.unk7 # Zeros(4) \/ p.d.unk8 # LE(5, 4) \/ p.d.unk9 # Zeros(4)
                                 ELSE p.d.unk8 # Zeros(4) \/ p.d.unk9 # Zeros(4) \/ p.d.unk10 # LE(5, 4)) THEN "blend state" ELSE ""
    [] p.v = "RasterizerState" -> IF "unk6" \in DOMAIN p.d /\ (p.d.unk4 # Zeros(4) \/ p.d.unk5 # Zeros(4) \/ p.d.unk6 # LE(16777217, 4)) THEN "rasterizer state" ELSE ""
    [] OTHER -> ""
(* The part of v that is not the usual one; "" if there is none. *)
Unusual(fmt, ver, v) ==
  CASE fmt = "Mesh" ->
         IF Text(v.model_name) # <<>> THEN "name"
         ELSE IF v.unk1 # Zeros(4) THEN "unk1"
         ELSE IF ~UsAll(v.objects, LAMBDA o : o.unk2 = LE(3, 4)) THEN "object unk2"
         ELSE IF ~UsAll(v.objects, LAMBDA o : o.unk8 = LE(4, 4)) THEN "object unk8"
         ELSE IF ~UsAll(v.rigging_buffers, LAMBDA g : g.flags.unk1 = <<1>>) THEN "rigging flags" ELSE ""
    [] fmt = "Skel" -> IF ~UsAll(v.bone_entries, LAMBDA b : b.flags.unk1 = <<1>>) THEN "bone flags" ELSE ""
    [] fmt = "Anim" ->
         IF Text(v.name) # <<>> THEN "name"
         ELSE IF v.unk1 # <<1, 0>> \/ v.unk2 # <<3, 0>> THEN "unk1 or unk2"
         ELSE IF ver = "V21" /\ (v.unk_data.unk1 # <<>> \/ v.unk_data.unk2 # <<>>) THEN "unk_data" ELSE ""
    [] fmt = "Hlpb" ->
         IF ~UsAll(v.aim_constraints, LAMBDA a : \A f \in {"unk17", "unk18", "unk19", "unk20", "unk21", "unk22"} : a[f] = Zeros(4)) THEN "aim constraint" ELSE ""
    [] fmt = "MeshEx" ->
         IF v.all_data = <<>> \/ (v.all_data # <<>> /\ v.all_data[1].name # <<<<65, 108, 108>>>>) THEN "name"
         ELSE IF ~UsAll(UsList(v.entries), LAMBDA e : e.unk1 = [x |-> Zeros(4), y |-> UsFloat1, z |-> Zeros(4)]) THEN "entry"
         ELSE IF ~UsAll(UsList(v.entry_flags), LAMBDA f : f.bytes[1][1] \in 0..3 /\ f.bytes[2] = <<0>>) THEN "entry flags"
         ELSE IF v.unk1 # Zeros(4) THEN "unk1" ELSE ""
    [] fmt = "Matl" ->
         IF ~UsAll(v.entries, LAMBDA m : UsAll(m.attributes, LAMBDA a : UsParam(a) = "")) THEN "material attribute" ELSE ""
    [] OTHER -> ""
(* e.file is the file as saved; e.plain and e.other are the bytes saved from what was loaded from two files that differ in nothing *)
(* that the data represents. *)
UsualJudge(e) ==
  IF e.file.k # "ok" THEN "saving or loading failed: " \o e.file.e
  ELSE LET f == e.file.v IN
       IF f.fmt # e.fmt THEN "the file has another format"
       ELSE IF Unusual(f.fmt, f.ver, f.val) # "" THEN "not the usual value: " \o Unusual(f.fmt, f.ver, f.val)
       ELSE IF e.plain # e.other THEN "what the data does not represent affects the saved file" ELSE ""
=============================================================================
