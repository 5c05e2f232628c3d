------------------------------ MODULE Hostile ------------------------------
(* Values that a file can hold although no program would save them: a value  *)
(* of a format with one of its parts replaced.  Parts are addressed by paths *)
(* into the format's schema:                                                 *)
(*   [s |-> "f", n]  the field n of a structure                              *)
(*   [s |-> "e"]     any element of a list or the target of an offset        *)
(*   [s |-> "v", n]  the payload of an enumeration, if it is the variant n   *)
EXTENDS File

DataKinds == {"Mesh", "Skel", "Anim", "Modl", "Matl", "Hlpb", "MeshEx", "Adj", "Shdr"}
Versions(k) == IF k \in {"MeshEx", "Adj"} THEN <<"">> ELSE [i \in 1..Len(SsbhFormats[k].vers) |-> SsbhFormats[k].vers[i].name]
RootOf(k, ver) == CASE k = "MeshEx" -> MeshExSchema [] k = "Adj" -> AdjSchema [] OTHER -> VersionNamed(k, ver).t

(* Steps one can take from a node: <<step, schema below>>. *)
RECURSIVE Under(_)
Under(s) ==
  CASE s.k = "st" -> {<<[s |-> "f", n |-> s.f[i].n], s.f[i].t>> : i \in 1..Len(s.f)}
    [] s.k \in {"vec", "tup", "opt", "ptr", "aptr", "arr"} -> {<<[s |-> "e", n |-> ""], s.t>>}
    [] s.k = "en" -> {<<[s |-> "v", n |-> x], s.vars[x].t>> : x \in DOMAIN s.vars}
    [] s.k = "al" -> Under(s.t)
    [] OTHER -> {}
RECURSIVE PartAt(_, _)
PartAt(s, path) == IF path = <<>> THEN s ELSE PartAt((CHOOSE u \in Under(s) : u[1] = path[1])[2], Tail(path))

(* The replacements for a part of each type. *)
Integers == {"zero", "one", "max", "half", "top", "plus", "minus", "twice", "swap", "inf", "nan"}
Lists == {"none", "drop", "first", "again", "swap", "reverse"}
RECURSIVE EditsOf(_)
EditsOf(s) ==
  CASE s.k = "b" -> IF s.n = 4 THEN Integers ELSE Integers \ {"inf", "nan"}
    [] s.k = "bits" -> {"zero", "max", "swap"}
    [] s.k = "rep" -> {"other", "swap"}
    [] s.k \in {"vec", "arr"} -> Lists
    [] s.k \in {"buf"} -> {"none", "drop", "again", "max", "swap", "zero"}
    [] s.k \in {"cs"} -> {"none", "drop", "again", "max", "swap"}
    [] s.k \in {"opt", "ptr", "aptr"} -> {"none", "swap"}
    [] s.k = "en" -> {"none", "swap"}
    [] s.k = "al" -> EditsOf(s.t)
    [] OTHER -> {}

(* A smallest value in which the path exists. *)
RECURSIVE Smallest(_, _)
Smallest(s, path) ==
  LET on(step, p) == IF p # <<>> /\ p[1] = step THEN Tail(p) ELSE <<>>
      elem == [s |-> "e", n |-> ""] IN
  CASE s.k = "b" -> [i \in 1..s.n |-> IF i = 1 THEN 1 ELSE 0]
    [] s.k = "bits" -> [bytes |-> [i \in 1..s.n |-> <<0>>]]
    [] s.k = "rep" -> [v |-> CHOOSE x \in DOMAIN s.vars : TRUE, d |-> <<>>]
    [] s.k = "st" -> [n \in {s.f[i].n : i \in 1..Len(s.f)} |->
                        LET t == (CHOOSE i \in 1..Len(s.f) : s.f[i].n = n) IN Smallest(s.f[t].t, on([s |-> "f", n |-> n], path))]
    [] s.k = "tup" -> [i \in 1..s.n |-> Smallest(s.t, on(elem, path))]
    [] s.k \in {"vec", "arr", "opt", "ptr", "aptr"} -> <<Smallest(s.t, on(elem, path))>>
    [] s.k = "unit" -> <<>>
    [] s.k = "cs" -> <<97>>
    [] s.k = "buf" -> <<1, 2, 3>>
    [] s.k = "en" -> LET x == IF path # <<>> THEN path[1].n ELSE CHOOSE x \in DOMAIN s.vars : TRUE
                     IN [data |-> <<[v |-> x, d |-> Smallest(s.vars[x].t, on([s |-> "v", n |-> x], path))]>>]
    [] s.k = "al" -> Smallest(s.t, path)

(* The replacement of a part v. "swap" exchanges two parts at the same path, and so changes nothing where there is one. *)
AddOne(v) == LET RECURSIVE G(_, _)
                 G(i, carry) == IF i > Len(v) THEN <<>> ELSE <<(v[i] + carry) % 256>> \o G(i + 1, (v[i] + carry) \div 256)
             IN G(1, 1)
LessOne(v) == LET RECURSIVE G(_, _)
                  G(i, borrow) == IF i > Len(v) THEN <<>> ELSE <<(v[i] + 256 - borrow) % 256>> \o G(i + 1, IF v[i] < borrow THEN 1 ELSE 0)
              IN G(1, 1)
Twice(v) == [i \in 1..Len(v) |-> ((2 * v[i]) % 256) + (IF i > 1 /\ v[i - 1] >= 128 THEN 1 ELSE 0)]
RECURSIVE Replaced(_, _, _)
Replaced(s, v, e) ==
  IF e = "swap" THEN v
  ELSE CASE s.k = "b" -> LET n == s.n IN
             (CASE e = "zero" -> Zeros(n)
                [] e = "one" -> LE(1, n)
                [] e = "max" -> [i \in 1..n |-> 255]
                [] e = "half" -> [i \in 1..n |-> IF i = n THEN 127 ELSE 255]
                [] e = "top" -> [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
                [] e = "plus" -> AddOne(v)
                [] e = "minus" -> LessOne(v)
                [] e = "twice" -> Twice(v)
                [] e = "inf" -> <<0, 0, 128, 127>>
                [] e = "nan" -> <<0, 0, 192, 127>>)
         [] s.k = "bits" -> [bytes |-> [i \in 1..s.n |-> <<IF e = "zero" THEN 0 ELSE 255>>]]
         [] s.k = "rep" -> [v |-> CHOOSE x \in DOMAIN s.vars : Cardinality(DOMAIN s.vars) = 1 \/ x # v.v, d |-> <<>>]
         [] s.k \in {"vec", "arr"} ->
             (CASE e = "none" -> <<>>
                [] e = "drop" -> IF v = <<>> THEN v ELSE SubSeq(v, 1, Len(v) - 1)
                [] e = "first" -> IF v = <<>> THEN v ELSE Tail(v)
                [] e = "again" -> IF v = <<>> THEN v ELSE Append(v, v[Len(v)])
                [] e = "reverse" -> [i \in 1..Len(v) |-> v[Len(v) + 1 - i]])
         [] s.k \in {"buf", "cs"} ->
             (CASE e = "none" -> <<>>
                [] e = "drop" -> IF v = <<>> THEN v ELSE SubSeq(v, 1, Len(v) - 1)
                [] e = "again" -> v \o v
                [] e = "max" -> [i \in 1..Len(v) |-> 255]
                [] e = "zero" -> Zeros(Len(v)))
         [] s.k \in {"opt", "ptr", "aptr"} -> <<>>
         [] s.k = "en" -> [data |-> <<>>]
         [] s.k = "al" -> Replaced(s.t, v, e)
         [] OTHER -> v
(* The value with every part at the path replaced. *)
RECURSIVE Edited(_, _, _, _)
Edited(s, v, path, e) ==
  IF path = <<>> THEN Replaced(s, v, e)
  ELSE CASE s.k = "st" -> [v EXCEPT ![path[1].n] = Edited(PartAt(s, <<path[1]>>), @, Tail(path), e)]
         [] s.k \in {"vec", "tup", "opt", "ptr", "aptr", "arr"} -> [i \in 1..Len(v) |-> Edited(s.t, v[i], Tail(path), e)]
         [] s.k = "en" -> IF v.data = <<>> \/ v.data[1].v # path[1].n THEN v
                          ELSE [data |-> <<[v |-> v.data[1].v, d |-> Edited(s.vars[path[1].n].t, v.data[1].d, Tail(path), e)]>>]
         [] s.k = "al" -> Edited(s.t, v, path, e)

(* e: a value or the bytes of a file were converted to the data type (e.conv: "ok", "err" or "panic"); if a file could be   *)
(* written for the value, reading that file gave e.file (else "none"); the data, if any, was used further: saved (e.save),  *)
(* and its derived values computed (e.use).  Kinds without errors always succeed.                                           *)
Calm(k) == k \in {"ok", "err", "none"}
AlwaysLoads(fmt) == fmt \in {"MeshEx", "Modl", "Hlpb"}
HostileJudge(e) ==
  IF e.src = "spec" /\ ~Ok(RootOf(e.fmt, e.ver), e.val) THEN "not a value of the format"
  ELSE IF e.conv.k = "panic" THEN "conversion fails: " \o e.conv.e
  ELSE IF e.file.k = "panic" THEN "reading the file fails: " \o e.file.e
  ELSE IF ~Calm(e.conv.k) \/ ~Calm(e.file.k) THEN "no outcome"
  ELSE IF e.kib > (IF e.src = "bytes" THEN 160 ELSE 32) * 1024 THEN "allocates too much memory"
  ELSE IF e.src # "bytes" /\ AlwaysLoads(e.fmt) /\ e.conv.k # "ok" THEN "refused although the kind admits every value"
  ELSE IF e.src # "bytes" /\ e.file.k # "none" /\ e.file.k # e.conv.k THEN "the file and the value are treated differently"
  ELSE IF e.same = "no" THEN "the file and the value give different data"
  ELSE IF e.save.k = "panic" THEN "saving the loaded data fails: " \o e.save.e
  ELSE IF e.use.k = "panic" THEN "using the loaded data fails: " \o e.use.e
  ELSE ""
=============================================================================
