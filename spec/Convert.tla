------------------------------ MODULE Convert ------------------------------
(* The command line tools ssbh_lib_json ("lib") and ssbh_data_json ("data"). *)
(* A file name is a sequence: a stem and its extensions.  The contents are   *)
(*   [t |-> "bin",  g]   the binary file of generation g                     *)
(*   [t |-> "lib",  g]   its JSON as written by ssbh_lib_json                *)
(*   [t |-> "data", g]   the JSON of its data, written by ssbh_data_json     *)
(*   [t |-> "junk"]      something that no tool understands                  *)
(* ssbh_lib_json is lossless, so it converts between bin g and lib g.        *)
(* ssbh_data_json recalculates: from data g it makes bin g + 1.              *)
(* Ext is the extension of the kind of file; "ssbh" kinds are recognised by  *)
(* their content and so may have any extension when ssbh_lib_json reads them. *)
EXTENDS File

None == [t |-> "none", g |-> 0]
Content(t, g) == [t |-> t, g |-> g]
LastOf(s) == s[Len(s)]

(* The content a tool makes of the file "name" holding c, None if it refuses it. *)
Made(tool, c, name, ext, class) ==
  IF LastOf(name) = "json"
  THEN IF c.t = tool THEN Content("bin", IF tool = "lib" THEN c.g ELSE c.g + 1) ELSE None
  ELSE IF c.t # "bin" THEN None
  ELSE IF LastOf(name) = ext \/ (tool = "lib" /\ class = "ssbh" /\ LastOf(name) \notin {"adjb", "numshexb"}) THEN Content(tool, c.g)
  ELSE None
(* Where it goes if no output is named. *)
DefaultOut(name, ext) == IF LastOf(name) = "json" THEN Append(SubSeq(name, 1, Len(name) - 1), ext) ELSE Append(name, "json")
OutOf(run, ext) == IF run.out = <<>> THEN DefaultOut(run.in, ext) ELSE run.out

OnDisk(disk, n) == IF n \in DOMAIN disk THEN disk[n] ELSE None
RunTool(disk, run, ext, class) ==
  LET m == Made(run.tool, OnDisk(disk, run.in), run.in, ext, class)
  IN IF m = None THEN disk ELSE [n \in DOMAIN disk \cup {OutOf(run, ext)} |-> IF n = OutOf(run, ext) THEN m ELSE disk[n]]

(* ---- JSON text: j is null, a truth value, a number (its value as integer and as float), text, a list or an object.       *)
HexDigit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
HexOf(t) == IF Len(t) % 2 = 1 THEN <<-1>> ELSE [i \in 1..(Len(t) \div 2) |-> 16 * HexDigit(t[2 * i - 1]) + HexDigit(t[2 * i])]
IsNull(j) == j.t = "null"
(* i is the eight bytes of an integer, empty if the number is none: v, with or without a sign. *)
IntShows(n, v, i) == i # <<>> /\ SubSeq(i, 1, n) = v
                     /\ \A k \in (n + 1)..8 : i[k] = (IF i[8] < 128 \/ v[n] < 128 THEN 0 ELSE 255)
RECURSIVE Shows(_, _, _)
Field(s, v, j, name) == name \in DOMAIN j.v /\ Shows(s, v, j.v[name])
(* j shows value v of schema s: fields under their names, numbers, texts, byte buffers as hexadecimal text, the variants of *)
(* enumerations by name, absent values as null. *)
Shows(s, v, j) ==
  CASE s.k = "b" -> j.t = "n" /\ (IntShows(s.n, v, j.i) \/ (s.n = 4 /\ j.f = v))
    [] s.k = "bits" -> /\ j.t = "o" /\ "bytes" \in DOMAIN j.v /\ j.v["bytes"].t = "a" /\ Len(j.v["bytes"].v) = Len(v.bytes)
                       /\ \A i \in 1..Len(v.bytes) : j.v["bytes"].v[i].t = "n" /\ IntShows(1, v.bytes[i], j.v["bytes"].v[i].i)
    [] s.k = "rep" -> j.t = "s" /\ j.name = v.v
    [] s.k = "st" -> j.t = "o" /\ \A i \in 1..Len(s.f) : Field(s.f[i].t, v[s.f[i].n], j, s.f[i].n)
    [] s.k \in {"vec", "tup", "arr"} -> j.t = "a" /\ Len(j.v) = Len(v) /\ \A i \in 1..Len(v) : Shows(s.t, v[i], j.v[i])
    [] s.k \in {"opt", "ptr", "aptr"} -> IF v = <<>> THEN IsNull(j) ELSE Shows(s.t, v[1], j)
    [] s.k = "unit" -> TRUE
    [] s.k = "cs" -> j.t = "s" /\ j.v = v
    [] s.k = "buf" -> j.t = "s" /\ HexOf(j.v) = v
    [] s.k = "en" -> j.t = "o" /\ "data" \in DOMAIN j.v
                     /\ IF v.data = <<>> THEN IsNull(j.v["data"])
                        ELSE Field([k |-> "al", n |-> 1, t |-> s.vars[v.data[1].v].t], v.data[1].d, j.v["data"], v.data[1].v)
    [] s.k = "al" -> Shows(s.t, v, j)

(* ---- Observed sessions.  e.bins[g] is the binary of generation g, as the libraries write it; a disk gives the number of  *)
(* the bytes each file holds (absent: no file).  Two files of equal content hold the same bytes.                            *)
RECURSIVE Disks(_, _, _, _)
Disks(disk, runs, ext, class) == IF runs = <<>> THEN <<>> ELSE LET d == RunTool(disk, runs[1], ext, class) IN <<d>> \o Disks(d, Tail(runs), ext, class)
Named(files) == [n \in {files[i].name : i \in 1..Len(files)} |-> LET i == CHOOSE i \in 1..Len(files) : files[i].name = n IN files[i].c]
SessionJudge(e) ==
  LET d0 == Named(e.start)
      want == Disks(d0, e.runs, e.ext, e.class)
      got(i) == Named(e.disks[i])
      all == {<<i, n>> : i \in 1..Len(want), n \in UNION {DOMAIN want[i] : i \in 1..Len(want)}}
      here == {x \in all : x[2] \in DOMAIN want[x[1]]}
      num(x) == got(x[1])[x[2]]
      cont(x) == want[x[1]][x[2]]
  IN IF Len(e.disks) # Len(e.runs) THEN "a run is missing"
     ELSE IF \E i \in 1..Len(want) : DOMAIN want[i] \ DOMAIN got(i) # {} THEN "an output file is missing"
     ELSE IF \E i \in 1..Len(want) : DOMAIN got(i) \ DOMAIN want[i] # {} THEN "an unexpected file appears"
     ELSE IF \E x \in here : x[2] \in DOMAIN d0 /\ cont(x) = d0[x[2]] /\ num(x) # Named(e.first)[x[2]] THEN "an input or unrelated file changes"
     ELSE IF \E x \in here : cont(x).t = "bin" /\ num(x) # e.bins[cont(x).g] THEN "the binary is not the one it came from"
     ELSE IF \E x \in here : \E y \in here : cont(x) = cont(y) /\ cont(x).t # "junk" /\ num(x) # num(y) THEN "the same conversion gives different files"
     ELSE IF \E i \in 1..Len(e.texts) : e.texts[i].v # e.loads[e.texts[i].g] THEN "the JSON is not the data of the file"
     ELSE ""
ShownJudge(e) ==
  LET t == CASE e.fmt = "MeshEx" -> MeshExSchema [] e.fmt = "Adj" -> AdjSchema [] OTHER -> VersionNamed(e.fmt, e.ver).t
      top == e.j
      inner == IF e.fmt \in {"MeshEx", "Adj"} THEN top
               ELSE IF top.t = "o" /\ e.fmt \in DOMAIN top.v /\ top.v[e.fmt].t = "o" /\ e.ver \in DOMAIN top.v[e.fmt].v THEN top.v[e.fmt].v[e.ver] ELSE [t |-> "wrong"]
  IN IF inner.t = "wrong" THEN "the JSON does not name the format and version"
     ELSE IF ~Shows(t, e.val, inner) THEN "the JSON does not show the value" ELSE ""
=============================================================================
