-------------------------------- MODULE Dump --------------------------------
(* The read/write test of a folder (L10): every file of a known type below the *)
(* folder is read and written again; a file is reported if it cannot be read,  *)
(* or if what is written is not what it holds. No file is changed.             *)
EXTENDS File

DumpKinds ==
  [numatb |-> "Ssbh", numdlb |-> "Ssbh", numshb |-> "Ssbh", nusktb |-> "Ssbh", nurpdb |-> "Ssbh", nufxlb |-> "Ssbh",
   nuanmb |-> "Ssbh", nuhlpb |-> "Ssbh", nushdb |-> "Ssbh", nulstb |-> "Ssbh", numshexb |-> "MeshEx", adjb |-> "Adj"]
Known(ext) == ext \in DOMAIN DumpKinds

DumpRead(kind, b) ==
  CASE kind = "MeshEx" -> MeshExRead(b)
    [] kind = "Adj"    -> AdjRead(b)
    [] OTHER           -> SsbhRead(b)
(* the reports allowed for a file; "" is none, "other" any other line that names the file *)
Reports(ext, b) ==
  IF ~Known(ext) THEN {""}
  ELSE LET k == DumpKinds[ext]
           s == DumpRead(k, b)
           back(x) == IF b = x THEN {""} ELSE {"differs"}
       IN IF ~s.ok THEN {"error"}
          ELSE IF k = "MeshEx" THEN IF MeshExValid(s.v) THEN back(MeshExBytes(s.v)) ELSE {"error", "differs", "other"}
          ELSE IF k = "Adj" THEN back(AdjBytes(s.v))
          ELSE LET x == SsbhBytes(s.f, s.ver, s.v)
               IN IF EmptyBuf(VersionNamed(s.f, s.ver).t, s.v) /\ b \in {x, AlignEnd(x, 8)} THEN {"", "differs"} ELSE back(x)

(* e.files: the files with their reports; e.lines: how many lines name no file; e.kept: no file changed, appeared or vanished *)
DumpFileJudge(f) ==
  IF Len(f.reports) > 1 THEN "a file is reported more than once"
  ELSE LET r == IF f.reports = <<>> THEN "" ELSE f.reports[1]
           want == Reports(f.ext, f.bytes)
       IN IF r \in want THEN ""
          ELSE IF r = "" THEN "a file that does not survive is not reported"
          ELSE IF want = {""} THEN "a file that survives, or is of no known type, is reported"
          ELSE "a file is reported for another reason"
DumpJudge(e) ==
  LET bad == {i \in 1..Len(e.files) : DumpFileJudge(e.files[i]) # ""}
  IN IF e.ends # 0 THEN "the test of a folder does not end normally"
     ELSE IF bad # {} THEN DumpFileJudge(e.files[CHOOSE i \in bad : TRUE])
     ELSE IF ~e.kept THEN "the test of a folder changes files"
     ELSE IF e.lines > 1 THEN "reports for files that are not there" ELSE ""
=============================================================================
