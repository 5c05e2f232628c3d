---------------------------- MODULE MC_Dispatch ------------------------------
(* Reading a file header as a machine: signature, then type, then version,    *)
(* then data.  TLC explores every combination of the candidate signatures,    *)
(* magics and version numbers and checks that exactly the sixteen supported   *)
(* pairs reach the data, each as its own format and version; every run is a   *)
(* scenario for the code.                                                     *)
EXTENDS File, TLC, Json

CONSTANTS Majors, Minors

Swap(m) == <<m[4], m[3], m[2], m[1]>>
Bump(m, i) == [m EXCEPT ![i] = (@ + 1) % 256]
Known == {SsbhFormats[f].magic : f \in DOMAIN SsbhFormats}
Magics == Known \cup {Swap(m) : m \in Known} \cup {Bump(m, i) : m \in Known, i \in 1..4} \cup {<<0, 0, 0, 0>>, HBSS}
Signatures == {HBSS, Swap(HBSS), <<72, 66, 83, 0>>, <<0, 0, 0, 0>>}

VARIABLES sig, magic, maj, min, stage, fmt, ver
vars == <<sig, magic, maj, min, stage, fmt, ver>>

Init == /\ \/ sig = HBSS /\ magic \in Known /\ maj \in Majors /\ min \in Minors
           \/ sig = HBSS /\ magic \in Magics \ Known /\ maj \in {1, 2} /\ min \in 0..10
           \/ sig \in Signatures /\ magic \in Known /\ maj = 1 /\ min \in 0..10
        /\ stage = "signature" /\ fmt = "" /\ ver = ""
Reject == stage' = "rejected" /\ UNCHANGED <<sig, magic, maj, min, fmt, ver>>
Signature == /\ stage = "signature"
             /\ IF sig = HBSS THEN stage' = "type" /\ UNCHANGED <<sig, magic, maj, min, fmt, ver>> ELSE Reject
Type == /\ stage = "type"
        /\ LET S == {f \in DOMAIN SsbhFormats : SsbhFormats[f].magic = magic}
           IN IF S = {} THEN Reject
              ELSE fmt' = (CHOOSE f \in S : TRUE) /\ stage' = "version" /\ UNCHANGED <<sig, magic, maj, min, ver>>
Version == /\ stage = "version"
           /\ LET vs == SsbhFormats[fmt].vers
                  S == {i \in 1..Len(vs) : vs[i].maj = maj /\ vs[i].min = min}
              IN IF S = {} THEN Reject
                 ELSE ver' = vs[CHOOSE i \in S : TRUE].name /\ stage' = "data" /\ UNCHANGED <<sig, magic, maj, min, fmt>>
Head24 == sig \o Zeros(12) \o magic \o LE(maj, 2) \o LE(min, 2)
Emit == /\ stage \in {"data", "rejected"}
        /\ PrintT(<<"GEN", ToJson([head |-> Head24])>>)
        /\ stage' = IF stage = "data" THEN "accepted" ELSE "refused"
        /\ UNCHANGED <<sig, magic, maj, min, fmt, ver>>
Next == Signature \/ Type \/ Version \/ Emit
Spec == Init /\ [][Next]_vars

Outcome == stage \in {"accepted", "refused"}
(* The machine accepts exactly what the description of files announces, and never two readings. *)
Exact == Outcome => LET A == Announced(Head24) IN
            /\ (stage = "accepted") = (A # {})
            /\ Cardinality(A) <= 1
            /\ \A a \in A : a[1] = fmt /\ SsbhFormats[a[1]].vers[a[2]].name = ver
(* A header written for a version is recognised as that version. *)
Written == stage = "accepted" => LET v == VersionNamed(fmt, ver) IN Slice(Header(SsbhFormats[fmt].magic) \o LE(v.maj, 2) \o LE(v.min, 2), 16, 8) = Slice(Head24, 16, 8)
=============================================================================
