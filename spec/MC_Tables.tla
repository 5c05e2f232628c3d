------------------------------ MODULE MC_Tables -------------------------------
(* The two formats without an SSBH header.  The MeshEx writer is a machine     *)
(* that refuses differing counts before anything is written, then places one   *)
(* table after the other, then closes the file at 16 bytes and stores its      *)
(* length.  TLC explores every small MeshEx and Adj; finished and refused runs  *)
(* are scenarios for the code.                                                 *)
EXTENDS File, TLC, Json

CONSTANTS MaxLen, Names

Nm(n) == [i \in 1..4 |-> (n * 37 + i) % 256]
V3(n) == [x |-> Nm(n), y |-> Nm(n + 1), z |-> Nm(n + 2)]
Sph(n) == [center |-> V3(n), radius |-> Nm(n + 5)]
Grp(n, a, b) == [bounding_sphere |-> Sph(n), mesh_object_full_name |-> a, mesh_object_name |-> b]
Ent(n) == [mesh_object_group_index |-> Nm(n), unk1 |-> V3(n)]
Text(n) == [i \in 1..n |-> 96 + i]
OptText == {<<>>} \cup {<<Text(n)>> : n \in Names}
Lists(E(_)) == {<<>>} \cup {<<[i \in 1..n |-> E(i)]>> : n \in 0..MaxLen}
Groups == {<<>>, <<<<>>>>} \cup {<<<<Grp(1, a, b)>>>> : a, b \in OptText} \cup {<<<<Grp(1, a, <<Text(3)>>), Grp(2, <<Text(4)>>, a)>>>> : a \in OptText}
Alls == {<<>>} \cup {<<[bounding_sphere |-> Sph(9), name |-> a]>> : a \in OptText}
Flag(i) == [bytes |-> <<<<i>>, <<0>>>>]
AdjEnt(n) == [mesh_object_index |-> Nm(n), index_buffer_offset |-> Nm(n + 3)]
Idx(n) == <<n, 255 - n>>

VARIABLES kind, v, stage, tab, dp, offs, placed
vars == <<kind, v, stage, tab, dp, offs, placed>>

Init ==
  /\ \/ kind = "MeshEx" /\ v \in [all_data : Alls, mesh_object_groups : Groups, entries : Lists(Ent), entry_flags : Lists(Flag), unk1 : {Nm(3)}]
     \/ kind = "Adj" /\ v \in [entries : {[i \in 1..n |-> AdjEnt(i)] : n \in 0..MaxLen + 2}, index_buffer : {[i \in 1..n |-> Idx(i)] : n \in 0..MaxLen + 2}]
  /\ stage = "check" /\ tab = 1 /\ dp = 64 /\ offs = <<>> /\ placed = {}

Check == /\ stage = "check"
         /\ stage' = IF kind = "MeshEx" /\ OptLen(v.entries) # OptLen(v.entry_flags) THEN "refuse" ELSE IF kind = "Adj" THEN "close" ELSE "place"
         /\ UNCHANGED <<kind, v, tab, dp, offs, placed>>
(* Table number tab goes to the next multiple of its alignment; what it points to follows it. *)
Place == /\ stage = "place"
         /\ LET f == MeshExFields[tab]
                x == v[f.n]
            IN IF x = <<>> THEN dp' = dp /\ offs' = Append(offs, 0) /\ UNCHANGED placed
               ELSE LET T == RU(dp, Align(f.t.t))
                        n == Size(f.t.t, x[1])
                        e == W(f.t.t, x[1], T, T + n)
                    IN /\ dp' = (IF T + Len(e.i) > e.dp THEN RU(T + n, Align(f.t.t)) ELSE e.dp)
                       /\ offs' = Append(offs, T)
                       /\ placed' = placed \cup {[t |-> tab, lo |-> T, hi |-> T + n]}
         /\ tab' = tab + 1
         /\ stage' = IF tab = 4 THEN "close" ELSE "place"
         /\ UNCHANGED <<kind, v>>
Bytes_ == IF kind = "MeshEx" THEN MeshExBytes(v) ELSE AdjBytes(v)
Emit == /\ stage \in {"close", "refuse"}
        /\ PrintT(<<"GEN", ToJson([kind |-> kind, val |-> v])>>)
        /\ stage' = IF stage = "close" THEN "written" ELSE "refused"
        /\ UNCHANGED <<kind, v, tab, dp, offs, placed>>
Next == Check \/ Place \/ Emit
Spec == Init /\ [][Next]_vars

Aligned == \A x \in placed : x.lo % 16 = 0
Disjoint == \A x, y \in placed : x = y \/ x.hi <= y.lo \/ y.hi <= x.lo
InHeader == \A x \in placed : x.lo >= 64
Refused == stage = "refused" => placed = {} /\ offs = <<>>
(* The finished file: length field, offsets, multiple of 16, and reading gives the value back. *)
Finished ==
  stage = "written" =>
    LET b == Bytes_ IN
    IF kind = "Adj" THEN AdjRead(b).ok /\ Eq(AdjSchema, AdjRead(b).v, v) /\ Len(b) = 4 + 8 * Len(v.entries) + 2 * Len(v.index_buffer)
    ELSE LET r == MeshExRead(b) IN
      /\ Len(b) % 16 = 0 /\ UInt(Slice(b, 0, 8)) = Len(b)
      /\ \A i \in 1..4 : UInt(Slice(b, 8 + 8 * i, 8)) = offs[i]
      /\ \A x \in placed : x.hi <= Len(b)
      /\ r.ok
      /\ Eq(MeshExSchema, v, r.v)
=============================================================================
