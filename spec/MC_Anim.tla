------------------------------ MODULE MC_Anim -------------------------------
(* Laying out an animation: groups, nodes and tracks are placed one after       *)
(* another; each track's data goes to the end of the buffer.                    *)
EXTENDS Anim, TLC, Json
CONSTANTS MaxTracks, MaxGroups, MaxNodes, Small, Minors
VARIABLES minor, groups, placed, len, done
vars == <<minor, groups, placed, len, done>>
Pay(t) == (Overhead(t) \div ValueSize(t)) + 1          \* the most frames stored directly
Counts(t) == IF Small THEN {0, Pay(t) + 1} ELSE {0, 1, 2, Pay(t) - 1, Pay(t), Pay(t) + 1, Pay(t) + 2}
Tracks == SumTo([g \in 1..Len(groups) |-> SumTo([n \in 1..Len(groups[g]) |-> Len(groups[g][n])], Len(groups[g]))], Len(groups))
(* bytes of a track stored the way StorageOf says (24 bits in every range that needs some) *)
BitsPer(t) == CASE t = "Boolean" -> 1 [] t = "Transform" -> 24 * 9 + 1 [] OTHER -> 24 * RangesOf[t]
Room(t, n) == IF StorageOf(t, n) # "Compressed" THEN n * ValueSize(t)
              ELSE 16 + 16 * RangesOf[t] + ValueSize(t) + ((n * BitsPer(t) + 7) \div 8)
Init == minor \in Minors /\ groups = <<>> /\ placed = <<>> /\ len = 0 /\ done = FALSE
AddGroup == Len(groups) < MaxGroups /\ groups' = Append(groups, <<>>) /\ UNCHANGED <<placed, len>>
AddNode == /\ groups # <<>> /\ Len(groups[Len(groups)]) < MaxNodes
           /\ groups' = [groups EXCEPT ![Len(groups)] = Append(@, <<>>)] /\ UNCHANGED <<placed, len>>
AddTrack == /\ groups # <<>> /\ groups[Len(groups)] # <<>> /\ Tracks < MaxTracks
            /\ \E t \in AnimTypes : \E n \in Counts(t) :
                 LET g == Len(groups)
                     k == Len(groups[g])
                 IN /\ groups' = [groups EXCEPT ![g][k] = Append(@, [t |-> t, n |-> n])]
                    /\ placed' = Append(placed, [at |-> len, size |-> Room(t, n), n |-> n, t |-> t])
                    /\ len' = len + Room(t, n)
Next == ~done /\ UNCHANGED minor /\ (((AddGroup \/ AddNode \/ AddTrack) /\ UNCHANGED done) \/ (done' = TRUE /\ UNCHANGED <<groups, placed, len>>))
Spec == Init /\ [][Next]_vars
Emit == IF done THEN PrintT(<<"GEN", ToJson([minor |-> minor, groups |-> groups])>>) ELSE TRUE
(* Every byte of the buffer belongs to exactly one track, in order. *)
Tiled == \A i \in 1..Len(placed) : placed[i].at = SumTo([j \in 1..Len(placed) |-> placed[j].size], i - 1)
(* A compressed track is never larger than the same track stored directly would be beyond the header the rule accounts for. *)
Pays == \A i \in 1..Len(placed) :
  LET p == placed[i] IN
  /\ (StorageOf(p.t, p.n) = "Compressed") => (p.n * ValueSize(p.t) > Overhead(p.t))
  /\ (StorageOf(p.t, p.n) = "Direct") => ((p.n - 1) * ValueSize(p.t) <= Overhead(p.t))
=============================================================================
