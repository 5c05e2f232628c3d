------------------------------ MODULE MC_Mesh -------------------------------
(* How saving a mesh fills its buffers: one object after the other is placed    *)
(* at the end of each buffer.  The state is the placement so far; every         *)
(* reachable sequence of object shapes is a scenario for the code.              *)
EXTENDS Mesh, TLC, Json

CONSTANTS MaxObjects, Wide1
(* A shape: component counts of the attributes of each usage, vertices, indices, influences. *)
Lists == IF Wide1 THEN {<<>>, <<2>>, <<3>>, <<4>>, <<3, 2>>, <<4, 4>>} ELSE {<<>>, <<3>>, <<4, 2>>}
Single == {[dims |-> <<a, b, c, d, e, f>>, verts |-> 2, idx |-> 3, infl |-> 1] :
             a \in Lists, b \in Lists, c \in Lists, d \in Lists, e \in Lists, f \in Lists}
Shapes == {[dims |-> <<<<3>>, <<>>, <<>>, <<>>, <<>>, <<>>>>, verts |-> 1, idx |-> 3, infl |-> 0],
           [dims |-> <<<<3>>, <<4>>, <<4, 3>>, <<4>>, <<2, 2>>, <<4>>>>, verts |-> 3, idx |-> 6, infl |-> 2],
           [dims |-> <<<<>>, <<>>, <<>>, <<>>, <<2>>, <<4>>>>, verts |-> 2, idx |-> 0, infl |-> 1],
           [dims |-> <<<<2>>, <<3>>, <<3>>, <<>>, <<>>, <<2, 3>>>>, verts |-> 5, idx |-> 3, infl |-> 0],
           [dims |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>, verts |-> 0, idx |-> 0, infl |-> 1],
           [dims |-> <<<<4>>, <<>>, <<>>, <<4>>, <<>>, <<>>>>, verts |-> 0, idx |-> 0, infl |-> 0]}

VARIABLES ver, objs, free, places
vars == <<ver, objs, free, places>>

AttrsOf(v, s) ==
  LET us == UsagesOf(v)
      at(u) == CHOOSE k \in 1..6 : Usages[k] = u
  IN Concat([k \in 1..Len(us) |-> [i \in 1..Len(s.dims[at(us[k])]) |->
       [u |-> us[k], t |-> TypeFor(v, us[k], s.dims[at(us[k])][i])]]])
Place(v, s, f) ==
  LET as == AttrsOf(v, s)
      n == IF \A k \in 1..6 : s.dims[k] = <<>> THEN 0 ELSE s.verts
  IN [off |-> f, stride |-> <<StrideOf(as, 0), StrideOf(as, 1), IF v = "V10" THEN 0 ELSE 32>>, n |-> n,
      pack |-> Pack(as), as |-> as]
Ends(p) == <<p.off[1] + p.n * p.stride[1], p.off[2] + p.n * p.stride[2], p.off[3] + p.n * p.stride[3]>>

Init == ver \in {"V8", "V9", "V10"} /\ objs = <<>> /\ free = <<0, 0, 0>> /\ places = <<>>
Emit(os) == PrintT(<<"GEN", ToJson([ver |-> ver, objects |-> os])>>)
Add(s) ==
  LET p == Place(ver, s, free)
      os == Append(objs, s)
  IN /\ objs' = os
     /\ places' = Append(places, p)
     /\ free' = Ends(p)
     /\ Emit(os)
     /\ UNCHANGED ver
Next == \/ objs = <<>> /\ \E s \in Single : Add(s)
        \/ Len(objs) < MaxObjects /\ (\A i \in 1..Len(objs) : objs[i] \in Shapes) /\ \E s \in Shapes : Add(s)
Spec == Init /\ [][Next]_vars

(* The vertex data of the objects tiles each buffer ... *)
Tiles == \A b \in 1..3 :
   /\ \A i \in 1..Len(places) - 1 : Ends(places[i])[b] = places[i + 1].off[b]
   /\ Len(places) > 0 => places[1].off[b] = 0 /\ Ends(places[Len(places)])[b] = free[b]
Apart == \A b \in 1..3 : Disjoint([i \in 1..Len(places) |-> [lo |-> places[i].off[b], hi |-> Ends(places[i])[b]]])
(* ... and the attributes of an object tile its strides. *)
AttrTile == \A i \in 1..Len(places) : LET p == places[i] IN
   \A b \in {0, 1} :
     LET ks == {k \in 1..Len(p.as) : p.pack[k].b = b}
     IN /\ \A k \in ks : p.pack[k].off + TypeSize(p.as[k].t) <= p.stride[b + 1]
        /\ \A k, l \in ks : k < l => p.pack[k].off + TypeSize(p.as[k].t) <= p.pack[l].off
        /\ (ks = {}) = (p.stride[b + 1] = 0)
=============================================================================
