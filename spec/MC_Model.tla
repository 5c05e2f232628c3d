------------------------------ MODULE MC_Model ------------------------------
(* Listing the constraints of a file one by one: first the aim constraints,     *)
(* then the orient constraints, each once.                                      *)
EXTENDS Model, Json
CONSTANTS MaxAim, MaxOrient
VARIABLES na, no, indices, types
vars == <<na, no, indices, types>>
Init == na \in 0..MaxAim /\ no \in 0..MaxOrient /\ indices = <<>> /\ types = <<>>
Count(t) == Cardinality({i \in 1..Len(types) : types[i].v = t})
Next == /\ Len(indices) < na + no
        /\ LET t == IF Count("Aim") < na THEN "Aim" ELSE "Orient"
           IN indices' = Append(indices, LE(Count(t), 4)) /\ types' = Append(types, Unit0(t))
        /\ UNCHANGED <<na, no>>
Spec == Init /\ [][Next]_vars
H == [aim_constraints |-> [i \in 1..na |-> i], orient_constraints |-> [i \in 1..no |-> i], constraint_indices |-> indices, constraint_types |-> types]
Listed == Len(indices) = na + no
Right == /\ Listed = ConstraintsListed(H)
         /\ Listed => {<<types[i].v, UInt(indices[i])>> : i \in 1..Len(indices)} = ({"Aim"} \X (0..na - 1)) \cup ({"Orient"} \X (0..no - 1))
Emit == IF Listed THEN PrintT(<<"GEN", ToJson([na |-> na, no |-> no])>>) ELSE TRUE
=============================================================================
