---------------------------- MODULE MC_Transform ----------------------------
(* Transforming lists element by element: the identity changes nothing, two     *)
(* transforms in a row are the transform by their product, and the difference   *)
(* of two transformed points is the transformed difference, for small integer   *)
(* matrices (also such that change the fourth coordinate).                       *)
EXTENDS Transform, Json
CONSTANTS Values, Dims, MaxLen
VARIABLES dim, pts, m, m2, out, at
vars == <<dim, pts, m, m2, out, at>>
(* matrices by columns *)
Scaling == << <<2, 0, 0, 0>>, <<0, 3, 0, 0>>, <<0, 0, 5, 0>>, <<0, 0, 0, 1>> >>
Moving == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<7, 11, 13, 1>> >>
Turning == << <<0, 1, 0, 0>>, <<-1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<1, 2, 3, 1>> >>
General == << <<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<9, 10, 11, 12>>, <<13, 14, 15, 16>> >>
Matrices == {Id4(1), Scaling, Moving, Turning, General}
Affine(a) == a[1][4] = 0 /\ a[2][4] = 0 /\ a[3][4] = 0 /\ a[4][4] = 1
ApplyTo(a, p, w) == LET v == <<p[1], p[2], Comp(p, 3, 0), w>>
                    IN [k \in 1..Len(p) |-> IF k = 4 THEN p[4] ELSE a[1][k] * v[1] + a[2][k] * v[2] + a[3][k] * v[3] + a[4][k] * v[4]]
Init == /\ dim \in Dims /\ m \in Matrices /\ m2 \in Matrices /\ out = <<>> /\ at = 1
        /\ \E n \in 0..MaxLen : pts \in [1..n -> [1..dim -> Values]]
Next == /\ at <= Len(pts) /\ out' = Append(out, ApplyTo(m, pts[at], 1)) /\ at' = at + 1 /\ UNCHANGED <<dim, pts, m, m2>>
Spec == Init /\ [][Next]_vars
Right ==
  /\ Len(out) = at - 1 /\ \A i \in 1..Len(out) : Len(out[i]) = dim /\ (dim = 4 => out[i][4] = pts[i][4])
  /\ m = Id4(1) => \A i \in 1..Len(out) : out[i] = pts[i]
  (* with fewer than three components the third is dropped, so products need not compose *)
  /\ (Affine(m) /\ dim >= 3) => \A i \in 1..Len(out) : ApplyTo(m2, out[i], 1) = ApplyTo(Mul4(m2, m), pts[i], 1)
  /\ Affine(m) => \A i, j \in 1..Len(out) :
       LET diff(a, b) == [k \in 1..dim |-> IF k = 4 THEN 0 ELSE a[k] - b[k]]
       IN diff(out[i], out[j]) = ApplyTo(m, diff(pts[i], pts[j]), 0)
Emit == IF at > Len(pts) /\ m2 = Id4(1) THEN PrintT(<<"GEN", ToJson([dim |-> dim, pts |-> pts, m |-> m])>>) ELSE TRUE
=============================================================================
