-------------------------------- MODULE Bulk --------------------------------
(* Very many of one thing: beyond what 8, 15 and 16 bits count. Each element *)
(* is recorded as a number (its value, or a number computed from all of it); *)
(* what happens to the elements is stated for sequences of any length.       *)
EXTENDS Bytes

(* Parts of a buffer, from..to, are inside it and do not touch each other. *)
Apart(p, len) == \A i \in 1..Len(p) : p[i][1] = p[i][2] \/ (p[i][2] <= len /\ (\A j \in 1..Len(p) : i = j \/ p[j][1] = p[j][2] \/ p[i][2] <= p[j][1] \/ p[j][2] <= p[i][1]))

(* e.ins went in, e.r.v came out; e.counts are numbers of elements as stored in the file. *)
Many(e) ==
  IF e.what = "refused" THEN (IF e.r.k = "err" THEN "" ELSE "many elements: what is invalid is saved")
  ELSE IF e.r.k # "ok" THEN "many elements: " \o e.r.e
  ELSE LET a == e.ins
           z == e.r.v
           n == Len(a)
           stored == IF e.what = "most" /\ e.n > 255 THEN 255 ELSE e.n       \* in eight bits: the most they hold
       IN IF \E i \in 1..Len(e.counts) : UInt(e.counts[i]) # stored THEN "many elements: the stored count is another"
          ELSE CASE e.what = "same"    -> IF Len(z) # n THEN "many elements: another number of elements came back"
                                          ELSE IF z # a THEN "many elements: other elements came back" ELSE ""
                 [] e.what \in {"counts", "most"} -> ""
                 (* what each object uses of a buffer lies inside it and apart from what the others use *)
                 [] e.what = "regions" -> IF \A b \in 1..Len(z) : Apart(z[b].parts, z[b].len) THEN "" ELSE "many elements: the data of two objects overlaps or lies outside the buffer"
                 [] e.what = "scaled"  -> IF Len(z) = n /\ \A i \in 1..n : z[i] = 2 * a[i] + 5 THEN "" ELSE "many elements: not every one is transformed"
                 [] e.what = "bounds"  -> IF /\ Len(z) = 2
                                             /\ \A i \in 1..n : z[1] <= a[i] /\ a[i] <= z[2]
                                             /\ \E i \in 1..n : a[i] = z[1]
                                             /\ \E i \in 1..n : a[i] = z[2]
                                          THEN "" ELSE "many elements: the bounds are not the least and the greatest"
                 (* every one adds its own to what the one above it has *)
                 [] e.what = "sums"    -> IF Len(z) = n /\ \A i \in 1..n : z[i] = a[i].own + (IF a[i].up = 0 THEN 0 ELSE z[a[i].up]) THEN "" ELSE "many elements: one does not add to what the one above it has"
                 [] e.what = "indices" -> IF z = [i \in 1..(a[1] + a[2]) |-> IF i <= a[1] THEN i - 1 ELSE i - 1 - a[1]]
                                          THEN "" ELSE "many elements: the indices do not list every element of both kinds"
=============================================================================
