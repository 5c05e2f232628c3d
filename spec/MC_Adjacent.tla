----------------------------- MODULE MC_Adjacent ----------------------------
(* Collecting adjacent vertices in one pass over the faces and one over the     *)
(* vertices at the same position, over all small triangle lists, also with      *)
(* repeated vertices; and reading entries of all small files by one pass.        *)
EXTENDS Adjacent, Json
CONSTANTS MaxVertices, MaxFaces, MaxEntries, MaxOffset
VARIABLES mode, n, class, idx, at, lists, merged, adj
vars == <<mode, n, class, idx, at, lists, merged, adj>>
Init ==
  \/ /\ mode = "faces" /\ at = 1 /\ adj = <<>>
     /\ n \in 1..MaxVertices
     /\ class \in {c \in [0..n - 1 -> 0..n - 1] : \A v \in 0..n - 1 : c[v] <= v /\ c[c[v]] = c[v]}
     /\ \E f \in 0..MaxFaces : idx \in [1..3 * f -> 0..n - 1]
     /\ lists = [v \in 0..n - 1 |-> <<>>] /\ merged = [v \in 0..n - 1 |-> <<>>]
  \/ /\ mode = "entry" /\ at = 1 /\ n = 0 /\ class = <<>> /\ idx = <<>> /\ lists = <<>> /\ merged = <<>>
     /\ \E k \in 0..MaxEntries, len \in 0..(MaxOffset \div 2) :
          \E offs \in [1..k -> 0..MaxOffset] :
            adj = [entries |-> [i \in 1..k |-> [mesh_object_index |-> LE(7 * i, 4), index_buffer_offset |-> LE(offs[i], 4)]],
                   index_buffer |-> [i \in 1..len |-> LE(256 + i, 2)]]
Add(l, a, b, c) == [l EXCEPT ![a] = @ \o <<b, c>>]
Face == /\ mode = "faces" /\ 3 * at <= Len(idx)
        /\ LET a == idx[3 * at - 2]
               b == idx[3 * at - 1]
               c == idx[3 * at]
           IN lists' = Add(Add(Add(lists, a, b, c), b, c, a), c, a, b)
        /\ at' = at + 1 /\ UNCHANGED <<mode, n, class, idx, merged, adj>>
Merge == /\ mode = "faces" /\ 3 * at > Len(idx)
         /\ LET RECURSIVE G(_, _)
                G(v, u) == IF u = n THEN <<>> ELSE (IF class[u] = class[v] THEN lists[u] ELSE <<>>) \o G(v, u + 1)
            IN merged' = [v \in 0..n - 1 |-> G(v, 0)]
         /\ mode' = "merged" /\ UNCHANGED <<n, class, idx, at, lists, adj>>
(* entries in order; the walk stops at the first that leaves the indices *)
Entry == /\ mode = "entry"
         /\ LET k == Len(adj.entries)
                o(i) == IF i > k THEN 2 * Len(adj.index_buffer) ELSE UInt(adj.entries[i].index_buffer_offset)
            IN IF at > k THEN mode' = "loaded" /\ UNCHANGED <<at, lists>>
               ELSE IF (o(at + 1) \div 2) > Len(adj.index_buffer) \/ (o(at) \div 2) > (o(at + 1) \div 2) THEN mode' = "refused" /\ UNCHANGED <<at, lists>>
               ELSE /\ lists' = Append(lists, [mesh_object_index |-> LE(7 * at, 8), vertex_adjacency |-> SubSeq(adj.index_buffer, (o(at) \div 2) + 1, o(at + 1) \div 2)])
                    /\ at' = at + 1 /\ UNCHANGED mode
         /\ UNCHANGED <<n, class, idx, merged, adj>>
Next == Face \/ Merge \/ Entry
Spec == Init /\ [][Next]_vars
Same0(u, v) == class[u] = class[v]
Right == /\ mode = "merged" => /\ \A v \in 0..n - 1 : merged[v] = AdjacencyOf(n, Same0, idx, v)
                               /\ \A u, v \in 0..n - 1 : Same0(u, v) => merged[u] = merged[v]
                               /\ SumTo([v \in 1..n |-> Len(lists[v - 1])], n) = 2 * Len(idx)
                               /\ Len(TriAdjacency(n, Same0, idx)) = PerVertex * n
         /\ mode = "refused" => AdjLoad(adj).k = "err"
         /\ mode = "loaded" => /\ AdjLoad(adj) = [k |-> "ok", v |-> [entries |-> lists]]
                               (* loaded data is saved and loaded unchanged *)
                               /\ AdjLoad(AdjSave([entries |-> lists])) = [k |-> "ok", v |-> [entries |-> lists]]
Emit == IF mode = "merged" THEN PrintT(<<"GEN", ToJson([m |-> "faces", class |-> [v \in 1..n |-> class[v - 1]], idx |-> idx])>>)
        ELSE IF mode \in {"loaded", "refused"} THEN PrintT(<<"GEN", ToJson([m |-> "file", offs |-> [i \in 1..Len(adj.entries) |-> UInt(adj.entries[i].index_buffer_offset)], len |-> Len(adj.index_buffer)])>>)
        ELSE TRUE
=============================================================================
