------------------------------ MODULE Adjacent ------------------------------
(* Adjacency (D13): entries address a shared list of indices; the adjacency of  *)
(* a triangle list.                                                             *)
EXTENDS Model

(* ---- files: offsets count bytes, indices have 16 bits *)
AdjLoad(a) ==
  LET n == Len(a.entries)
      lo(i) == UInt(a.entries[i].index_buffer_offset) \div 2
      hi(i) == IF i = n THEN Len(a.index_buffer) ELSE lo(i + 1)
      Out(i) == lo(i) > hi(i) \/ hi(i) > Len(a.index_buffer)
      bad == {i \in 1..n : Out(i)}
  IN IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                      IN [k |-> "err", e |-> [e |-> "BufferOffsetOutOfRange", start |-> UInt(a.entries[i].index_buffer_offset),
                                              end |-> IF i = n THEN 2 * Len(a.index_buffer) ELSE UInt(a.entries[i + 1].index_buffer_offset), size |-> 2 * Len(a.index_buffer)]]
     ELSE [k |-> "ok", v |-> [entries |-> [i \in 1..n |-> [mesh_object_index |-> a.entries[i].mesh_object_index \o Zeros(4),
                                                           vertex_adjacency |-> SubSeq(a.index_buffer, lo(i) + 1, hi(i))]]]]
AdjFits(d) == \A i \in 1..Len(d.entries) : SubSeq(d.entries[i].mesh_object_index, 5, 8) = Zeros(4)
AdjSave(d) ==
  LET before(i) == 2 * SumTo([j \in 1..i - 1 |-> Len(d.entries[j].vertex_adjacency)], i - 1)
  IN [entries |-> [i \in 1..Len(d.entries) |-> [mesh_object_index |-> SubSeq(d.entries[i].mesh_object_index, 1, 4), index_buffer_offset |-> LE(before(i), 4)]],
      index_buffer |-> Concat([i \in 1..Len(d.entries) |-> d.entries[i].vertex_adjacency])]
AdjDataJudge(e) ==
  IF e.lib.k = "panic" THEN e.lib.e
  ELSE IF ~AdjFits(e.data) THEN (IF e.lib.k = "err" /\ e.rt.k = "err" THEN "" ELSE "an object index of more than 32 bits is not refused")
  ELSE IF e.lib.k = "err" THEN "adjacency data is refused: " \o e.lib.e
  ELSE IF e.lib.v # AdjSave(e.data) THEN "the entries do not address their indices"
  ELSE IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e
  ELSE IF e.rt.v # e.data THEN "the loaded data differs" ELSE ""
AdjFileJudge(a, r) ==
  LET want == AdjLoad(a)
  IN IF r.k = "panic" THEN r.e
     ELSE IF want.k # r.k THEN (IF r.k = "ok" THEN "entries outside of the indices are loaded" ELSE "a valid file is refused")
     ELSE IF want.k = "ok" /\ want.v # r.v THEN "the data loaded differs from what the file stores"
     ELSE IF want.k = "err" /\ r.e.e # "BufferOffsetOutOfRange" THEN "the error names another condition"
     ELSE ""

(* ---- triangle lists: idx has three vertices (from 0) per face *)
Corner(idx, f, c) == idx[3 * (f - 1) + c]
(* what face f adds to the adjacency of vertex v: per corner at v, the next two corners *)
FaceAt(idx, f, v) ==
  Concat([c \in 1..3 |-> IF Corner(idx, f, c) = v THEN <<Corner(idx, f, (c % 3) + 1), Corner(idx, f, ((c + 1) % 3) + 1)>> ELSE <<>>])
FacesAt(idx, v) == Concat([f \in 1..Len(idx) \div 3 |-> FaceAt(idx, f, v)])
(* same(u, v): vertices u and v (from 0 below n) have the same position *)
AdjacencyOf(n, same(_, _), idx, v) == Concat([u \in 1..n |-> IF same(u - 1, v) THEN FacesAt(idx, u - 1) ELSE <<>>])
Resized(s, n, x) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE x]
PerVertex == 18
TriAdjacency(n, same(_, _), idx) ==
  Concat([v \in 1..n |-> LET s == AdjacencyOf(n, same, idx, v - 1)
                         IN [i \in 1..PerVertex |-> IF i <= Len(s) THEN LE(s[i], 2) ELSE <<255, 255>>]])
SamePlace(p, q) == \A i \in 1..Len(p) : Key(p[i]) = Key(q[i])
TriJudge(e) ==
  LET n == Len(e.pos)
      same(u, v) == SamePlace(e.pos[u + 1], e.pos[v + 1])
      want == TriAdjacency(n, same, [i \in 1..Len(e.idx) |-> UInt(e.idx[i])])
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF e.r.v.mesh_object_index # e.object THEN "the object index differs"
     ELSE IF Len(e.r.v.vertex_adjacency) # PerVertex * n THEN "not 18 indices per vertex"
     ELSE IF e.r.v.vertex_adjacency # want THEN "the adjacent vertices are wrong" ELSE ""
=============================================================================
