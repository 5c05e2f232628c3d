------------------------------- MODULE Stable ------------------------------
(* Saving as a function of the value alone, and repeated saving and loading    *)
(* (D17).                                                                       *)
EXTENDS Transform

(* What one more save and load may change: nothing but compressed animation values. *)
KeptBy(fmt, x, y) == IF fmt = "Anim" THEN AnimKept(x, y) ELSE IF x = y THEN "" ELSE "the value changed"
(* h: the saves in the order they happened, each with the value saved and its outcome *)
IsFunction(h) == \A i, j \in 1..Len(h) : h[i].v = h[j].v => h[i].out = h[j].out
HistoryJudge(e) ==
  LET h == e.hist
  IN IF \E i \in 1..Len(h) : h[i].out.k = "panic" THEN "saving panics"
     ELSE IF ~IsFunction(h) THEN "saving the same value twice gives different bytes" ELSE ""
(* Version 1.8 meshes have no binormals: an object of nothing else has no vertices left for its indices. *)
Hollow(o) == Len(o.vertex_indices) > 0 /\ \A u \in DOMAIN FieldOf : o[FieldOf[u]] = <<>>
(* g: what the first and later loads yield; out: the files they were loaded from *)
GenerationJudge(e) ==
  LET bad == {i \in 1..Len(e.g) : e.g[i].k # "ok"}
      diff == {i \in 2..Len(e.g) : KeptBy(e.fmt, e.g[i - 1].v, e.g[i].v) # ""}
  IN IF e.fmt = "Mesh" /\ e.g[1].k = "ok" /\ \E k \in 1..Len(e.g[1].v.objects) : Hollow(e.g[1].v.objects[k]) THEN ""
     ELSE IF bad # {} THEN "a generation cannot be saved and loaded: " \o e.g[CHOOSE i \in bad : \A j \in bad : i <= j].e
     ELSE IF diff # {} THEN LET i == CHOOSE i \in diff : TRUE IN "loading a file saved from loaded data: " \o KeptBy(e.fmt, e.g[i - 1].v, e.g[i].v)
     ELSE IF e.fmt # "Anim" /\ \E i \in 3..Len(e.out) : e.out[i] # e.out[2] THEN "files of equal values differ"
     ELSE ""
=============================================================================
