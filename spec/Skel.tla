------------------------------- MODULE Skel --------------------------------
(* Skeletons (D10).  Matrices are four columns of four numbers.                *)
EXTENDS Mesh

(* ---- parents: element b is 0 for a root, otherwise a 1 based bone; bones beyond the last are absent *)
UpOf(up, b) == IF up[b] \in 1..Len(up) THEN up[b] ELSE 0
RECURSIVE Chain(_, _, _)
Chain(up, b, n) == IF b = 0 THEN <<>> ELSE IF n = 0 THEN <<0>> ELSE <<b>> \o Chain(up, UpOf(up, b), n - 1)
ChainOf(up, b) == Chain(up, b, Len(up))      \* from b to its root; contains 0 when it never ends
Endless(up, b) == \E i \in 1..Len(ChainOf(up, b)) : ChainOf(up, b)[i] = 0
Cyclic(up) == \E b \in 1..Len(up) : Endless(up, b)

(* ---- numbers *)
(* the integer a float stands for, if its magnitude is below 2^24 *)
IntOf(f) ==
  LET s == 150 - Exp1(f)
      m == IF s > 24 THEN 0 ELSE IF s >= 0 THEN Full(f) \div P2(s) ELSE 16777216
  IN IF Sign(f) = 1 THEN -m ELSE m
(* an integer below 2^13, so that products of matrices stay below 2^31 *)
IsInt(f) == IsZero(f) \/ (Expo(f) \in 127..139 /\ Full(f) % P2(150 - Expo(f)) = 0)
(* f * 2^12, rounded towards zero; magnitudes up to 2^11 *)
Fix12(f) ==
  LET s == 138 - Exp1(f)
      m == IF s > 24 THEN 0 ELSE IF s >= 0 THEN Full(f) \div P2(s) ELSE 16777216
  IN IF Sign(f) = 1 THEN -m ELSE m
Map4(m, F(_)) == [c \in 1..4 |-> [r \in 1..4 |-> F(m[c][r])]]
Mul4(a, b) == [c \in 1..4 |-> [r \in 1..4 |-> a[1][r] * b[c][1] + a[2][r] * b[c][2] + a[3][r] * b[c][3] + a[4][r] * b[c][4]]]
Id4(one) == [c \in 1..4 |-> [r \in 1..4 |-> IF c = r THEN one ELSE 0]]
Near4(a, b, tol) == \A c, r \in 1..4 : Abs(a[c][r] - b[c][r]) <= tol
AllInt(m) == \A c, r \in 1..4 : IsInt(m[c][r])
Finite4(m) == \A c, r \in 1..4 : IsFinite(m[c][r])
Small4(m) == Finite4(m) /\ \A c, r \in 1..4 : Expo(m[c][r]) < 129      \* below 4
Same4(a, b) == \A c, r \in 1..4 : Same(a[c][r], b[c][r])
Cols(m) == [c \in 1..4 |-> LET v == CASE c = 1 -> m.col1 [] c = 2 -> m.col2 [] c = 3 -> m.col3 [] c = 4 -> m.col4
                           IN <<v.x, v.y, v.z, v.w>>]

(* ---- scaled and turned by quarters: the first three columns have one entry each, a power of two, in different rows;
   the last column is any translation.  Products of them with numbers are exact at every scale. *)
IsPow(f) == Expo(f) \in 1..254 /\ Mant(f) = 0
RowOf(m, c) == CHOOSE r \in 1..3 : ~IsZero(m[c][r])
Axial(m) == /\ \A c \in 1..3 : IsZero(m[c][4]) /\ (\E r \in 1..3 : IsPow(m[c][r]) /\ (\A q \in 1..3 : q = r \/ IsZero(m[c][q])))
            /\ \A c, b \in 1..3 : c = b \/ RowOf(m, c) # RowOf(m, b)
            /\ m[4][4] = F1
            /\ \A r \in 1..3 : IsZero(m[4][r]) \/ Expo(m[4][r]) \in 1..254
(* y = x * p for a power p of two *)
TimesPow(x, p, y) == IF IsZero(x) THEN IsZero(y)
                     ELSE Mant(y) = Mant(x) /\ Expo(y) = Expo(x) + Expo(p) - 127 /\ Sign(y) = (Sign(x) + Sign(p)) % 2
(* i undoes m *)
AxialInverse(m, i) ==
  /\ \A c \in 1..3 : LET r == RowOf(m, c)
                     IN /\ TimesPow(i[r][c], m[c][r], F1)
                        /\ \A q \in 1..4 : q = c \/ IsZero(i[r][q])
                        /\ TimesPow(i[4][c], m[c][r], Neg(m[4][r])) \/ (IsZero(m[4][r]) /\ IsZero(i[4][c]))
  /\ i[4][4] = F1
(* the first three columns of w = p * l *)
AxialProduct(w, p, l) == \A c \in 1..3 : LET r == RowOf(l, c) IN \A q \in 1..4 : TimesPow(p[r][q], l[c][r], w[c][q])

(* w = p * l: exactly for integers, else up to rounding.  Mul4 stays below 2^31 for factors below 4 scaled by 2^12. *)
IsProduct(w, p, l) ==
  IF Finite4(p) /\ Finite4(l) /\ Axial(p) /\ Axial(l) /\ ~AxialProduct(w, p, l) THEN FALSE
  ELSE IF AllInt(p) /\ AllInt(l) /\ AllInt(w) THEN Map4(w, IntOf) = Mul4(Map4(p, IntOf), Map4(l, IntOf))
  ELSE IF Small4(p) /\ Small4(l) THEN
    Finite4(w) /\ LET x == Mul4(Map4(p, Fix12), Map4(l, Fix12))
                  IN \A c, r \in 1..4 : Abs(Fix12(w[c][r]) - x[c][r] \div 4096) <= 160
  ELSE TRUE
IsInverse(m, i) ==
  IF Finite4(m) /\ Axial(m) THEN AxialInverse(m, i)
  ELSE IF AllInt(m) /\ AllInt(i) THEN Mul4(Map4(m, IntOf), Map4(i, IntOf)) = Id4(1)
  ELSE IF Small4(m) /\ Small4(i) THEN Near4(Mul4(Map4(m, Fix12), Map4(i, Fix12)), Id4(16777216), 300000)
  ELSE TRUE

ParentsOf(d) == [b \in 1..Len(d.bones) |-> IF d.bones[b].parent_index = <<>> THEN 0 ELSE Min(UInt(d.bones[b].parent_index[1]), 100000) + 1]
(* the world transforms worlds of the bones of d (each a matrix) *)
WorldsOk(d, up, worlds) ==
  \A b \in 1..Len(d.bones) :
    IF UpOf(up, b) = 0 THEN Same4(worlds[b], d.bones[b].transform)
    ELSE IsProduct(worlds[b], worlds[UpOf(up, b)], d.bones[b].transform)
SkelJudge(e) ==
  LET d == e.data
      up == ParentsOf(d)
      n == Len(d.bones)
      s == e.lib.v.d
      W == [b \in 1..n |-> Cols(s.world_transforms[b])]
      bad(b) == LET x == e.worlds[b] IN IF x.k = "panic" THEN TRUE ELSE (x.k = "ok") = Endless(up, b)
  IN IF e.lib.k = "panic" THEN e.lib.e
     ELSE IF UInt(d.major_version) # 1 \/ UInt(d.minor_version) # 0
          THEN (IF e.lib.k = "err" THEN (IF e.rt.k = "err" THEN "" ELSE "an unsupported version is saved") ELSE "an unsupported version is not refused")
     ELSE IF \E b \in 1..n : bad(b) THEN "the world transform of a bone fails without or succeeds with a cycle above it"
     ELSE IF Cyclic(up) THEN (IF e.lib.k = "err" THEN "" ELSE "a cycle is not refused")
     ELSE IF e.lib.k = "err" THEN "a skeleton without cycle is refused: " \o e.lib.e
     ELSE IF \E m \in {s.world_transforms, s.inv_world_transforms, s.transforms, s.inv_transforms, s.bone_entries} : Len(m) # n THEN "number of bones or transforms differs"
     ELSE IF \E b \in 1..n : ~Same4(W[b], e.worlds[b].v) THEN "saved and calculated world transforms differ"
     ELSE IF ~WorldsOk(d, up, W) THEN "a world transform is not the product of the parent's and the bone's own"
     ELSE IF \E b \in 1..n : ~Same4(Cols(s.transforms[b]), d.bones[b].transform) THEN "a local transform changed"
     ELSE IF e.regular /\ \E b \in 1..n : ~IsInverse(d.bones[b].transform, Cols(s.inv_transforms[b])) THEN "an inverse transform is wrong"
     ELSE IF e.regular /\ \E b \in 1..n : ~IsInverse(W[b], Cols(s.inv_world_transforms[b])) THEN "an inverse world transform is wrong"
     ELSE IF \E b \in 1..n : LET x == s.bone_entries[b] IN UInt(x.index) # b - 1 \/ Text(x.name) # d.bones[b].name
                                \/ x.flags.billboard_type # d.bones[b].billboard_type THEN "a bone entry differs"
     ELSE IF \E b \in 1..n : LET p == SInt(s.bone_entries[b].parent_index)
                             IN IF UpOf(up, b) > 0 THEN p # up[b] - 1 ELSE p \in 0..n - 1 THEN "a parent index differs"
     ELSE IF e.rt.k # "ok" THEN "saving or loading failed: " \o e.rt.e
     ELSE LET x == e.rt.v
              xp == ParentsOf(x)
          IN IF x.major_version # d.major_version \/ x.minor_version # d.minor_version THEN "the version differs after loading"
             ELSE IF Len(x.bones) # n THEN "number of bones differs after loading"
             ELSE IF \E b \in 1..n : x.bones[b].name # d.bones[b].name \/ x.bones[b].billboard_type # d.bones[b].billboard_type
                                     \/ ~Same4(x.bones[b].transform, d.bones[b].transform) \/ UpOf(xp, b) # UpOf(up, b) THEN "a bone differs after loading"
             ELSE ""
(* e.rel is the transform relative to e.p of something with the world transform e.w. *)
RelJudge(e) ==
  IF e.r.k # "ok" THEN e.r.e
  ELSE IF e.p = <<>> THEN (IF Same4(e.r.v, e.w) THEN "" ELSE "without parent the transform changed")
  ELSE IF IsProduct(e.w, e.p[1], e.r.v) THEN ""
  ELSE IF IsProduct(e.w, e.r.v, e.p[1]) THEN "the relative transform undoes the composition on the wrong side"
  ELSE "the relative transform does not undo the composition"
(* skeletons in files with any entries *)
SkelFileJudge(s, r) ==
  LET n == Min(Len(s.bone_entries), Len(s.transforms))
  IN IF r.k # "ok" THEN r.e
     ELSE IF Len(r.v.bones) # n THEN "number of bones differs"
     ELSE IF \E b \in 1..n : LET x == s.bone_entries[b]
                                 y == r.v.bones[b]
                             IN y.name # Text(x.name) \/ ~Same4(y.transform, Cols(s.transforms[b])) \/ y.billboard_type # x.flags.billboard_type
                                \/ y.parent_index # (IF SInt(x.parent_index) < 0 THEN <<>> ELSE <<x.parent_index \o Zeros(6)>>)
          THEN "a bone differs from the file" ELSE ""
=============================================================================
