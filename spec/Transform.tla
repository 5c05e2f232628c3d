------------------------------ MODULE Transform ----------------------------
(* Transforming vertex data and the helpers of vectors and matrices (D16).     *)
EXTENDS Shader

Comp(p, k, other) == IF Len(p) >= k THEN p[k] ELSE other
(* the element p in homogeneous coordinates *)
Homogeneous(p, w) == <<p[1], p[2], Comp(p, 3, F0), w>>
FarExp(S) == \E f \in S : ~IsFinite(f)
(* y is the sum of the products of a[i] and v[i], up to the rounding of four products and their sum *)
IsDot(y, a, v) ==
  LET A == {a[i] : i \in 1..4}
      V == {v[i] : i \in 1..4}
      unit == Low(A) + Low(V) - 150
      e == Min(unit, ExpOf(y))
      prod(i) == LET x == Exact(a[i], Low(A))
                     z == Exact(v[i], Low(V))
                 IN [n |-> x.n # z.n, m |-> BShl(BMul(x.m, z.m), unit - e)]
      size == BAdd(BAdd(prod(1).m, prod(2).m), BAdd(prod(3).m, prod(4).m))
      sum == SAdd(SAdd(prod(1), prod(2)), SAdd(prod(3), prod(4)))
      small == IF e < 8 THEN BShl(<<1>>, 8 - e) ELSE <<>>
  IN IF FarExp(A \cup V) THEN TRUE
     ELSE IF MaxExp(A) + MaxExp(V) > 370 THEN TRUE          \* may overflow
     ELSE IsFinite(y) /\ AbsAtMost(SSub(Exact(y, e), sum), BAdd(BShr(size, 21), small))
(* y is the transformed p: m is a list of columns *)
TransformDiffers(y, p, m, w) ==
  IF Len(y) # Len(p) THEN "number of components changed"
  ELSE IF Len(p) = 4 /\ y[4] # p[4] THEN "the fourth component changed"
  ELSE IF \E k \in 1..Min(3, Len(p)) : ~IsDot(y[k], [c \in 1..4 |-> m[c][k]], Homogeneous(p, w)) THEN "a component is not the product"
  ELSE ""
TransformJudge(e) ==
  LET w == IF e.f = "points" THEN F1 ELSE F0
      a == e.data.d
      b == e.r.v.d
      bad == {i \in 1..Len(a) : TransformDiffers(b[i], a[i], e.m, w) # ""}
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF e.r.v.v # e.data.v THEN "the kind of vectors changed"
     ELSE IF Len(a) # Len(b) THEN "number of elements changed"
     ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN TransformDiffers(b[i], a[i], e.m, w)
     ELSE ""

(* ---- helpers *)
V3(x, y, z) == [x |-> x, y |-> y, z |-> z]
V4(x, y, z, w) == [x |-> x, y |-> y, z |-> z, w |-> w]
IsMin(r, x, y) == IF IsNaN(x) THEN Same(r, y) ELSE IF IsNaN(y) THEN Same(r, x) ELSE r \in {x, y} /\ Key(r) = Min(Key(x), Key(y))
IsMax(r, x, y) == IF IsNaN(x) THEN Same(r, y) ELSE IF IsNaN(y) THEN Same(r, x) ELSE r \in {x, y} /\ Key(r) = Max(Key(x), Key(y))
Three(v) == <<v.x, v.y, v.z>>
Four(v) == <<v.x, v.y, v.z, v.w>>
EachOf(n, R(_, _, _), r, a, b) == \A k \in 1..n : R(r[k], a[k], b[k])
HelperJudge(e) ==
  LET a == e.a
      b == e.b
      r == e.r.v
      a3 == SubSeq(a, 1, 3)
      v3 == V3(a[1], a[2], a[3])
      v4 == V4(a[1], a[2], a[3], a[4])
      one(n, i) == [k \in 1..n |-> IF k = i THEN F1 ELSE F0]
      id(n) == [i \in 1..n |-> one(n, i)]
      cols3(m) == <<Three(m.col1), Three(m.col2), Three(m.col3)>>
      wrong == {n \in {"v3", "v3_array", "v3_from_array", "v3_from_tuple", "v3_into_array", "v3_into_tuple", "v3_extend", "v4", "v4_array", "v4_from_array",
                       "v4_from_tuple", "v4_into_array", "v4_into_tuple", "v4_xyz", "zero3", "one3", "zero4", "one4"} :
                r[n] # CASE n \in {"v3", "v3_from_array", "v3_from_tuple", "v4_xyz"} -> v3
                         [] n \in {"v3_array", "v3_into_array", "v3_into_tuple"} -> a3
                         [] n \in {"v3_extend", "v4", "v4_from_array", "v4_from_tuple"} -> v4
                         [] n \in {"v4_array", "v4_into_array", "v4_into_tuple"} -> a
                         [] n = "zero3" -> V3(F0, F0, F0) [] n = "one3" -> V3(F1, F1, F1)
                         [] n = "zero4" -> V4(F0, F0, F0, F0) [] n = "one4" -> V4(F1, F1, F1, F1)}
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF wrong # {} THEN "wrong value of " \o (CHOOSE n \in wrong : TRUE)
     ELSE IF ~EachOf(3, IsMin, Three(r.v3_min), a, b) \/ ~EachOf(4, IsMin, Four(r.v4_min), a, b) THEN "wrong minimum"
     ELSE IF ~EachOf(3, IsMax, Three(r.v3_max), a, b) \/ ~EachOf(4, IsMax, Four(r.v4_max), a, b) THEN "wrong maximum"
     ELSE IF cols3(r.m3_identity) # id(3) \/ Cols(r.m4_identity) # id(4) THEN "wrong identity"
     ELSE IF r.m3_cols # e.m3 \/ r.m4_cols # e.m4 THEN "the columns differ"
     ELSE IF cols3(r.m3) # e.m3 \/ Cols(r.m4) # e.m4 THEN "a matrix differs from its columns"
     ELSE ""
VectorJudge(e) ==
  LET d == e.data.d
      n == Len(d)
      r == e.r.v
      sizes == {Len(e.attributes[i].d) : i \in 1..Len(e.attributes)}
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF UInt(r.len) # n \/ (r.empty = <<1>>) # (n = 0) THEN "wrong number of elements"
     ELSE IF Len(r.vec4) # n THEN "wrong number of padded elements"
     ELSE IF \E i \in 1..n : r.vec4[i] # Homogeneous(d[i], e.w) THEN "a padded element is wrong"
     ELSE IF Cardinality(sizes) > 1 THEN (IF e.count.k = "err" THEN "" ELSE "attributes of different lengths have no number of vertices")
     ELSE IF e.count.k # "ok" THEN "no number of vertices: " \o e.count.e
     ELSE IF UInt(e.count.v) # (IF sizes = {} THEN 0 ELSE CHOOSE s \in sizes : TRUE) THEN "wrong number of vertices"
     ELSE ""

(* ---- normals of integer positions: the sum of the cross products of the faces, with length 1 *)
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
FaceNormal(P, idx, f) == LET p(k) == P[idx[3 * f - 3 + k] + 1] IN Cross3(Sub3(p(2), p(1)), Sub3(p(3), p(1)))
NormalSum(P, idx, v) ==
  LET RECURSIVE S(_)
      corners(f) == Cardinality({k \in 1..3 : idx[3 * f - 3 + k] = v - 1})
      S(f) == IF f = 0 THEN <<0, 0, 0>>
              ELSE LET c == corners(f)
                       n == FaceNormal(P, idx, f)
                   IN Add3(S(f - 1), <<c * n[1], c * n[2], c * n[3]>>)
  IN S(Len(idx) \div 3)
IsDirection(r, n) ==
  LET x == [k \in 1..3 |-> Fix12(r[k])]
      c == Cross3(x, n)
      size == Abs(n[1]) + Abs(n[2]) + Abs(n[3])
  IN IF n = <<0, 0, 0>> THEN \A k \in 1..3 : IsZero(r[k])
     ELSE /\ \A k \in 1..3 : IsFinite(r[k]) /\ Expo(r[k]) < 128 /\ Abs(c[k]) <= 3 * size
          /\ Dot3(x, n) > 0 /\ Abs(Dot3(x, x) - 16777216) <= 40000
IntPoint(p) == <<IntOf(p[1]), IntOf(p[2]), IntOf(Comp(p, 3, F0))>>
(* ---- tangents of integer positions, normals and texture coordinates: sums over the faces, times 12 *)
UVArea(U, idx, f) ==
  LET u(k) == U[idx[3 * f - 3 + k] + 1]
  IN (u(2)[1] - u(1)[1]) * (u(3)[2] - u(1)[2]) - (u(3)[1] - u(1)[1]) * (u(2)[2] - u(1)[2])
Scaled3(k, v) == <<k * v[1], k * v[2], k * v[3]>>
(* axis 1: the direction of growing u; axis 2: of growing v *)
FaceTangent(P, U, idx, f, axis) ==
  LET u(k) == U[idx[3 * f - 3 + k] + 1]
      p(k) == P[idx[3 * f - 3 + k] + 1]
      a == Sub3(p(2), p(1))
      b == Sub3(p(3), p(1))
      d == UVArea(U, idx, f)
      k == IF d = 0 THEN 12 ELSE IF d > 0 THEN 12 \div d ELSE -(12 \div (-d))
      v == IF axis = 1 THEN Sub3(Scaled3(u(3)[2] - u(1)[2], a), Scaled3(u(2)[2] - u(1)[2], b))
           ELSE Sub3(Scaled3(u(2)[1] - u(1)[1], b), Scaled3(u(3)[1] - u(1)[1], a))
  IN IF v = <<0, 0, 0>> THEN (IF axis = 1 THEN <<12, 0, 0>> ELSE <<0, 12, 0>>) ELSE Scaled3(k, v)
TangentSum(P, U, idx, v, axis) ==
  LET RECURSIVE S(_)
      corners(f) == Cardinality({k \in 1..3 : idx[3 * f - 3 + k] = v - 1})
      S(f) == IF f = 0 THEN <<0, 0, 0>>
              ELSE LET c == corners(f)
                   IN IF c = 0 THEN S(f - 1) ELSE Add3(S(f - 1), Scaled3(c, FaceTangent(P, U, idx, f, axis)))
      s == S(Len(idx) \div 3)
  IN IF s # <<0, 0, 0>> THEN s ELSE IF axis = 1 THEN <<1, 0, 0>> ELSE <<0, 1, 0>>
Size3(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
(* the rounded sum of thirds may differ from an exact 0 *)
HasThirds(U, idx) == \E f \in 1..(Len(idx) \div 3) : Abs(UVArea(U, idx, f)) = 3
TangentDiffers(t, P, N, U, idx, v) ==
  LET a == TangentSum(P, U, idx, v, 1)
      b == TangentSum(P, U, idx, v, 2)
      d == Dot3(Cross3(a, b), N[v])
  IN IF HasThirds(U, idx) /\ (a = <<1, 0, 0>> \/ b = <<0, 1, 0>>) THEN ""
     ELSE IF ~IsDirection(SubSeq(t, 1, 3), a) THEN "a tangent is not the normalized sum of its faces' tangents"
     ELSE IF Abs(d) >= 1 + (Size3(a) * Size3(b)) \div 2000 /\ t[4] # (IF d > 0 THEN F1 ELSE Neg(F1)) THEN "a tangent has the wrong sign"
     ELSE ""
TangentsDiffer(e, t, P, idx) ==
  LET N == [i \in 1..Len(e.normals) |-> IntPoint(e.normals[i])]
      U == [i \in 1..Len(e.uvs) |-> IntPoint(e.uvs[i])]
      bad == {v \in 1..Len(t) : TangentDiffers(t[v], P, N, U, idx, v) # ""}
  IN IF e.kind # "tangents" \/ bad = {} THEN "" ELSE TangentDiffers(t[CHOOSE v \in bad : TRUE], P, N, U, idx, CHOOSE v \in bad : TRUE)
NormalJudge(e) ==
  LET P == [i \in 1..Len(e.data.d) |-> IntPoint(e.data.d[i])]
      idx == [i \in 1..Len(e.idx) |-> UInt(e.idx[i])]
      r == e.r.v
      t == e.tangents.v
      expected == IF idx = <<>> THEN 0 ELSE Len(P)
      same == Len(e.normals) = Len(P) /\ Len(e.uvs) = Len(P)
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF Len(r) # expected THEN "number of normals differs from the number of positions"
     ELSE IF \E v \in 1..Len(r) : ~IsDirection(r[v], NormalSum(P, idx, v)) THEN "a normal is not the normalized sum of its faces' normals"
     ELSE IF ~same \/ Len(idx) % 3 # 0 THEN (IF e.tangents.k = "err" THEN "" ELSE "tangents of attributes of different lengths or of incomplete faces")
     ELSE IF e.tangents.k # "ok" THEN "no tangents: " \o e.tangents.e
     ELSE IF Len(t) # Len(P) THEN "number of tangents differs from the number of positions"
     ELSE IF \E v \in 1..Len(t) : t[v][4] \notin {F1, Neg(F1)} THEN "the sign of a tangent is neither 1 nor -1"
     ELSE TangentsDiffer(e, t, P, idx)
=============================================================================
