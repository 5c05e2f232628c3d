-------------------------------- MODULE Texts -------------------------------
(* Texts, names of enumerations, lists and comparison of values (D20).         *)
EXTENDS File, Floats

(* ---- texts: stored up to the first NUL; shown as text if they are UTF-8 *)
CutAtNul(b) == LET z == {i \in 1..Len(b) : b[i] = 0} IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
(* The number of bytes of the UTF-8 sequence at i, 0 if there is none (Unicode, table 3-7). *)
Utf8At(b, i) ==
  LET n == Len(b)
      x == b[i]
      In(k, lo, hi) == i + k <= n /\ b[i + k] >= lo /\ b[i + k] <= hi
      Tail_(k) == In(k, 128, 191)
  IN CASE x <= 127 -> 1
       [] x >= 194 /\ x <= 223 -> IF Tail_(1) THEN 2 ELSE 0
       [] x = 224 -> IF In(1, 160, 191) /\ Tail_(2) THEN 3 ELSE 0
       [] x = 237 -> IF In(1, 128, 159) /\ Tail_(2) THEN 3 ELSE 0
       [] x >= 225 /\ x <= 239 -> IF Tail_(1) /\ Tail_(2) THEN 3 ELSE 0
       [] x = 240 -> IF In(1, 144, 191) /\ Tail_(2) /\ Tail_(3) THEN 4 ELSE 0
       [] x >= 241 /\ x <= 243 -> IF Tail_(1) /\ Tail_(2) /\ Tail_(3) THEN 4 ELSE 0
       [] x = 244 -> IF In(1, 128, 143) /\ Tail_(2) /\ Tail_(3) THEN 4 ELSE 0
       [] OTHER -> 0
Utf8(b) == LET RECURSIVE G(_)
               G(i) == IF i > Len(b) THEN TRUE ELSE LET n == Utf8At(b, i) IN n > 0 /\ G(i + n)
           IN G(1)
(* how a stored text shows: as text, and as text that is empty if there is none *)
Shown(s) == IF Utf8(s) THEN [str |-> <<s>>, lossy |-> s] ELSE [str |-> <<>>, lossy |-> <<>>]
TextFormJudge(b, f) ==
  LET s == CutAtNul(b)
      want == IF f.null THEN [str |-> <<>>, lossy |-> <<>>] ELSE Shown(s)
  IN IF f.r.k # "ok" THEN f.r.e
     ELSE IF ~f.null /\ f.r.v.held # s THEN "the text holds other bytes"
     ELSE IF f.r.v.str # want.str THEN "to_str differs"
     ELSE IF f.r.v.lossy # want.lossy THEN "to_string_lossy differs"
     ELSE IF f.r.v.json # (IF f.null THEN <<>> ELSE <<want.lossy>>) THEN "the text in JSON differs" ELSE ""
TextJudge(e) == LET bad == {i \in 1..Len(e.forms) : TextFormJudge(e.bytes, e.forms[i]) # ""}
                IN IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : TRUE IN e.forms[i].how \o ": " \o TextFormJudge(e.bytes, e.forms[i])

(* ---- enumerations with names: numbers, names and variants correspond *)
EnumTables == [ParamId |-> ParamId.vars, FillMode |-> FillMode.vars, CullMode |-> CullMode.vars, WrapMode |-> WrapMode.vars, MinFilter |-> MinFilter.vars,
  MagFilter |-> MagFilter.vars, FilteringType |-> FilteringType.vars, MaxAnisotropy |-> MaxAnisotropy.vars, BlendFactor |-> BlendFactor.vars,
  BlendOperation |-> BlendOperation.vars, GroupType |-> GroupType.vars, BillboardType |-> Billboard.vars, UnkFormat |-> UnkFormat.vars]
Wide8(b) == b \o Zeros(8 - Len(b))
(* e.num: a number of 8 bytes; e.named: the name of its variant, if any; e.parsed: the number of the variant of that name *)
EnumJudge(e) ==
  LET t == EnumTables[e.enum]
      ns == {x \in DOMAIN t : Wide8(t[x]) = e.num}
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF ns = {} THEN (IF e.r.v.named = <<>> THEN "" ELSE "a number without a variant has one")
     ELSE IF e.r.v.named = <<>> THEN "the number of a variant has none"
     ELSE IF e.r.v.named[1] \notin ns THEN "the number belongs to another variant"
     ELSE IF e.r.v.number # e.num THEN "the variant has another number"
     ELSE IF e.r.v.parsed # <<e.num>> THEN "the name of a variant denotes another one" ELSE ""
(* e.name: a text; e.r.v: the number of the variant of that name, if any *)
NameJudge(e) ==
  LET t == EnumTables[e.enum]
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF e.r.v # (IF e.name \in DOMAIN t THEN <<Wide8(t[e.name])>> ELSE <<>>) THEN "the name denotes another variant" ELSE ""
ListJudge(e) ==
  LET t == EnumTables[e.enum]
      s == e.names
  IN IF {s[i] : i \in 1..Len(s)} # DOMAIN t \/ Len(s) # Cardinality(DOMAIN t) THEN "not every variant is listed once" ELSE ""

(* ---- comparison: 1 equal, 0 different, 2 if it depends on whether four bytes are a float *)
NanLike(b) == b[4] % 128 = 127 /\ b[3] >= 128 /\ (b[3] > 128 \/ b[2] > 0 \/ b[1] > 0)
ZeroLike(b) == b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] % 128 = 0
Cell4(a, b) == IF a = b THEN (IF NanLike(a) THEN 2 ELSE 1) ELSE IF ZeroLike(a) /\ ZeroLike(b) THEN 2 ELSE 0
(* all parts equal; a part that differs decides *)
Both(S) == IF 0 \in S THEN 0 ELSE IF 2 \in S THEN 2 ELSE 1
RECURSIVE Alike(_, _, _)
AlikeAll(t, a, b) == IF Len(a) # Len(b) THEN 0 ELSE Both({Alike(t, a[i], b[i]) : i \in 1..Len(a)})
Alike(s, a, b) ==
  CASE s.k = "b" -> IF s.n = 4 THEN Cell4(a, b) ELSE IF a = b THEN 1 ELSE 0
    [] s.k \in {"buf", "cs"} -> IF a = b THEN 1 ELSE 0
    [] s.k = "bits" -> IF a.bytes = b.bytes THEN 1 ELSE 0
    [] s.k = "rep" -> IF a.v = b.v THEN 1 ELSE 0
    [] s.k = "st" -> Both({Alike(s.f[i].t, a[s.f[i].n], b[s.f[i].n]) : i \in 1..Len(s.f)})
    [] s.k \in {"vec", "tup", "opt", "ptr", "aptr", "arr"} -> AlikeAll(s.t, a, b)
    [] s.k = "unit" -> 1
    [] s.k = "en" -> IF Len(a.data) # Len(b.data) THEN 0 ELSE IF a.data = <<>> THEN 1 ELSE Alike(Var(s.vars), a.data[1], b.data[1])
    [] s.k = "var" -> IF a.v # b.v THEN 0 ELSE Alike(s.vars[a.v].t, a.d, b.d)
    [] s.k = "al" -> Alike(s.t, a, b)
CompareJudge(e) ==
  LET t == VersionNamed(e.fmt, e.ver).t
      want == IF e.b.fmt # e.fmt \/ e.b.ver # e.ver THEN 0 ELSE Alike(t, e.val, e.b.val)
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF ~Eq(t, e.val, e.r.v.copy) THEN "the copy differs"
     ELSE IF want = 2 THEN ""
     ELSE IF e.r.v.eq # (want = 1) THEN "the comparison of two values is wrong"
     ELSE IF e.r.v.qe # e.r.v.eq THEN "the comparison depends on the order" ELSE ""

(* ---- vectors and matrices: e.a, e.b vectors of four floats, e.m four columns of four *)
(* the lesser of two floats, where a number counts as less than what is no number *)
Lesser(x, y, z) == IF IsNaN(x) /\ IsNaN(y) THEN IsNaN(z) ELSE IF IsNaN(x) THEN z = y ELSE IF IsNaN(y) THEN z = x
                   ELSE IF Key(x) < Key(y) THEN z = x ELSE IF Key(y) < Key(x) THEN z = y ELSE z \in {x, y}
Greater(x, y, z) == IF IsNaN(x) /\ IsNaN(y) THEN IsNaN(z) ELSE IF IsNaN(x) THEN z = y ELSE IF IsNaN(y) THEN z = x
                    ELSE IF Key(x) > Key(y) THEN z = x ELSE IF Key(y) > Key(x) THEN z = y ELSE z \in {x, y}
UnitMatrix(n) == [c \in 1..n |-> [i \in 1..n |-> IF i = c THEN F1 ELSE F0]]
Part(m, n) == [c \in 1..n |-> SubSeq(m[c], 1, n)]
VectorsJudge(e) ==
  LET v == e.r.v
      first(x, n) == SubSeq(x, 1, n)
      each(P(_, _, _), n, z) == Len(z) = n /\ \A i \in 1..n : P(e.a[i], e.b[i], z[i])
      bad == {i \in 1..Len(v.same) : v.same[i].v # first(e.a, v.same[i].n)}
  IN IF e.r.k # "ok" THEN e.r.e
     ELSE IF bad # {} THEN v.same[CHOOSE i \in bad : TRUE].how \o " changes a component"
     ELSE IF v.zero # <<first(<<F0, F0, F0, F0>>, 3), <<F0, F0, F0, F0>>>> THEN "ZERO differs"
     ELSE IF ~each(Lesser, 3, v.min3) \/ ~each(Lesser, 4, v.min4) THEN "min differs"
     ELSE IF ~each(Greater, 3, v.max3) \/ ~each(Greater, 4, v.max4) THEN "max differs"
     ELSE IF v.id3 # UnitMatrix(3) \/ v.id4 # UnitMatrix(4) THEN "identity differs"
     ELSE IF v.cols3 # Part(e.m, 3) \/ v.cols4 # e.m THEN "columns differ"
     ELSE IF v.stored3 # Part(e.m, 3) \/ v.stored4 # e.m THEN "columns are stored in another order" ELSE ""

(* ---- lists and offsets made from values hold these values *)
HoldJudge(e) ==
  IF e.r.k # "ok" THEN e.r.e
  ELSE LET bad == {i \in 1..Len(e.r.v) : e.r.v[i].held # e.r.v[i].given}
       IN IF bad = {} THEN "" ELSE e.r.v[CHOOSE i \in bad : TRUE].how \o ": holds other values than given"
=============================================================================
