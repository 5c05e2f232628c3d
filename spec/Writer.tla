------------------------------- MODULE Writer ------------------------------
(* The layout rules of ssbh_offsets.md: where every item of a value goes.    *)
(*                                                                           *)
(* W(s, v, pos, dp) writes value v of type s in place at position pos, when  *)
(* dp is the next free position for pointed-to data.  It returns             *)
(*   i   the bytes in place                                                  *)
(*   o   the bytes placed at dp and after, without trailing unwritten gap    *)
(*   dp  the next free position afterwards                                   *)
(*   err an absolute offset did not fit                                      *)
EXTENDS Schema

Composite(s) == s.k \notin {"b", "cs", "unit", "rep"}

Empty(dp) == [i |-> <<>>, o |-> <<>>, dp |-> dp, err |-> FALSE]

(* Appends the effect x (that started at a.dp) to the effect a (that started at dp0). *)
Join(a, x, dp0) ==
  [i   |-> a.i \o x.i,
   o   |-> IF x.o = <<>> THEN a.o ELSE a.o \o Zeros((a.dp - dp0) - Len(a.o)) \o x.o,
   dp  |-> x.dp,
   err |-> a.err \/ x.err]

(* The pointed-to item e, in place size n, put at T >= dp. *)
Placed(dp, T, n, e) ==
  IF e.i = <<>> /\ e.o = <<>> THEN <<>>   \* nothing is written for an empty item
  ELSE Zeros(T - dp) \o e.i \o (IF e.o = <<>> THEN <<>> ELSE Zeros(n - Len(e.i)) \o e.o)

RECURSIVE W(_, _, _, _)

RECURSIVE WFields(_, _, _, _, _, _)
WFields(fs, v, n, pos, dp0, acc) ==
  IF n > Len(fs) THEN acc
  ELSE WFields(fs, v, n + 1, pos, dp0, Join(acc, W(fs[n].t, v[fs[n].n], pos + Len(acc.i), acc.dp), dp0))

RECURSIVE WSeq(_, _, _, _, _, _)
WSeq(t, vs, n, pos, dp0, acc) ==
  IF n > Len(vs) THEN acc
  ELSE IF t.k = "b" THEN [acc EXCEPT !.i = @ \o Concat(SubSeq(vs, n, Len(vs)))]     \* numbers lie side by side
  ELSE WSeq(t, vs, n + 1, pos, dp0, Join(acc, W(t, vs[n], pos + Len(acc.i), acc.dp), dp0))

(* An offset field of w bytes pointing to an optional value. *)
WPtr(t, v, pos, dp, w, abs) ==
  IF v = <<>> THEN [i |-> Zeros(w), o |-> <<>>, dp |-> dp, err |-> FALSE]
  ELSE LET T    == RU(dp, Align(t))
           n    == Size(t, v[1])
           e    == W(t, v[1], T, IF Composite(t) THEN T + n ELSE T)
           last == T + Len(e.i)
       IN [i   |-> LE(IF abs THEN T ELSE T - pos, w),
           o   |-> Placed(dp, T, n, e),
           dp  |-> IF last > e.dp THEN RU(last, Align(t)) ELSE e.dp,
           err |-> e.err \/ (abs /\ w = 1 /\ T > 255) \/ (abs /\ w = 2 /\ T > 65535)]

W(s, v, pos, dp) ==
  CASE s.k = "b"    -> [i |-> v, o |-> <<>>, dp |-> dp, err |-> FALSE]
    [] s.k = "bits" -> [i |-> [j \in 1..s.n |-> v.bytes[j][1]], o |-> <<>>, dp |-> dp, err |-> FALSE]
    [] s.k = "rep"  -> [i |-> s.vars[v.v], o |-> <<>>, dp |-> dp, err |-> FALSE]
    [] s.k = "unit" -> Empty(dp)
    [] s.k = "cs"   -> [i |-> IF v = <<>> THEN Zeros(s.n) ELSE Append(v, 0), o |-> <<>>, dp |-> dp, err |-> FALSE]
    [] s.k = "st"   -> LET a == WFields(s.f, v, 1, pos, dp, Empty(dp))
                       IN [a EXCEPT !.i = @ \o Zeros(s.pad)]
    [] s.k \in {"vec", "tup", "opt"} -> WSeq(s.t, v, 1, pos, dp, Empty(dp))
    [] s.k = "al"   -> W(s.t, v, pos, dp)
    [] s.k = "var"  -> W(s.vars[v.v].t, v.d, pos, dp)
    [] s.k = "ptr"  -> WPtr(s.t, v, pos, dp, 8, FALSE)
    [] s.k = "aptr" -> WPtr(s.t, v, pos, dp, s.w, TRUE)
    [] s.k = "en"   -> LET T == Var(s.vars)
                           p == WPtr(T, v.data, pos, dp, 8, FALSE)
                       IN [p EXCEPT !.i = @ \o (IF v.data = <<>> THEN Zeros(8) ELSE LE(s.vars[v.data[1].v].tag, 8))]
    [] s.k = "buf"  -> LET T == RU(dp, 8)
                       IN [i   |-> LE(IF v = <<>> THEN 0 ELSE T - pos, 8) \o LE(Len(v), 8),
                           o   |-> IF v = <<>> THEN <<>> ELSE Zeros(T - dp) \o v,
                           dp  |-> T + Len(v), err |-> FALSE]
    [] s.k = "arr"  -> LET T == RU(dp, 8)
                       IN IF v = <<>> THEN [i |-> Zeros(16), o |-> <<>>, dp |-> T, err |-> FALSE]
                          ELSE LET n == Size(Vec(s.t), v)
                                   e == WSeq(s.t, v, 1, T, T + n, Empty(T + n))
                               IN [i   |-> LE(T - pos, 8) \o LE(Len(v), 8),
                                   o   |-> Placed(dp, T, n, e),
                                   dp  |-> e.dp, err |-> e.err]

(* Bytes produced by writing v at position pos of an empty (zero) file with free position dp. *)
WTop(s, v, pos, dp) ==
  LET d == IF Composite(s) THEN Max(dp, pos + Size(s, v)) ELSE dp
      e == W(s, v, pos, d)
  IN [b   |-> Zeros(pos) \o e.i \o (IF e.o = <<>> THEN <<>> ELSE Zeros(d - pos - Len(e.i)) \o e.o),
      dp  |-> e.dp, err |-> e.err, size |-> Len(e.i)]

AlignEnd(b, a) == b \o Zeros(RU(Len(b), a) - Len(b))
=============================================================================
