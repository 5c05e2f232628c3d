----------------------------- MODULE MC_Formats -----------------------------
(* Every format with small values: each value that differs in one place from   *)
(* the emptiest one, and some in which everything is present.  A behaviour is   *)
(* write - read - write; on the way the layout laws are checked on the bytes     *)
(* alone, by following the offsets they contain.                                *)
EXTENDS File, TLC, Json
CONSTANTS Formats_, Both
VARIABLES fmt, ver, val, bytes, again, stage
vars == <<fmt, ver, val, bytes, again, stage>>

Cells(n) == [i \in 1..n |-> 64 + i]
Nth(S, j) == LET RECURSIVE G(_, _)
                 G(T, i) == LET x == CHOOSE x \in T : TRUE IN IF i = 0 THEN x ELSE G(T \ {x}, i - 1)
             IN G(S, j % Cardinality(S))
Field(s, n) == s.f[CHOOSE i \in 1..Len(s.f) : s.f[i].n = n].t
Names(s) == {s.f[i].n : i \in 1..Len(s.f)}
RECURSIVE Base(_)
Base(s) ==
  CASE s.k = "b" -> Cells(s.n)
    [] s.k = "bits" -> [bytes |-> [i \in 1..s.n |-> <<0>>]]
    [] s.k = "rep" -> [v |-> Nth(DOMAIN s.vars, 0), d |-> <<>>]
    [] s.k = "st" -> [n \in Names(s) |-> Base(Field(s, n))]
    [] s.k = "tup" -> [i \in 1..s.n |-> Base(s.t)]
    [] s.k = "en" -> [data |-> <<>>]
    [] s.k = "var" -> LET x == Nth(DOMAIN s.vars, 0) IN [v |-> x, d |-> Base(s.vars[x].t)]
    [] s.k = "al" -> Base(s.t)
    [] OTHER -> <<>>
(* Everything is present; enumerations take their j-th variant, lists have two elements. *)
RECURSIVE Rich(_, _)
Rich(s, j) ==
  CASE s.k = "b" -> [i \in 1..s.n |-> (j + 16 * i) % 256]
    [] s.k = "bits" -> [bytes |-> [i \in 1..s.n |-> <<IF i = 1 THEN j % 16 ELSE 0>>]]
    [] s.k = "rep" -> [v |-> Nth(DOMAIN s.vars, j), d |-> <<>>]
    [] s.k = "st" -> [n \in Names(s) |-> Rich(Field(s, n), j + (CHOOSE i \in 1..Len(s.f) : s.f[i].n = n))]
    [] s.k = "tup" -> [i \in 1..s.n |-> Rich(s.t, i)]
    [] s.k = "en" -> LET x == Nth(DOMAIN s.vars, j) IN [data |-> <<[v |-> x, d |-> Rich(s.vars[x].t, j + 1)]>>]
    [] s.k = "var" -> LET x == Nth(DOMAIN s.vars, j) IN [v |-> x, d |-> Rich(s.vars[x].t, j)]
    [] s.k \in {"vec", "arr"} -> <<Rich(s.t, j), Rich(s.t, j + 1)>>
    [] s.k \in {"opt", "ptr", "aptr"} -> <<Rich(s.t, j + 1)>>
    [] s.k = "buf" -> [i \in 1..(j % 11) |-> i]
    [] s.k = "cs" -> [i \in 1..(j % 9) |-> 96 + i]
    [] s.k = "al" -> Rich(s.t, j)
    [] OTHER -> <<>>
RECURSIVE Vals(_)
Vals(s) ==
  CASE s.k = "b" -> {Cells(s.n), [i \in 1..s.n |-> 255]}
    [] s.k = "bits" -> {[bytes |-> [i \in 1..s.n |-> <<x>>]] : x \in {0, 1, 2, 4, 8, 15}}
    [] s.k = "rep" -> {[v |-> x, d |-> <<>>] : x \in DOMAIN s.vars}
    [] s.k = "st" -> LET base == Base(s) IN UNION {{[base EXCEPT ![n] = x] : x \in Vals(Field(s, n))} : n \in Names(s)}
    [] s.k \in {"opt", "ptr", "aptr"} -> {<<>>} \cup {<<x>> : x \in Vals(s.t)}
    [] s.k \in {"vec", "arr"} -> {<<>>} \cup (IF Both THEN {<<x, Base(s.t)>> : x \in Vals(s.t)} ELSE {}) \cup {<<Base(s.t), x>> : x \in Vals(s.t)}
    [] s.k = "tup" -> {[i \in 1..s.n |-> IF i = j THEN x ELSE Base(s.t)] : j \in 1..s.n, x \in Vals(s.t)}
    [] s.k = "buf" -> {[i \in 1..n |-> i] : n \in {0, 1, 8, 9}}
    [] s.k = "cs" -> {[i \in 1..n |-> 96 + i] : n \in {0, 1, 3, 4, 7, 8}}
    [] s.k = "en" -> {[data |-> <<>>]} \cup UNION {{[data |-> <<[v |-> x, d |-> d]>>] : d \in Vals(s.vars[x].t)} : x \in DOMAIN s.vars}
    [] s.k = "var" -> UNION {{[v |-> x, d |-> d] : d \in Vals(s.vars[x].t)} : x \in DOMAIN s.vars}
    [] s.k = "al" -> Vals(s.t)
    [] OTHER -> {<<>>}

(* ---- the items of a file, found by following its offsets: <<first byte, byte after, alignment, where its offset is>> *)
At8(b, p) == UInt(Slice(b, p, 8))
RECURSIVE ItemsOf(_, _, _), InPlace(_, _, _)
(* bytes in place of the value stored at p *)
TextLen(b, p) == LET RECURSIVE G(_) G(q) == IF b[q + 1] = 0 THEN q - p ELSE G(q + 1) IN G(p)
InPlace(s, b, p) ==
  CASE s.k \in {"b", "bits", "rep"} -> s.n
    [] s.k = "st" -> LET RECURSIVE G(_) G(i) == IF i = 0 THEN 0 ELSE G(i - 1) + InPlace(s.f[i].t, b, 0) IN G(Len(s.f)) + s.pad
    [] s.k = "tup" -> s.n * InPlace(s.t, b, 0)
    [] s.k = "ptr" -> 8
    [] s.k = "aptr" -> s.w
    [] s.k \in {"arr", "buf", "en"} -> 16
    [] s.k = "unit" -> 0
    [] s.k = "cs" -> LET n == TextLen(b, p) IN IF n = 0 THEN s.n ELSE n + 1
    [] s.k = "al" -> InPlace(s.t, b, p)
VarOf(s, tag) == CHOOSE x \in DOMAIN s.vars : s.vars[x].tag = tag
ItemsOf(s, b, p) ==
  LET Off(i) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN 0 ELSE G(k - 1) + InPlace(s.f[k].t, b, 0) IN p + G(i - 1)
  IN CASE s.k = "st" -> Concat([i \in 1..Len(s.f) |-> ItemsOf(s.f[i].t, b, Off(i))])
       [] s.k = "tup" -> Concat([i \in 1..s.n |-> ItemsOf(s.t, b, p + (i - 1) * InPlace(s.t, b, 0))])
       [] s.k = "al" -> ItemsOf(s.t, b, p)
       [] s.k = "ptr" -> IF At8(b, p) = 0 THEN <<>>
                         ELSE LET q == p + At8(b, p) IN << <<q, q + InPlace(s.t, b, q), Align(s.t), p>> >> \o ItemsOf(s.t, b, q)
       [] s.k = "en" -> IF At8(b, p) = 0 THEN <<>>
                        ELSE LET q == p + At8(b, p)
                                 t == s.vars[VarOf(s, At8(b, p + 8))].t
                             IN << <<q, q + InPlace(t, b, q), Align(Var(s.vars)), p>> >> \o ItemsOf(t, b, q)
       [] s.k = "buf" -> IF At8(b, p + 8) = 0 THEN <<>> ELSE LET q == p + At8(b, p) IN << <<q, q + At8(b, p + 8), 8, p>> >>
       [] s.k = "arr" -> IF At8(b, p + 8) = 0 THEN <<>>
                         ELSE LET q == p + At8(b, p)
                                  n == At8(b, p + 8)
                                  w == InPlace(s.t, b, q)
                              IN << <<q, q + n * w, 8, p>> >> \o Concat([i \in 1..n |-> ItemsOf(s.t, b, q + (i - 1) * w)])
       [] OTHER -> <<>>

(* ---- behaviours *)
Type == VersionNamed(fmt, ver).t
Versions(f) == {SsbhFormats[f].vers[i].name : i \in 1..Len(SsbhFormats[f].vers)}
Init == /\ fmt \in Formats_ /\ ver \in Versions(fmt)
        /\ val \in Vals(Type) \cup {Rich(Type, j) : j \in 0..11}
        /\ bytes = <<>> /\ again = <<>> /\ stage = "value"
Write == stage = "value" /\ stage' = "written" /\ bytes' = SsbhBytes(fmt, ver, val) /\ UNCHANGED <<fmt, ver, val, again>>
Read == stage = "written" /\ stage' = "read" /\ again' = SsbhRead(bytes) /\ UNCHANGED <<fmt, ver, val, bytes>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars

All == << <<24, 24 + InPlace(Type, bytes, 24), 8, 0>> >> \o ItemsOf(Type, bytes, 24)
Laws == stage = "written" =>
  LET x == All
      I == 1..Len(x)
  IN /\ \A i \in I : x[i][1] % x[i][3] = 0 /\ x[i][2] <= Len(bytes) /\ x[i][4] < x[i][1]      \* aligned, inside, forward
     /\ \A i, j \in I : i < j => (x[i][2] <= x[j][1] \/ x[j][1] = x[j][2])                     \* in declaration order, apart
     /\ LET used == UNION {(x[i][1] + 1)..x[i][2] : i \in I} IN \A k \in 25..Len(bytes) : k \notin used => bytes[k] = 0   \* gaps are zero
     /\ \A i \in I \ {1} : x[i][2] > x[i][1] =>                                                \* at the first free aligned position
          LET before == SetMax({x[j][2] : j \in 1..i - 1} \cup {1})
              \* an empty buffer or list also moves on to its place
          IN x[i][1] \in {RU(before, x[i][3]), RU(RU(before, 8), x[i][3])}
Back == stage = "read" => /\ again.ok /\ again.f = fmt /\ again.ver = ver /\ Eq(Type, val, again.v)
                          /\ SsbhBytes(fmt, ver, again.v) = bytes
Emit == stage # "read" \/ PrintT(<<"GEN", ToJson([fmt |-> fmt, ver |-> ver, val |-> val])>>)
=============================================================================
