----------------------------- MODULE MC_Layout ------------------------------
(* The writer as a machine that fills memory cell by cell: a stack of things  *)
(* to write, the next free position, and the items placed so far.  TLC        *)
(* explores it for every small value of the types below and checks the layout *)
(* rules on every state; each finished run is also a scenario for the code.   *)
EXTENDS File, Compose, TLC, Json

CONSTANTS Types, Starts, Breadth

QuickStarts == {<<0, 0>>, <<3, 7>>}
MoreStarts == {<<0, 0>>, <<3, 7>>, <<1, 0>>, <<8, 200>>, <<5, 5>>}

VARIABLES ty, val, pos, dp0,   \* what is written, where, with which initial free position
          mem,                 \* cells: -1 unwritten
          dp, todo, items, last

vars == <<ty, val, pos, dp0, mem, dp, todo, items, last>>

(* ---- small values *)
Byte(n) == [i \in 1..n |-> IF i = 1 THEN 65 + n ELSE 0]
RECURSIVE Base(_)
Base(s) ==
  CASE s.k = "b" -> Byte(s.n)
    [] s.k = "bits" -> [bytes |-> [i \in 1..s.n |-> <<i>>]]
    [] s.k = "rep" -> [v |-> CHOOSE x \in DOMAIN s.vars : TRUE, d |-> <<>>]
    [] s.k = "st" -> [n \in {s.f[i].n : i \in 1..Len(s.f)} |-> Base(s.f[CHOOSE i \in 1..Len(s.f) : s.f[i].n = n].t)]
    [] s.k \in {"vec", "opt", "ptr", "aptr", "arr", "buf", "cs", "unit"} -> <<>>
    [] s.k = "tup" -> [i \in 1..s.n |-> Base(s.t)]
    [] s.k = "en" -> [data |-> <<>>]
    [] s.k = "var" -> LET x == CHOOSE x \in DOMAIN s.vars : TRUE IN [v |-> x, d |-> Base(s.vars[x].t)]
    [] s.k = "al" -> Base(s.t)

RECURSIVE Vals(_, _)
Few(s, k) == IF k = 0 THEN {Base(s)} ELSE Vals(s, k)
Vals(s, k) ==
  CASE s.k \in {"b", "bits", "unit"} -> {Base(s)}
    [] s.k = "rep" -> {[v |-> x, d |-> <<>>] : x \in DOMAIN s.vars}
    [] s.k = "st" ->
         LET N == {s.f[i].n : i \in 1..Len(s.f)}
             T(n) == s.f[CHOOSE i \in 1..Len(s.f) : s.f[i].n = n].t
             base == Base(s)
             one  == UNION {{[base EXCEPT ![n] = x] : x \in Few(T(n), k - 1)} : n \in N}
         IN UNION {UNION {{[o EXCEPT ![n] = x] : x \in Few(T(n), k - 1)} : n \in N} : o \in one}
    [] s.k \in {"opt", "ptr", "aptr"} -> {<<>>} \cup {<<x>> : x \in Few(s.t, k - 1)}
    [] s.k \in {"vec", "arr"} -> {<<>>} \cup {<<x>> : x \in Few(s.t, k - 1)} \cup {<<x, Base(s.t)>> : x \in Few(s.t, k - 1)} \cup {<<Base(s.t), x>> : x \in Few(s.t, k - 1)}
    [] s.k = "tup" -> {[i \in 1..s.n |-> IF i = j THEN x ELSE Base(s.t)] : j \in 1..s.n, x \in Few(s.t, k - 1)}
    [] s.k = "buf" -> {<<>>, <<1>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>}
    [] s.k = "cs" -> {<<>>, <<65>>, <<65, 66, 67>>, <<65, 66, 67, 68>>}
    [] s.k = "en" -> {[data |-> <<>>]} \cup UNION {{[data |-> <<[v |-> x, d |-> d]>>] : d \in Few(s.vars[x].t, k - 1)} : x \in DOMAIN s.vars}
    [] s.k = "var" -> UNION {{[v |-> x, d |-> d] : d \in Few(s.vars[x].t, k - 1)} : x \in DOMAIN s.vars}
    [] s.k = "al" -> Vals(s.t, k)

(* ---- memory *)
Grow(m, n) == IF Len(m) >= n THEN m ELSE m \o [i \in 1..(n - Len(m)) |-> -1]
Put(p, bs) == LET m == IF bs = <<>> THEN mem ELSE Grow(mem, p + Len(bs)) IN [i \in 1..Len(m) |-> IF i > p /\ i <= p + Len(bs) THEN bs[i - p] ELSE m[i]]
Fresh(p, n) == \A i \in (p + 1)..(p + n) : i > Len(mem) \/ mem[i] = -1

(* ---- tasks: write a value in place | close a pointed-to item *)
TW(s, v, p) == [t |-> "w", s |-> s, v |-> v, p |-> p]
TClose(end, al) == [t |-> "close", end |-> end, al |-> al]

Init ==
  /\ ty \in Types
  /\ val \in Vals(ComposeTypes[ty], Breadth)
  /\ \E st \in Starts : pos = st[1] /\ dp0 = st[2]
  /\ mem = <<>> /\ dp = dp0 /\ items = {}
  /\ todo = <<TW(ComposeTypes[ty], val, pos)>>
  /\ last = "start"

(* In place bytes at p. *)
Write(p, bs, rest, name) ==
  /\ Assert(Fresh(p, Len(bs)), <<"bytes written twice", ty, val, p>>)
  /\ mem' = Put(p, bs)
  /\ todo' = rest
  /\ last' = name
  /\ UNCHANGED <<ty, val, pos, dp0>>

Scalar(x, rest) ==
  /\ x.s.k \in {"b", "bits", "rep", "cs", "unit"}
  /\ Write(x.p, W(x.s, x.v, x.p, 0).i, rest, "Scalar")
  /\ UNCHANGED <<dp, items>>

(* Fields, elements and payloads in place: the whole container is reserved first. *)
RECURSIVE Offs(_, _, _)
Offs(ts, vs, p) == IF ts = <<>> THEN <<>> ELSE <<TW(Head(ts), Head(vs), p)>> \o Offs(Tail(ts), Tail(vs), p + Size(Head(ts), Head(vs)))
Container(x, rest) ==
  LET s == x.s  v == x.v
      ts == CASE s.k = "st" -> [i \in 1..Len(s.f) |-> s.f[i].t]
              [] s.k \in {"vec", "tup", "opt"} -> [i \in 1..Len(v) |-> s.t]
              [] s.k = "al" -> <<s.t>>
              [] s.k = "var" -> <<s.vars[v.v].t>>
      vs == CASE s.k = "st" -> [i \in 1..Len(s.f) |-> v[s.f[i].n]]
              [] s.k \in {"vec", "tup", "opt"} -> v
              [] s.k = "al" -> <<v>>
              [] s.k = "var" -> <<v.d>>
      pad == IF s.k = "st" THEN s.pad ELSE 0
      n == Size(s, v)
  IN /\ s.k \in {"st", "vec", "tup", "opt", "al", "var"}
     /\ dp' = Max(dp, x.p + n)
     /\ todo' = Offs(ts, vs, x.p) \o (IF pad > 0 THEN <<TW(B(pad), Zeros(pad), x.p + n - pad)>> ELSE <<>>) \o rest
     /\ last' = "Container"
     /\ UNCHANGED <<ty, val, pos, dp0, mem, items>>

(* An offset: the item goes to the first aligned position that is free. *)
Place(x, t, v, w, abs, more, rest) ==
  LET d == Max(dp, x.p + w + Len(more))
      T == RU(d, Align(t))
      n == Size(t, v)
  IN /\ Write(x.p, LE(IF abs THEN T ELSE T - x.p, w) \o more, <<TW(t, v, T), TClose(T + n, Align(t))>> \o rest, "Place")
     /\ dp' = T
     /\ items' = items \cup {[lo |-> T, hi |-> T + n, al |-> Align(t), src |-> x.p]}
Null(x, w, rest) ==
  /\ Write(x.p, Zeros(w), rest, "Null")
  /\ dp' = Max(dp, x.p + w)
  /\ UNCHANGED items
Pointer(x, rest) ==
  LET s == x.s IN
  CASE s.k = "ptr"  -> IF x.v = <<>> THEN Null(x, 8, rest) ELSE Place(x, s.t, x.v[1], 8, FALSE, <<>>, rest)
    [] s.k = "aptr" -> IF x.v = <<>> THEN Null(x, s.w, rest) ELSE Place(x, s.t, x.v[1], s.w, TRUE, <<>>, rest)
    [] s.k = "en"   -> IF x.v.data = <<>> THEN Null(x, 16, rest)
                       ELSE LET y == x.v.data[1] t == s.vars[y.v].t
                                d == Max(dp, x.p + 16)
                                T == RU(d, Align(Var(s.vars)))
                                n == Size(t, y.d)
                            IN /\ Write(x.p, LE(T - x.p, 8) \o LE(s.vars[y.v].tag, 8), <<TW(Var(s.vars), y, T), TClose(T + n, Align(Var(s.vars)))>> \o rest, "Place")
                               /\ dp' = T
                               /\ items' = items \cup {[lo |-> T, hi |-> T + n, al |-> Align(Var(s.vars)), src |-> x.p]}
    [] OTHER -> FALSE
Array(x, rest) ==
  LET s == x.s
      T == RU(Max(dp, x.p + 16), 8)
      n == IF s.k = "buf" THEN Len(x.v) ELSE IF x.v = <<>> THEN 0 ELSE Len(x.v) * Size(s.t, x.v[1])
  IN /\ s.k \in {"arr", "buf"}
     /\ Write(x.p, LE(IF x.v = <<>> THEN 0 ELSE T - x.p, 8) \o LE(Len(x.v), 8),
              (IF x.v = <<>> THEN <<>> ELSE IF s.k = "buf" THEN <<TW(B(n), x.v, T)>> ELSE <<TW(Vec(s.t), x.v, T)>>) \o rest, "Array")
     /\ dp' = IF s.k = "buf" THEN T + n ELSE T
     /\ items' = IF x.v = <<>> THEN items ELSE items \cup {[lo |-> T, hi |-> T + n, al |-> 8, src |-> x.p]}

Close(x, rest) ==
  /\ x.t = "close"
  /\ dp' = IF x.end > dp THEN RU(x.end, x.al) ELSE dp
  /\ todo' = rest
  /\ last' = "Close"
  /\ UNCHANGED <<ty, val, pos, dp0, mem, items>>

Done == todo = <<>> /\ last # "done"
Finish ==
  /\ Done
  /\ PrintT(<<"GEN", ToJson([ty |-> ty, val |-> val, pos |-> pos, dp |-> dp0])>>)
  /\ last' = "done"
  /\ UNCHANGED <<ty, val, pos, dp0, mem, dp, todo, items>>

Next ==
  \/ Finish
  \/ /\ todo # <<>>
     /\ LET x == Head(todo) rest == Tail(todo) IN
        IF x.t = "close" THEN Close(x, rest)
        ELSE \/ Scalar(x, rest)
             \/ Container(x, rest)
             \/ x.s.k \in {"ptr", "aptr", "en"} /\ Pointer(x, rest)
             \/ Array(x, rest)
Spec == Init /\ [][Next]_vars

(* ---- the layout rules *)
Aligned == \A x \in items : x.lo % x.al = 0
Forward == \A x \in items : x.lo > x.src
Disjoint == \A x, y \in items : x = y \/ x.hi <= y.lo \/ y.hi <= x.lo \/ x.lo = x.hi \/ y.lo = y.hi
            \/ (x.lo <= y.lo /\ y.hi <= x.hi) \/ (y.lo <= x.lo /\ x.hi <= y.hi)
(* Nothing is written beyond what is reserved or still to be written in place. *)
DataPointer == \A i \in 1..Len(mem) : mem[i] = -1 \/ i <= Max(dp, IF todo = <<>> THEN 0 ELSE
                 LET E == {todo[j].end : j \in {j \in 1..Len(todo) : todo[j].t = "close"}} IN SetMax(E \cup {1}))
Monotone == [][dp' >= dp]_vars
Clean(m) == [i \in 1..Len(m) |-> IF m[i] = -1 THEN 0 ELSE m[i]]
(* The machine agrees with the functional description, and reading inverts it. *)
SameAsW == last = "done" => LET x == WTop(ComposeTypes[ty], val, pos, dp0) IN Clean(mem) = x.b /\ dp = x.dp
ReadsBack == (last = "done" /\ ty \notin WriteOnly /\ ty # "StrIn") => LET r == R(ComposeTypes[ty], Clean(mem), pos) IN r.ok /\ Eq(ComposeTypes[ty], val, r.v)
=============================================================================
