------------------------------- MODULE Schema ------------------------------
(* A small type language for SSBH data.  Every file format is a term of this *)
(* language (Formats.tla); the writer (Writer.tla) and the reader            *)
(* (Reader.tla) give it its meaning.                                         *)
(*                                                                           *)
(*  b     n bytes (an integer or a float), little endian                     *)
(*  bits  n bytes of flags                                                   *)
(*  rep   an enumeration stored as a number: vars maps names to byte strings *)
(*  st    a structure: fields in order, followed by pad zero bytes           *)
(*  vec   elements in place, one after the other                             *)
(*  tup   exactly n elements in place                                        *)
(*  opt   an optional value in place (nothing is stored when absent)         *)
(*  unit  nothing                                                            *)
(*  cs    NUL terminated text; the empty text is n zero bytes                *)
(*  ptr   a 64 bit offset relative to its own position, 0 for null           *)
(*  aptr  an absolute offset of w bytes, 0 for null                          *)
(*  arr   relative offset and count of elements                              *)
(*  buf   relative offset and length of raw bytes                            *)
(*  en    relative offset of a variant's payload and the variant's number    *)
(*  var   one of several payload types in place, chosen from outside         *)
(*  al    a type with an explicit alignment as target of an offset           *)
EXTENDS Bytes

B(n)        == [k |-> "b", n |-> n]
Bits(n)     == [k |-> "bits", n |-> n]
Rep(n, vs)  == [k |-> "rep", n |-> n, vars |-> vs]
St(fs)      == [k |-> "st", f |-> fs, pad |-> 0]
StPad(fs, p) == [k |-> "st", f |-> fs, pad |-> p]
Vec(t)      == [k |-> "vec", t |-> t]
Tup(n, t)   == [k |-> "tup", n |-> n, t |-> t]
Opt(t)      == [k |-> "opt", t |-> t]
Unit        == [k |-> "unit"]
CS(n)       == [k |-> "cs", n |-> n]
Ptr(t)      == [k |-> "ptr", t |-> t]
APtr(w, t)  == [k |-> "aptr", w |-> w, t |-> t]
Arr(t)      == [k |-> "arr", t |-> t]
Buf         == [k |-> "buf"]
En(vs)      == [k |-> "en", vars |-> vs]
Var(vs)     == [k |-> "var", vars |-> vs]
Al(n, t)    == [k |-> "al", n |-> n, t |-> t]
F(n, t)     == [n |-> n, t |-> t]
Tag(n, t)   == [tag |-> n, t |-> t]

U8 == B(1)  U16 == B(2)  U32 == B(4)  U64 == B(8)  F32 == B(4)
Str  == Ptr(CS(4))
Str8 == Ptr(CS(8))

SetMax(S) == IF S = {} THEN 1 ELSE CHOOSE x \in S : \A y \in S : y <= x

(* Natural alignment: that of the widest member. *)
RECURSIVE Nat_(_)
Nat_(s) ==
  CASE s.k \in {"b", "rep"} -> s.n
    [] s.k = "bits" -> 1
    [] s.k = "st"   -> SetMax({Nat_(s.f[i].t) : i \in 1..Len(s.f)})
    [] s.k \in {"vec", "arr", "buf", "cs"} -> 8   \* held in memory as growable lists
    [] s.k = "tup"  -> Nat_(s.t)
    [] s.k \in {"opt", "ptr", "aptr", "al"} -> Nat_(s.t)
    [] s.k = "unit" -> 1
    [] s.k = "en"   -> SetMax({Nat_(s.vars[x].t) : x \in DOMAIN s.vars})
    [] s.k = "var"  -> SetMax({Nat_(s.vars[x].t) : x \in DOMAIN s.vars})

(* Alignment of a type as the target of an offset. *)
RECURSIVE Align(_)
Align(s) ==
  CASE s.k = "al"   -> s.n
    [] s.k = "cs"   -> s.n
    [] s.k = "bits" -> s.n
    [] s.k \in {"vec", "opt"} -> Align(s.t)
    [] OTHER -> Nat_(s)

(* Bytes a value occupies in place. *)
RECURSIVE Size(_, _)
Size(s, v) ==
  CASE s.k \in {"b", "bits", "rep"} -> s.n
    [] s.k = "st" -> SumTo([i \in 1..Len(s.f) |-> Size(s.f[i].t, v[s.f[i].n])], Len(s.f)) + s.pad
    [] s.k \in {"vec", "tup"} -> IF s.t.k = "b" THEN Len(v) * s.t.n ELSE SumTo([i \in 1..Len(v) |-> Size(s.t, v[i])], Len(v))
    [] s.k = "opt" -> IF v = <<>> THEN 0 ELSE Size(s.t, v[1])
    [] s.k = "unit" -> 0
    [] s.k = "cs" -> IF v = <<>> THEN s.n ELSE Len(v) + 1
    [] s.k = "ptr" -> 8
    [] s.k = "aptr" -> s.w
    [] s.k \in {"arr", "buf", "en"} -> 16
    [] s.k = "var" -> Size(s.vars[v.v].t, v.d)
    [] s.k = "al" -> Size(s.t, v)

(* Equality of two values of a type. *)
RECURSIVE Eq(_, _, _)
EqAll(t, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(t, a[i], b[i])
Eq(s, a, b) ==
  CASE s.k \in {"b", "buf", "cs"} -> a = b
    [] s.k = "bits" -> a.bytes = b.bytes
    [] s.k = "rep" -> a.v = b.v
    [] s.k = "st" -> \A i \in 1..Len(s.f) : Eq(s.f[i].t, a[s.f[i].n], b[s.f[i].n])
    [] s.k \in {"vec", "tup", "opt", "ptr", "aptr", "arr"} -> EqAll(s.t, a, b)
    [] s.k = "unit" -> TRUE
    [] s.k = "en" -> /\ Len(a.data) = Len(b.data)
                     /\ a.data = <<>> \/ (a.data[1].v = b.data[1].v /\ Eq(s.vars[a.data[1].v].t, a.data[1].d, b.data[1].d))
    [] s.k = "var" -> a.v = b.v /\ Eq(s.vars[a.v].t, a.d, b.d)
    [] s.k = "al" -> Eq(s.t, a, b)

(* The value is one the type admits (used to reject malformed observations). *)
RECURSIVE Ok(_, _)
OkAll(t, a) == \A i \in 1..Len(a) : Ok(t, a[i])
Ok(s, v) ==
  CASE s.k = "b" -> Len(v) = s.n
    [] s.k = "buf" -> TRUE
    [] s.k = "cs" -> \A i \in 1..Len(v) : v[i] # 0
    [] s.k = "bits" -> Len(v.bytes) = s.n
    [] s.k = "rep" -> v.v \in DOMAIN s.vars
    [] s.k = "st" -> \A i \in 1..Len(s.f) : Ok(s.f[i].t, v[s.f[i].n])
    [] s.k \in {"vec", "tup", "arr"} -> OkAll(s.t, v)
    [] s.k \in {"opt", "ptr", "aptr"} -> Len(v) <= 1 /\ OkAll(s.t, v)
    [] s.k = "unit" -> TRUE
    [] s.k = "en" -> Len(v.data) <= 1 /\ (v.data = <<>> \/ (v.data[1].v \in DOMAIN s.vars /\ Ok(s.vars[v.data[1].v].t, v.data[1].d)))
    [] s.k = "var" -> v.v \in DOMAIN s.vars /\ Ok(s.vars[v.v].t, v.d)
    [] s.k = "al" -> Ok(s.t, v)

(* The value contains an empty byte buffer. *)
RECURSIVE EmptyBuf(_, _)
EmptyBuf(s, v) ==
  CASE s.k = "buf" -> v = <<>>
    [] s.k = "st" -> \E i \in 1..Len(s.f) : EmptyBuf(s.f[i].t, v[s.f[i].n])
    [] s.k \in {"vec", "tup", "opt", "ptr", "aptr", "arr"} -> \E i \in 1..Len(v) : EmptyBuf(s.t, v[i])
    [] s.k = "en" -> \E i \in 1..Len(v.data) : EmptyBuf(s.vars[v.data[i].v].t, v.data[i].d)
    [] s.k = "var" -> EmptyBuf(s.vars[v.v].t, v.d)
    [] s.k = "al" -> EmptyBuf(s.t, v)
    [] OTHER -> FALSE

=============================================================================
