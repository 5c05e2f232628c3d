------------------------------- MODULE Reader ------------------------------
(* The meaning of stored bytes: R(s, b, p) reads a value of type s from the  *)
(* byte string b at position p.  It returns ok, the value v and the position *)
(* p after the value.  Offsets are followed wherever they lead; padding is   *)
(* skipped without being looked at.                                          *)
EXTENDS Schema

Bad == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

Has(b, p, n) == n = 0 \/ p + n <= Len(b)

(* Position of the first zero byte at or after p, or -1. *)
Nul(b, p) ==
  IF \A i \in (p + 1)..Len(b) : b[i] # 0 THEN -1
  ELSE (CHOOSE i \in (p + 1)..Len(b) : b[i] = 0 /\ \A j \in (p + 1)..(i - 1) : b[j] # 0) - 1

RelTarget(p, off) == Min(Far, p + UInt(off))

RECURSIVE R(_, _, _)

RECURSIVE RFields(_, _, _, _, _)
RFields(fs, b, n, p, acc) ==
  IF n > Len(fs) THEN Good(acc, p)
  ELSE LET r == R(fs[n].t, b, p)
       IN IF ~r.ok THEN Bad ELSE RFields(fs, b, n + 1, r.p, Append(acc, r.v))

(* cnt elements from p on. A count larger than the file can never be satisfied. *)
RECURSIVE RSeq(_, _, _, _, _)
RSeq(t, b, cnt, p, acc) ==
  IF cnt = 0 THEN Good(acc, p)
  ELSE IF cnt > Len(b) THEN Bad
  ELSE IF t.k = "b" /\ t.n > 0 /\ acc = <<>>     \* numbers lie side by side (the general case below says the same)
       THEN IF p + cnt * t.n > Len(b) THEN Bad
            ELSE Good([i \in 1..cnt |-> Slice(b, p + (i - 1) * t.n, t.n)], p + cnt * t.n)
  ELSE LET r == R(t, b, p)
       IN IF ~r.ok THEN Bad ELSE RSeq(t, b, cnt - 1, r.p, Append(acc, r.v))

R(s, b, p) ==
  CASE s.k = "b"    -> IF Has(b, p, s.n) THEN Good(Slice(b, p, s.n), p + s.n) ELSE Bad
    [] s.k = "bits" -> IF Has(b, p, s.n) THEN Good([bytes |-> [j \in 1..s.n |-> <<b[p + j]>>]], p + s.n) ELSE Bad
    [] s.k = "rep"  -> IF ~Has(b, p, s.n) THEN Bad
                       ELSE LET x  == Slice(b, p, s.n)
                                ns == {n \in DOMAIN s.vars : s.vars[n] = x}
                            IN IF ns = {} THEN Bad ELSE Good([v |-> CHOOSE n \in ns : TRUE, d |-> <<>>], p + s.n)
    [] s.k = "unit" -> Good(<<>>, p)
    [] s.k = "cs"   -> LET e == Nul(b, p)
                       IN IF e < 0 THEN Bad ELSE Good(Slice(b, p, e - p), e + 1)
    [] s.k = "st"   -> LET r == RFields(s.f, b, 1, p, <<>>)
                       IN IF ~r.ok THEN Bad
                          ELSE Good([n \in {s.f[i].n : i \in 1..Len(s.f)} |->
                                       r.v[CHOOSE i \in 1..Len(s.f) : s.f[i].n = n]], r.p + s.pad)
    [] s.k = "tup"  -> RSeq(s.t, b, s.n, p, <<>>)
    [] s.k = "al"   -> R(s.t, b, p)
    [] s.k = "ptr"  -> IF ~Has(b, p, 8) THEN Bad
                       ELSE LET off == Slice(b, p, 8)
                            IN IF off = Zeros(8) THEN Good(<<>>, p + 8)
                               ELSE IF OffsetOverflows(p, off) THEN Bad
                               ELSE LET r == R(s.t, b, RelTarget(p, off))
                                    IN IF r.ok THEN Good(<<r.v>>, p + 8) ELSE Bad
    [] s.k = "aptr" -> IF ~Has(b, p, s.w) THEN Bad
                       ELSE LET off == Slice(b, p, s.w)
                            IN IF off = Zeros(s.w) THEN Good(<<>>, p + s.w)
                               ELSE LET r == R(s.t, b, UInt(off))
                                    IN IF r.ok THEN Good(<<r.v>>, p + s.w) ELSE Bad
    [] s.k = "en"   -> IF ~Has(b, p, 16) THEN Bad
                       ELSE LET off == Slice(b, p, 8)
                                tag == Slice(b, p + 8, 8)
                            IN IF off = Zeros(8) THEN Good([data |-> <<>>], p + 16)
                               ELSE IF OffsetOverflows(p, off) THEN Bad
                               ELSE LET ns == {n \in DOMAIN s.vars : LE(s.vars[n].tag, 8) = tag}
                                    IN IF ns = {} THEN Bad
                                       ELSE LET n == CHOOSE n \in ns : TRUE
                                                r == R(s.vars[n].t, b, RelTarget(p, off))
                                            IN IF r.ok THEN Good([data |-> <<[v |-> n, d |-> r.v]>>], p + 16) ELSE Bad
    [] s.k = "buf"  -> IF ~Has(b, p, 16) \/ OffsetOverflows(p, Slice(b, p, 8)) THEN Bad
                       ELSE LET T == RelTarget(p, Slice(b, p, 8))
                                n == UInt(Slice(b, p + 8, 8))
                            IN IF n > Len(b) \/ ~Has(b, T, n) THEN Bad
                               ELSE Good(IF n = 0 THEN <<>> ELSE Slice(b, T, n), p + 16)
    [] s.k = "arr"  -> IF ~Has(b, p, 16) \/ OffsetOverflows(p, Slice(b, p, 8)) THEN Bad
                       ELSE LET r == RSeq(s.t, b, UInt(Slice(b, p + 8, 8)), RelTarget(p, Slice(b, p, 8)), <<>>)
                            IN IF r.ok THEN Good(r.v, p + 16) ELSE Bad
=============================================================================
