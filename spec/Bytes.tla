------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of 0..255 and the integer encodings used by     *)
(* every file format of the library (little endian).                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Zeros(n) == [i \in 1..n |-> 0]

(* The smallest multiple of a that is at least x. *)
RU(x, a) == ((x + a - 1) \div a) * a

Pow256 == <<1, 256, 65536, 16777216>>

(* Little endian encoding of 0 <= n < 2^31 in w bytes. *)
LE(n, w) == [i \in 1..w |-> IF i > 4 THEN 0 ELSE (n \div Pow256[i]) % 256]

Slice(b, from, n) == SubSeq(b, from + 1, from + n)   \* from is a 0 based offset

(* TLC integers have 32 bits: larger stored numbers are only ever compared   *)
(* with file positions, for which Far (past the end of every file) suffices. *)
Far == 1500000000

(* Value of an unsigned little endian byte sequence, capped at Far. *)
UInt(b) ==
  IF \E i \in 5..Len(b) : b[i] # 0 THEN Far
  ELSE IF Len(b) >= 4 /\ b[4] >= 64 THEN Far
  ELSE LET d(i) == IF i <= Len(b) THEN b[i] * Pow256[i] ELSE 0
       IN d(1) + d(2) + d(3) + d(4)

(* Two's complement value of 1, 2 or 4 bytes. *)
SInt(b) ==
  IF b[Len(b)] < 128 THEN LET d(i) == IF i <= Len(b) THEN b[i] * Pow256[i] ELSE 0
                          IN d(1) + d(2) + d(3) + d(4)
  ELSE LET d(i) == IF i <= Len(b) THEN (255 - b[i]) * Pow256[i] ELSE 0
       IN -(d(1) + d(2) + d(3) + d(4)) - 1

(* pos + offset overflows 64 bits, for a stored 64 bit offset and a position below 2^24. *)
OffsetOverflows(pos, off) ==
  /\ \A i \in 4..8 : off[i] = 255
  /\ (255 - off[3]) * 65536 + (255 - off[2]) * 256 + (255 - off[1]) + 1 <= pos

Concat(ss) ==
  LET RECURSIVE C(_, _)
      C(lo, hi) == IF lo > hi THEN <<>>
                   ELSE IF lo = hi THEN ss[lo]
                   ELSE LET m == (lo + hi) \div 2 IN C(lo, m) \o C(m + 1, hi)
  IN C(1, Len(ss))

(* Elements of a sequence that satisfy a condition on their index. *)
SelectIdx(n, T(_)) ==
  LET RECURSIVE F(_)
      F(i) == IF i = 0 THEN <<>> ELSE IF T(i) THEN Append(F(i - 1), i) ELSE F(i - 1)
  IN F(n)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
=============================================================================
