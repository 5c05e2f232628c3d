-------------------------------- MODULE Big ---------------------------------
(* Integers of any size (TLC's have 32 bits): natural numbers as little endian *)
(* digits of 12 bits without leading zeros, integers as [n |-> negative, m].   *)
EXTENDS Floats

BNorm(a) ==
  LET RECURSIVE N(_)
      N(k) == IF k = 0 THEN 0 ELSE IF a[k] # 0 THEN k ELSE N(k - 1)
  IN SubSeq(a, 1, N(Len(a)))
(* brings digits in 0..2^30 into range *)
Carry(a) ==
  LET RECURSIVE C(_, _, _)
      C(i, c, o) == IF i > Len(a) THEN (IF c = 0 THEN o ELSE C(i, c \div 4096, Append(o, c % 4096)))
                    ELSE LET x == a[i] + c IN C(i + 1, x \div 4096, Append(o, x % 4096))
  IN BNorm(C(1, 0, <<>>))
BInt(n) == BNorm(<<n % 4096, (n \div 4096) % 4096, n \div 16777216>>)
At(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
BAdd(a, b) == Carry([i \in 1..Max(Len(a), Len(b)) |-> At(a, i) + At(b, i)])
RECURSIVE BCmp_(_, _, _)
BCmp_(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE BCmp_(a, b, i - 1)
(* -1, 0 or 1 *)
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE BCmp_(a, b, Len(a))
(* a - b for b <= a *)
BSub(a, b) ==
  LET RECURSIVE S(_, _, _)
      S(i, c, o) == IF i > Len(a) THEN o
                    ELSE LET x == a[i] - At(b, i) - c IN IF x < 0 THEN S(i + 1, 1, Append(o, x + 4096)) ELSE S(i + 1, 0, Append(o, x))
  IN BNorm(S(1, 0, <<>>))
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET col(k) == LET lo == Max(1, k + 1 - Len(b))
                         hi == Min(Len(a), k)
                         RECURSIVE T(_)
                         T(i) == IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + T(i + 1)
                     IN T(lo)
       IN Carry([k \in 1..Len(a) + Len(b) - 1 |-> col(k)])
BShl(a, k) ==
  LET q == k \div 12
      r == k % 12
  IN IF a = <<>> THEN <<>>
     ELSE BNorm(Zeros(q) \o [i \in 1..Len(a) + 1 |-> ((At(a, i) * P2(r)) % 4096) + (At(a, i - 1) \div P2(12 - r))])
BShr(a, k) ==
  LET q == k \div 12
      r == k % 12
      n == Len(a) - q
  IN IF n <= 0 THEN <<>>
     ELSE BNorm([i \in 1..n |-> (At(a, i + q) \div P2(r)) + ((At(a, i + q + 1) * P2(12 - r)) % 4096)])

SInt_(n) == IF n < 0 THEN [n |-> TRUE, m |-> BInt(-n)] ELSE [n |-> FALSE, m |-> BInt(n)]
SNeg(x) == [x EXCEPT !.n = ~x.n]
SAdd(x, y) ==
  IF x.n = y.n THEN [n |-> x.n, m |-> BAdd(x.m, y.m)]
  ELSE IF BCmp(x.m, y.m) >= 0 THEN [n |-> x.n, m |-> BSub(x.m, y.m)] ELSE [n |-> y.n, m |-> BSub(y.m, x.m)]
SSub(x, y) == SAdd(x, SNeg(y))
SMulN(x, b) == [x EXCEPT !.m = BMul(x.m, b)]     \* times a natural number
(* |x| <= b *)
AbsAtMost(x, b) == BCmp(x.m, b) <= 0

(* ---- exact values of singles, in units of 2^(e - 150) *)
ExpOf(f) == IF IsZero(f) THEN 254 ELSE Exp1(f)
Exact(f, e) == [n |-> Sign(f) = 1, m |-> BShl(BInt(Full(f)), ExpOf(f) - e)]
Low(S) == LET E == {ExpOf(f) : f \in S} IN CHOOSE e \in E : \A x \in E : e <= x
(* One unit in the last place of f, in the same units. *)
UlpOf(f, e) == BShl(<<1>>, (IF IsZero(f) THEN e ELSE Exp1(f)) - e)

(* y is min + (max - min) * q / s up to rounding (of y and of doubles on the way); q, s natural, s # 0 *)
IsLerp(y, min, max, q, s) ==
  LET e == Low({y, min, max})
      a == Exact(min, e)
      b == Exact(max, e)
      x == SAdd(SMulN(a, BSub(s, q)), SMulN(b, q))
      big == IF BCmp(a.m, b.m) >= 0 THEN a.m ELSE b.m
  IN AbsAtMost(SSub(SMulN(Exact(y, e), s), x), BMul(s, BAdd(UlpOf(y, e), BShr(big, 50))))
(* |y - x| <= n steps of (max - min) / s, up to rounding of y *)
WithinSteps(y, x, min, max, n, s) ==
  LET e == Low({y, x, min, max})
  IN AbsAtMost(SMulN(SSub(Exact(y, e), Exact(x, e)), s),
               BAdd(BMul(SSub(Exact(max, e), Exact(min, e)).m, BInt(n)), BMul(s, UlpOf(y, e))))
(* |min + (max - min) * q / s - x| <= n steps *)
QWithinSteps(q, x, min, max, n, s) ==
  LET e == Low({x, min, max})
      a == Exact(min, e)
      b == Exact(max, e)
  IN AbsAtMost(SSub(SMulN(Exact(x, e), s), SAdd(SMulN(a, BSub(s, q)), SMulN(b, q))), BMul(SSub(b, a).m, BInt(n)))
=============================================================================
