------------------------------ MODULE Floats -------------------------------
(* IEEE 754 numbers as little endian byte strings, with exact integer          *)
(* arithmetic on their parts (TLC integers have 32 bits).                      *)
EXTENDS Bytes

Pow2 == [i \in 0..30 |-> 2^i]
P2(n) == Pow2[n]
Abs(x) == IF x < 0 THEN -x ELSE x

(* ---- single precision *)
Sign(f) == f[4] \div 128
Expo(f) == (f[4] % 128) * 2 + f[3] \div 128
Mant(f) == (f[3] % 128) * 65536 + f[2] * 256 + f[1]
IsNaN(f) == Expo(f) = 255 /\ Mant(f) # 0
IsInf(f) == Expo(f) = 255 /\ Mant(f) = 0
IsFinite(f) == Expo(f) < 255
IsZero(f) == Expo(f) = 0 /\ Mant(f) = 0
Make(s, e, m) == <<m % 256, (m \div 256) % 256, (e % 2) * 128 + m \div 65536, s * 128 + e \div 2>>
F0 == <<0, 0, 0, 0>>
F1 == <<0, 0, 128, 63>>
Neg(f) == [f EXCEPT ![4] = (f[4] + 128) % 256]

(* Order of the numbers that are not NaN; both zeros are 0. *)
Key(f) == LET m == Expo(f) * 8388608 + Mant(f) IN IF Sign(f) = 1 THEN -m ELSE m
Same(a, b) == a = b \/ (IsNaN(a) /\ IsNaN(b))

(* ---- half precision *)
HExpo(h) == (h[2] % 128) \div 4
HMant(h) == (h[2] % 4) * 256 + h[1]
HNaN(h) == HExpo(h) = 31 /\ HMant(h) # 0
HMake(s, x) == <<x % 256, s * 128 + x \div 256>>    \* x = exponent * 1024 + mantissa
(* n / 2^k rounded to the nearest integer, ties to even *)
RoundShift(n, k) ==
  LET q == n \div P2(k)
      r == n % P2(k)
      h == P2(k - 1)
  IN IF r > h \/ (r = h /\ q % 2 = 1) THEN q + 1 ELSE q
F16(f) ==
  LET e == Expo(f) - 112
  IN IF Expo(f) = 255 THEN HMake(Sign(f), 31 * 1024 + (IF Mant(f) = 0 THEN 0 ELSE 512))
     ELSE IF e >= 31 THEN HMake(Sign(f), 31 * 1024)
     ELSE IF e >= 1 THEN HMake(Sign(f), RoundShift(e * 8388608 + Mant(f), 13))
     ELSE IF e < -11 THEN HMake(Sign(f), 0)
     ELSE HMake(Sign(f), RoundShift(8388608 + Mant(f), 14 - e))
Log2(n) == CHOOSE k \in 0..30 : P2(k) <= n /\ (k = 30 \/ n < P2(k + 1))
F32of16(h) ==
  LET s == h[2] \div 128
      e == HExpo(h)
      m == HMant(h)
  IN IF e = 31 THEN Make(s, 255, m * 8192)
     ELSE IF e > 0 THEN Make(s, e + 112, m * 8192)
     ELSE IF m = 0 THEN Make(s, 0, 0)
     ELSE LET k == Log2(m) IN Make(s, 103 + k, (m - P2(k)) * P2(23 - k))
SameHalf(a, b) == a = b \/ (HNaN(a) /\ HNaN(b))

(* ---- fixed point.  FixE(f, E) is f scaled such that numbers of exponent at  *)
(* most E stay below 2^27; the last places of smaller numbers are cut off.     *)
Full(f) == IF Expo(f) = 0 THEN Mant(f) ELSE 8388608 + Mant(f)
Exp1(f) == Max(Expo(f), 1)
FixE(f, E) ==
  LET d == E - Exp1(f)
      m == IF d <= 3 THEN Full(f) * P2(3 - d) ELSE IF d - 3 > 24 THEN 0 ELSE Full(f) \div P2(d - 3)
  IN IF Sign(f) = 1 THEN -m ELSE m
(* The largest exponent of a set of finite numbers. *)
MaxExp(S) == IF S = {} THEN 1 ELSE LET E == {Exp1(f) : f \in S} IN CHOOSE e \in E : \A x \in E : x <= e

(* ---- normalised bytes *)
(* floor(f * 2^22) for 0 <= f < 1 *)
Frac22(f) == LET d == 127 - Exp1(f) IN IF d + 1 > 24 THEN 0 ELSE Full(f) \div P2(d + 1)
(* b is a nearest byte to f * 255, with f brought to 0..1 (NaN counts as 0). *)
IsByteOf(b, f) ==
  IF IsNaN(f) \/ Key(f) <= 0 THEN b = 0
  ELSE IF Key(f) >= Key(F1) THEN b = 255
  ELSE LET x == 255 * Frac22(f) IN b * 4194304 - x <= 2097152 + 400 /\ x - b * 4194304 <= 2097152 + 400
(* b / 255, rounded to the nearest single *)
ByteFloatOf(b) ==
  IF b = 0 THEN F0
  ELSE LET RECURSIVE Div(_, _, _, _)
           (* n quotient bits so far in q, remainder r, first one bit has weight 2^-k *)
           Div(q, r, n, k) ==
             IF n = 25 THEN [q |-> q, r |-> r, k |-> k]
             ELSE LET r2 == 2 * r
                      one == r2 >= 255
                  IN IF n = 0 /\ ~one THEN Div(0, r2, 0, k + 1)
                     ELSE Div(2 * q + (IF one THEN 1 ELSE 0), IF one THEN r2 - 255 ELSE r2, n + 1, k)
           d == Div(0, b, 0, 1)
           q24 == d.q \div 2
           up == d.q % 2 = 1 /\ (d.r > 0 \/ q24 % 2 = 1)
           m == IF up THEN q24 + 1 ELSE q24
       IN IF b = 255 THEN F1
          ELSE IF m = 16777216 THEN Make(0, 128 - d.k, 0) ELSE Make(0, 127 - d.k, m - 8388608)
ByteFloat == [b \in 0..255 |-> ByteFloatOf(b)]

(* ---- decimal digits of an unsigned little endian number, as text *)
Dec(b) ==
  LET RECURSIVE DivTen(_, _, _, _)
      DivTen(i, r, q, s) == IF i = 0 THEN [q |-> q, r |-> r]
                            ELSE LET x == r * 256 + s[i] IN DivTen(i - 1, x % 10, <<x \div 10>> \o q, s)
      RECURSIVE D(_)
      D(s) == LET x == DivTen(Len(s), 0, <<>>, s)
              IN IF \A i \in 1..Len(x.q) : x.q[i] = 0 THEN <<48 + x.r>> ELSE Append(D(x.q), 48 + x.r)
  IN D(b)
=============================================================================
