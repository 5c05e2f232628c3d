------------------------------- MODULE MC_Big -------------------------------
(* The arithmetic of Big agrees with TLC's where both apply, and the usual laws hold beyond. *)
EXTENDS Big, TLC
VARIABLES i, j
Nums == <<0, 1, 2, 7, 4095, 4096, 4097, 30000, 32767, 16777215, 16777216, 16777217, 400000000, 1073741823>>
Init == i \in 1..Len(Nums) /\ j \in 1..Len(Nums)
Next == UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_<<i, j>>
a == Nums[i]
b == Nums[j]
A == BInt(a)
C == BInt(b)
ToInt(x) == At(x, 1) + 4096 * At(x, 2) + 16777216 * At(x, 3)
Laws ==
  /\ ToInt(A) = a
  /\ ToInt(BAdd(A, C)) = a + b
  /\ (a >= b => ToInt(BSub(A, C)) = a - b)
  /\ BCmp(A, C) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
  /\ (a <= 32767 /\ b <= 32767 => ToInt(BMul(A, C)) = a * b)
  /\ BMul(A, C) = BMul(C, A)
  /\ BMul(A, BAdd(C, BMul(C, C))) = BAdd(BMul(A, C), BMul(BMul(A, C), C))
  /\ \A k \in {0, 1, 5, 11, 12, 13, 24, 50} : BShr(BShl(A, k), k) = A /\ BShl(A, k) = BMul(A, BShl(<<1>>, k))
  /\ BSub(BAdd(BMul(A, C), A), A) = BMul(A, C)
  /\ LET x == SSub(SInt_(a), SInt_(b)) IN ((x.n <=> a < b) \/ a = b) /\ ToInt(x.m) = Abs(a - b)
=============================================================================
