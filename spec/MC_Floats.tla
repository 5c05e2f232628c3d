----------------------------- MODULE MC_Floats ------------------------------
(* The float rules themselves: every half survives widening and narrowing,      *)
(* narrowing picks a nearest half and ties go to even, byte floats are nearest.  *)
EXTENDS Floats, TLC
VARIABLE h
Init == h = 0
Next == h < 65535 /\ h' = h + 1
Spec == Init /\ [][Next]_h
H == <<h % 256, h \div 256>>
Up(f) == LET k == Key(f) + 1 IN Make(0, k \div 8388608, k % 8388608)
Down(f) == LET k == Key(f) - 1 IN Make(0, k \div 8388608, k % 8388608)
RoundTrip == SameHalf(F16(F32of16(H)), H)
(* the singles next to the midpoint of H and the next half *)
Mid(a, b) == LET k == (Key(a) + Key(b)) \div 2 IN k
Fl(k) == Make(0, k \div 8388608, k % 8388608)
Nearest ==
  (h < 31743 /\ h >= 1024) =>
    LET a == F32of16(H)
        b == F32of16(<<(h + 1) % 256, (h + 1) \div 256>>)
        k == IF Expo(b) = Expo(a) \/ IsInf(b) THEN Key(a) + 4096 ELSE Key(a) + 4096
    IN /\ F16(Fl(k - 1)) = H
       /\ F16(Fl(k + 1)) = <<(h + 1) % 256, (h + 1) \div 256>>
       /\ F16(Fl(k)) = (IF h % 2 = 0 THEN H ELSE <<(h + 1) % 256, (h + 1) \div 256>>)
Mono == h < 31744 /\ h > 0 => Key(F32of16(H)) > Key(F32of16(<<(h - 1) % 256, (h - 1) \div 256>>))
BytesOK == h < 256 => /\ IsByteOf(h, ByteFloat[h])
                      /\ \A c \in 0..255 : c # h => ~IsByteOf(c, ByteFloat[h])
                      /\ (h > 0 => Key(ByteFloat[h]) > Key(ByteFloat[h - 1]))
Digits == h < 3000 => Dec(<<h % 256, h \div 256, 0, 0>>) =
            (LET RECURSIVE D(_)
                 D(n) == IF n < 10 THEN <<48 + n>> ELSE Append(D(n \div 10), 48 + (n % 10))
             IN D(h))
=============================================================================
