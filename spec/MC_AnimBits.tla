---------------------------- MODULE MC_AnimBits -----------------------------
(* A writer of compressed tracks, bit by bit: ranges with any bit counts, any    *)
(* flags, then the frames, slot by slot, appended to a stream of bits. Reading   *)
(* the bytes gives back what was appended.                                       *)
EXTENDS Anim, TLC, Json
CONSTANTS Types, FlagSet, Widths, Strides, Starts, MaxFrames, Patterns
VARIABLES t, f, w, n, slot, bits, given
vars == <<t, f, w, n, slot, bits, given>>
RECURSIVE Sorted(_)
Sorted(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Sorted(X \ {m})
Ws == Sorted(Widths)
Init == /\ t \in Types /\ f \in FlagSet
        /\ \E a \in Strides : \E b \in Starts :
             w = [k \in 1..RangesOf[t] |-> IF t = "Boolean" THEN 1 ELSE Ws[((a * k + b) % Len(Ws)) + 1]]
        /\ n = 0 /\ slot = 1 /\ bits = <<>> /\ given = <<>>
S == Slots(t, f)
WidthOf(j) == IF S[j].k = 0 THEN 1 ELSE w[S[j].k]
(* patterns of q bits: none, all, every other, the first, the last *)
Pat(p, q) == [i \in 1..q |-> CASE p = "none" -> 0 [] p = "all" -> 1 [] p = "odd" -> i % 2 [] p = "first" -> (IF i = 1 THEN 1 ELSE 0) [] p = "last" -> (IF i = q THEN 1 ELSE 0)]
Put == /\ n < MaxFrames /\ S # <<>>
       /\ \E p \in (IF WidthOf(slot) = 0 THEN {"none"} ELSE Patterns) :
            /\ bits' = bits \o Pat(p, WidthOf(slot))
            /\ given' = Append(given, Pat(p, WidthOf(slot)))
       /\ IF slot = Len(S) THEN slot' = 1 /\ n' = n + 1 ELSE slot' = slot + 1 /\ n' = n
       /\ UNCHANGED <<t, f, w>>
Next == Put
Spec == Init /\ [][Next]_vars
Byte(i) == SumTo([j \in 1..8 |-> IF 8 * (i - 1) + j <= Len(bits) THEN bits[8 * (i - 1) + j] * P2(j - 1) ELSE 0], 8)
Stream == [i \in 1..((Len(bits) + 7) \div 8) |-> Byte(i)]
Total == SumTo([j \in 1..Len(S) |-> WidthOf(j)], Len(S))
Num(k) == << <<0, 0, 128, 63>>, <<0, 0, 0, 64>>, <<0, 0, 64, 64>>, <<0, 0, 128, 64>>, <<0, 0, 160, 64>>, <<0, 0, 192, 64>>,
             <<0, 0, 224, 64>>, <<0, 0, 0, 65>>, <<0, 0, 16, 65>>, <<0, 0, 32, 65>>, <<0, 0, 48, 65>> >>[k]     \* 1.0, 2.0, ...
Bytes0 ==
  LET head == 16 + 16 * RangesOf[t]
      dp == LE(head, 2)
  IN <<4, 0, f, 0>> \o dp \o LE(Total, 2) \o LE(head + ValueSize(t), 4) \o LE(n, 4)
     \o Concat([k \in 1..RangesOf[t] |-> (IF t = "Boolean" THEN Zeros(16) ELSE IF t = "PatternIndex" THEN LE(7, 4) \o LE(9, 4) \o LE(w[k], 4) \o Zeros(4)
                                          ELSE (IF k % 2 = 0 THEN Zeros(4) ELSE Num(k)) \o Num(k + 1) \o LE(w[k], 4) \o Zeros(4))])
     \o (IF t = "Boolean" THEN <<0>> ELSE Concat([c \in 1..AnimCells[t] |-> Num(c)]) \o (IF t = "Transform" THEN <<1, 0, 0, 0>> ELSE <<>>))
     \o Stream
ValueOfBits(x) == BNorm([j \in 1..((Len(x) + 11) \div 12) |-> SumTo([i \in 1..12 |-> IF 12 * (j - 1) + i <= Len(x) THEN x[12 * (j - 1) + i] * P2(i - 1) ELSE 0], 12)])
Whole == slot = 1 /\ n > 0
Recovered ==
  Whole => LET x == TrackDecode(t, "Compressed", n, Bytes0) IN
    /\ x.ok
    /\ Len(x.frames) = (IF Total = 0 THEN 1 ELSE n)
    /\ \A i \in 1..Len(x.frames) : \A j \in 1..Len(S) : \A c \in 1..Len(S[j].c) :
         LET y == x.frames[i][S[j].c[c]]
             v == given[Len(S) * (i - 1) + j]
         IN CASE y.k = "lerp" -> y.q = ValueOfBits(v)
              [] y.k = "sign" -> y.flip = (v = <<1>>)
              [] t = "Boolean" -> y.b = v
              [] t = "PatternIndex" -> y.b = Low4(BAdd(BInt(7), ValueOfBits(v)))
              [] OTHER -> WidthOf(j) = 0
    /\ \A i \in 1..Len(x.frames) : \A c \in 1..AnimCells[t] : (\A j \in 1..Len(S) : c \notin {S[j].c[k] : k \in 1..Len(S[j].c)}) => x.frames[i][c].k = "raw"
    /\ x.comp = (t = "Transform")
    (* one frame more cannot be read *)
    /\ (Total >= 8) => ~TrackDecode(t, "Compressed", n + 1, Bytes0).ok
Emit == IF Whole THEN PrintT(<<"GEN", ToJson([t |-> t, n |-> n, b |-> Bytes0])>>) ELSE TRUE
=============================================================================
