------------------------------ MODULE MC_Shader -----------------------------
(* Reading the metadata of a binary as one pass (header, entries list by list, *)
(* code, names) finds what the binary stores at the addressed places, whatever  *)
(* the order of its sections, and refuses binaries that are cut short.          *)
EXTENDS Shader, Json
CONSTANTS MaxCount, Orders, Bases, Cuts, NameModes
VARIABLES counts, order, base, cut, mode, img, at, got, phase
vars == <<counts, order, base, cut, mode, img, at, got, phase>>

AllOrders == {p \in [1..5 -> 1..5] : \A i, j \in 1..5 : i # j => p[i] # p[j]}
(* the orders tried: rotations of the ascending and of the descending order, or all *)
Rotations == {[i \in 1..5 |-> ((i + r - 1) % 5) + 1] : r \in 0..4} \cup {[i \in 1..5 |-> 5 - ((i + r - 1) % 5)] : r \in 0..4}
OrderSet == IF Orders = 0 THEN {[i \in 1..5 |-> i], [i \in 1..5 |-> 6 - i]} ELSE IF Orders = 1 THEN Rotations ELSE AllOrders

NameText(k, i) == [j \in 1..(k + i - 2) |-> 96 + (k * 3) + i]     \* the first one is empty
Names == Concat([k \in 1..4 |-> [i \in 1..counts[k] |-> <<k, i>>]])
NameSlot(x) == Len(NameText(x[1], x[2])) + 1
(* offset of a name in the string section: in order, in reverse order, or all names sharing one text's start *)
NamePos(m, x) ==
  LET n == Len(Names)
      i == CHOOSE i \in 1..n : Names[i] = x
  IN IF m = "forward" THEN SumTo([j \in 1..n |-> NameSlot(Names[j])], i - 1)
     ELSE IF m = "reverse" THEN SumTo([j \in 1..n |-> NameSlot(Names[n + 1 - j])], n - i)
     ELSE 0
StringsLen == IF mode = "shared" THEN 12 ELSE SumTo([j \in 1..Len(Names) |-> NameSlot(Names[j])], Len(Names))
SectionLen(s) == IF s = 5 THEN StringsLen ELSE EntrySize[s] * counts[s]
(* sections follow each other in the chosen order, with a gap of 4 bytes *)
SectionPos(s) == LET at0 == CHOOSE i \in 1..5 : order[i] = s IN SumTo([j \in 1..5 |-> SectionLen(order[j]) + 4], at0 - 1)
W(n) == LE(n, 4)
TypeNumber(k, i) == LET ts == <<0, 4, 7, 20, 22, 36, 37, 38, 39, 50, 67, 68, 69, 73, 103>> IN ts[((k * 7 + i * 4 + order[1]) % 15) + 1]
EntryWords(k, i) == [j \in 1..((EntryUsed[k] - 40) \div 4) |-> IF k > 1 /\ j = 1 THEN W(TypeNumber(k, i)) ELSE W(100000 * k + 1000 * i + j)]
Chunks ==
  << <<HeaderAt, W(7) \o W(base) \o W(1)>>, <<HeaderAt + 44, Concat([k \in 1..4 |-> W(counts[k]) \o W(SectionPos(k))])>>,
     <<HeaderAt + 100, W(StringsLen) \o W(SectionPos(5))>>, <<CodeLengthAt, W(IF base > CodeAt THEN base - CodeAt ELSE 0)>> >>
  \o Concat([k \in 1..4 |-> Concat([i \in 1..counts[k] |->
       << <<base + SectionPos(k) + EntrySize[k] * (i - 1), W(NamePos(mode, <<k, i>>)) \o W(NameSlot(<<k, i>>))>>,
          <<base + SectionPos(k) + EntrySize[k] * (i - 1) + 40, Concat(EntryWords(k, i))>> >>])])
  \o (IF mode = "shared" THEN << <<base + SectionPos(5), [j \in 1..12 |-> 64 + j]>> >>
      ELSE [n \in 1..Len(Names) |-> <<base + SectionPos(5) + NamePos(mode, Names[n]), NameText(Names[n][1], Names[n][2])>>])
Whole == base + SumTo([j \in 1..5 |-> SectionLen(order[j]) + 4], 5)
Length == Max(Whole, CodeLengthAt + 4) - cut
Image == LET RECURSIVE Put(_, _)
             Put(b, i) == IF i > Len(Chunks) THEN b
                          ELSE LET c == Chunks[i]
                               IN Put([p \in 1..Len(b) |-> IF p > c[1] /\ p <= c[1] + Len(c[2]) THEN c[2][p - c[1]] ELSE b[p]], i + 1)
         IN Put(Zeros(Length), 1)
Init == /\ counts \in [1..4 -> 0..MaxCount] /\ order \in OrderSet /\ base \in Bases /\ cut \in Cuts /\ mode \in NameModes
        /\ img = <<>> /\ at = <<1, 1>> /\ got = <<<<>>, <<>>, <<>>, <<>>>> /\ phase = "build"
Keep == UNCHANGED <<counts, order, base, cut, mode>>
Build == phase = "build" /\ img' = Image /\ phase' = "entries" /\ UNCHANGED <<at, got>> /\ Keep
(* one entry of the list at[1]; the walk stops at the first that is not inside of the binary *)
Step == /\ phase = "entries" /\ Keep /\ UNCHANGED img
        /\ LET k == at[1]
               i == at[2]
               p == EntryAt(img, k, i)
           IN IF ~HasHeader(img) THEN phase' = "refused" /\ UNCHANGED <<at, got>>
              ELSE IF k = 5 THEN phase' = (IF Len(img) < CodeLengthAt + 4 THEN "refused" ELSE IF ~Within(img, Min(CodeAt, Len(img)), N4(img, CodeLengthAt)) THEN "refused" ELSE "names") /\ at' = <<1, 1>> /\ UNCHANGED got
              ELSE IF i > ListCount(img, k) THEN at' = <<k + 1, 1>> /\ UNCHANGED <<got, phase>>
              ELSE IF p + EntryUsed[k] > Len(img) THEN phase' = "refused" /\ UNCHANGED <<at, got>>
              ELSE IF k > 1 /\ TypeNamed(N4(img, p + 40)) = {} THEN phase' = "refused" /\ UNCHANGED <<at, got>>
              ELSE got' = [got EXCEPT ![k] = Append(@, p)] /\ at' = <<k, i + 1>> /\ UNCHANGED phase
Name == /\ phase = "names" /\ Keep /\ UNCHANGED <<img, got>>
        /\ LET k == at[1]
               i == at[2]
           IN IF k = 5 THEN phase' = "loaded" /\ UNCHANGED at
              ELSE IF i > Len(got[k]) THEN at' = <<k + 1, 1>> /\ UNCHANGED phase
              ELSE LET p == got[k][i]
                       from == StringsAt(img) + N4(img, p)
                       n == NameLen(img, p)
                   IN IF n > 0 /\ from + n > Len(img) THEN phase' = "refused" /\ UNCHANGED at ELSE at' = <<k, i + 1>> /\ UNCHANGED phase
Next == Build \/ Step \/ Name
Spec == Init /\ [][Next]_vars
ExpectedName(k, i) == IF mode = "shared" THEN [j \in 1..Len(NameText(k, i)) |-> 64 + j] ELSE NameText(k, i)
Right == /\ phase = "refused" => ~Readable(img)
         /\ phase = "loaded" =>
              /\ Readable(img)
              /\ LET m == MetaOf(img)
                     lists == <<m.buffers, m.uniforms, m.inputs, m.outputs>>
                 IN \A k \in 1..4 : /\ Len(lists[k]) = counts[k]
                                    /\ \A i \in 1..counts[k] : lists[k][i].name = ExpectedName(k, i)
                                    /\ k > 1 => \A i \in 1..counts[k] : DataTypes[lists[k][i].data_type.v] = TypeNumber(k, i)
                                    /\ k = 1 => \A i \in 1..counts[k] : lists[k][i].used_size_in_bytes = EntryWords(k, i)[1] /\ lists[k][i].unk7 = EntryWords(k, i)[6]
                                    /\ k = 2 => \A i \in 1..counts[k] : lists[k][i].unk11 = EntryWords(k, i)[10]
                                    /\ k > 2 => \A i \in 1..counts[k] : lists[k][i].location = EntryWords(k, i)[3]
         /\ cut = 0 => phase # "refused"
Emit == IF phase \in {"loaded", "refused"} THEN PrintT(<<"GEN", ToJson([len |-> Length, chunks |-> Chunks])>>) ELSE TRUE
=============================================================================
