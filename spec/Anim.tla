------------------------------- MODULE Anim --------------------------------
(* Animations: what saving preserves (D06), how the buffer of the file is       *)
(* organised (D07), what the bytes of a track denote (D08), what is refused      *)
(* and what a file denotes as a whole (D09).                                     *)
(* A frame value is a sequence of cells: floats, a pattern index or a boolean.   *)
EXTENDS Skel, Big

AnimCells == [Transform |-> 10, UvTransform |-> 5, Float |-> 1, PatternIndex |-> 1, Boolean |-> 1, Vector4 |-> 4]
AnimTypes == DOMAIN AnimCells
CellSize(t) == IF t = "Boolean" THEN 1 ELSE 4
ValueSize(t) == IF t = "Transform" THEN 44 ELSE AnimCells[t] * CellSize(t)   \* a transform ends in a 32 bit flag
CellsOf(t, x) ==
  CASE t = "Transform"   -> <<x.scale.x, x.scale.y, x.scale.z, x.rotation.x, x.rotation.y, x.rotation.z, x.rotation.w,
                              x.translation.x, x.translation.y, x.translation.z>>
    [] t = "UvTransform" -> <<x.scale_u, x.scale_v, x.rotation, x.translate_u, x.translate_v>>
    [] t = "Vector4"     -> <<x.x, x.y, x.z, x.w>>
    [] OTHER             -> <<x>>
RawCells(t, b, at) == [c \in 1..AnimCells[t] |-> Slice(b, at + CellSize(t) * (c - 1), CellSize(t))]
NumEq(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ Key(x) = Key(y)

(* ---- how tracks are stored *)
RangesOf == [Transform |-> 9, UvTransform |-> 5, Float |-> 1, PatternIndex |-> 1, Boolean |-> 1, Vector4 |-> 4]   \* of 16 bytes each
Overhead(t) == 16 + ValueSize(t) + 16 * RangesOf[t]
(* Compression pays once the frames take more room than the header. *)
StorageOf(t, n) ==
  IF n <= 1 THEN (IF t = "Transform" THEN "ConstTransform" ELSE "Constant")
  ELSE IF n > (Overhead(t) \div ValueSize(t)) + 1 THEN "Compressed" ELSE "Direct"

(* The range k of a compressed track. *)
RangeAt(b, k) == LET p == 16 * k IN [min |-> Slice(b, p, 4), max |-> Slice(b, p + 4, 4), bits |-> Slice(b, p + 8, 8)]
RangeBits(t, r) == IF t = "Boolean" THEN 1
                   ELSE IF t = "PatternIndex" THEN UInt(r.bits)
                   ELSE IF NumEq(r.min, r.max) THEN 0 ELSE UInt(r.bits)
FlagBit(f, i) == (f \div P2(i)) % 2 = 1
Slot1(k, c) == [k |-> k, c |-> c]
(* What the bits of one frame are: slots of a range (0 for the sign of the rotation's w) and the cells it gives. *)
Slots(t, f) ==
  LET each(ks, d) == [i \in 1..Len(ks) |-> Slot1(ks[i], <<ks[i] + d>>)]
  IN CASE t = "Transform" ->
            (IF ~FlagBit(f, 0) THEN <<>> ELSE IF FlagBit(f, 1) THEN <<Slot1(1, <<1, 2, 3>>)>> ELSE each(<<1, 2, 3>>, 0))
            \o (IF FlagBit(f, 2) THEN each(<<4, 5, 6>>, 0) ELSE <<>>)
            \o (IF FlagBit(f, 3) THEN each(<<7, 8, 9>>, 1) ELSE <<>>)
            \o (IF FlagBit(f, 2) THEN <<Slot1(0, <<7>>)>> ELSE <<>>)
       [] t = "UvTransform" -> (IF FlagBit(f, 1) THEN <<Slot1(1, <<1, 2>>)>> ELSE each(<<1, 2>>, 0)) \o each(<<3, 4, 5>>, 0)
       [] OTHER -> each([i \in 1..RangesOf[t] |-> i], 0)
(* n bits of s from position p, least significant first. *)
BitsAt(s, p, n) ==
  LET digit(j) == LET q == p + 12 * (j - 1)
                      w == Min(12, n - 12 * (j - 1))
                      y == q \div 8
                  IN ((At(s, y + 1) + At(s, y + 2) * 256 + At(s, y + 3) * 65536) \div P2(q % 8)) % P2(w)
  IN BNorm([j \in 1..((n + 11) \div 12) |-> digit(j)])
Mask(n) == BSub(BShl(<<1>>, n), <<1>>)
Big4(b) == BNorm(<<b[1] + (b[2] % 16) * 256, (b[2] \div 16) + b[3] * 16, b[4]>>)
Low4(a) == <<At(a, 1) % 256, (At(a, 1) \div 256) + (At(a, 2) % 16) * 16, At(a, 2) \div 16, At(a, 3) % 256>>

Raw(b) == [k |-> "raw", b |-> b]
(* What the n frames of type t stored in the bytes b in the given way are: for each frame and cell the bytes, an            *)
(* interpolated number or the sign of the rotation's w; ok is FALSE if the bytes denote nothing.                            *)
TrackDecode(t, storage, n, b) ==
  LET no == [ok |-> FALSE]
      z == ValueSize(t)
      R0 == RangesOf[t]
  IN IF storage # "Compressed" THEN
       IF n > Len(b) \div z THEN no
       ELSE [ok |-> TRUE,
             comp |-> n > 0 /\ t = "Transform" /\ Slice(b, 40, 4) # Zeros(4),
             frames |-> [i \in 1..n |-> LET v == RawCells(t, b, z * (i - 1)) IN [c \in 1..AnimCells[t] |-> Raw(v[c])]]]
     ELSE IF Len(b) < 16 + 16 * R0 THEN no
     ELSE
       LET f == b[3]
           dp == UInt(Slice(b, 4, 2))
           bp == UInt(Slice(b, 8, 4))
           rs == [k \in 1..R0 |-> RangeAt(b, k)]
           sl == Slots(t, f)
           w(j) == IF sl[j].k = 0 THEN 1 ELSE RangeBits(t, rs[sl[j].k])
           ws == [j \in 1..Len(sl) |-> w(j)]
           total == SumTo(ws, Len(sl))
           m == IF total = 0 /\ n > 0 THEN 1 ELSE n
           s == IF bp >= Len(b) THEN <<>> ELSE SubSeq(b, bp + 1, Len(b))
       IN IF t # "Boolean" /\ \E k \in 1..R0 : UInt(rs[k].bits) > 32 THEN no
          ELSE IF dp # 0 /\ dp + z > Len(b) THEN no
          ELSE IF UInt(Slice(b, 6, 2)) # total \/ bp = 0 THEN no
          ELSE IF dp = 0 /\ m > 0 THEN no
          ELSE IF total > 0 /\ m > (8 * Len(s)) \div total THEN no
          ELSE
            LET def == IF m = 0 THEN <<>> ELSE RawCells(t, b, dp)
                d(c) == IF t = "Transform" /\ FlagBit(f, 1) /\ c <= 3 THEN def[1]
                        ELSE IF t = "UvTransform" /\ FlagBit(f, 1) /\ c <= 2 THEN def[1] ELSE def[c]
                slotOf == [c \in 1..AnimCells[t] |-> LET J == {j \in 1..Len(sl) : \E x \in 1..Len(sl[j].c) : sl[j].c[x] = c}
                                                      IN IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE]
                before == [j \in 1..Len(sl) |-> SumTo(ws, j - 1)]
                cell(i, c) ==
                  LET j == slotOf[c] IN
                  IF j = 0 THEN Raw(d(c))
                  ELSE LET p == total * (i - 1) + before[j]
                           r == rs[sl[j].k]
                       IN IF sl[j].k = 0 THEN [k |-> "sign", flip |-> BitsAt(s, p, 1) # <<>>]
                          ELSE IF t = "Boolean" THEN Raw(<<IF BitsAt(s, p, 1) = <<>> THEN 0 ELSE 1>>)
                          ELSE IF t = "PatternIndex" THEN Raw(IF ws[j] = 0 THEN r.min ELSE Low4(BAdd(BitsAt(s, p, ws[j]), Big4(r.min))))
                          ELSE IF ws[j] = 0 THEN Raw(d(c))
                          ELSE [k |-> "lerp", min |-> r.min, max |-> r.max, q |-> BitsAt(s, p, ws[j]), s |-> Mask(ws[j])]
            IN [ok |-> TRUE,
                comp |-> m > 0 /\ t = "Transform" /\ Slice(b, dp + 40, 4) # Zeros(4),
                frames |-> [i \in 1..m |-> [c \in 1..AnimCells[t] |-> cell(i, c)]]]

(* ---- the w of a rotation: what is missing of x, y, z to length one, with the stored sign *)
(* floor(|f| * 2^24) for |f| < 2 *)
Fix24(f) == LET x == 126 - Exp1(f) IN IF x <= 0 THEN Full(f) * P2(-x) ELSE IF x > 24 THEN 0 ELSE Full(f) \div P2(x)
Sq24(f) == LET a == BInt(Fix24(f)) IN BMul(a, a)                    \* 2^48 times the square
One48 == BShl(<<1>>, 48)
NearOne == BShl(<<1>>, 29)                                          \* 2^-19
Far1(f) == ~IsFinite(f) \/ Expo(f) > 127                           \* at least 2
RotW(x, y, z, w, flip) ==
  IF IsNaN(x) \/ IsNaN(y) \/ IsNaN(z) THEN TRUE
  ELSE IF ~IsFinite(w) \/ (Sign(w) = 1) # flip THEN FALSE
  ELSE IF Far1(x) \/ Far1(y) \/ Far1(z) THEN IsZero(w)
  ELSE LET X == BAdd(BAdd(Sq24(x), Sq24(y)), Sq24(z))
       IN IF BCmp(X, BAdd(One48, NearOne)) > 0 THEN IsZero(w)
          ELSE IF Far1(w) THEN FALSE
          ELSE LET y2 == BAdd(X, Sq24(w))
               IN IF BCmp(X, One48) > 0 THEN BCmp(Sq24(w), NearOne) <= 0
                  ELSE BCmp(y2, BAdd(One48, NearOne)) <= 0 /\ BCmp(BAdd(y2, NearOne), One48) >= 0

CellOk(t, x, y, ys) ==
  CASE x.k = "raw"  -> IF t = "Boolean" THEN y = <<IF x.b[1] = 0 THEN 0 ELSE 1>> ELSE y = x.b
    [] x.k = "lerp" -> (IsFinite(x.min) /\ IsFinite(x.max)) => (IsFinite(y) /\ IsLerp(y, x.min, x.max, x.q, x.s))
    [] OTHER        -> RotW(ys[4], ys[5], ys[6], y, x.flip)
(* r: the track data loaded from the track s of a file with the given buffer *)
TrackRange(s, buf) == LET a == UInt(s.data_offset)
                          z == UInt(s.data_size)
                      IN IF a > Len(buf) \/ z > Len(buf) - a THEN <<>> ELSE << Slice(buf, a, z) >>
TrackOf(s, buf) == LET x == TrackRange(s, buf)
                   IN IF x = <<>> THEN [ok |-> FALSE] ELSE TrackDecode(s.flags.track_type.v, s.flags.compression_type.v, UInt(s.frame_count), x[1])
FlagsAs(f) == [override_translation |-> <<f % 2>>, override_rotation |-> <<(f \div 2) % 2>>,
               override_scale |-> <<(f \div 4) % 2>>, override_compensate_scale |-> <<(f \div 8) % 2>>]
TrackJudge(s, x, r) ==
  LET t == s.flags.track_type.v IN
  IF r.name # Text(s.name) THEN "a track name differs"
  ELSE IF r.transform_flags # FlagsAs(s.transform_flags.bytes[1][1]) THEN "transform flags differ"
  ELSE IF r.values.v # t THEN "the type of a track differs"
  ELSE IF Len(r.values.d) # Len(x.frames) THEN "number of frames differs"
  ELSE IF (r.compensate_scale = <<1>>) # x.comp THEN "scale compensation differs"
  ELSE IF \E i \in 1..Len(x.frames) : LET ys == CellsOf(t, r.values.d[i]) IN \E c \in 1..AnimCells[t] : ~CellOk(t, x.frames[i][c], ys[c], ys)
       THEN "a value differs from what the stored bits denote"
  ELSE ""
(* All tracks of a file or of animation data, in depth first order. *)
NodesIn(gs) == Concat([g \in 1..Len(gs) |-> gs[g].nodes])
TracksIn(gs) == LET ns == NodesIn(gs) IN Concat([n \in 1..Len(ns) |-> ns[n].tracks])
FirstBad(n, J(_)) == LET RECURSIVE W1(_)
                         W1(i) == IF i > n THEN "" ELSE LET x == J(i) IN IF x # "" THEN x ELSE W1(i + 1)
                     IN W1(1)
SameShape(gs, hs) ==
  /\ Len(gs) = Len(hs)
  /\ \A g \in 1..Len(gs) : /\ gs[g].group_type = hs[g].group_type /\ Len(gs[g].nodes) = Len(hs[g].nodes)
                           /\ \A n \in 1..Len(gs[g].nodes) : Len(gs[g].nodes[n].tracks) = Len(hs[g].nodes[n].tracks)

(* ---- version 1.2: only which tracks there are *)
V12Group == [Transform |-> "Transform", UvTransform |-> "Material", Visibility |-> "Visibility"]
V12Name == [Transform |-> <<84, 114, 97, 110, 115, 102, 111, 114, 109>>, UvTransform |-> <<77, 97, 116, 101, 114, 105, 97, 108>>,
            Visibility |-> <<86, 105, 115, 105, 98, 105, 108, 105, 116, 121>>]
(* bytes that must follow the header word of a property's buffer *)
V12Needs(b) ==
  LET h == Slice(b, 0, 4)
      is(x, y) == h = <<x, y, 0, 0>>
  IN CASE is(3, 16) -> 4 [] is(3, 32) -> 8 [] is(3, 48) -> 12 [] is(3, 64) -> 16 [] is(19, 16) -> 2
       [] is(9, 52) -> 52 [] is(9, 68) -> 64
       [] is(8, 67) -> IF Len(b) < 8 THEN 4 ELSE IF UInt(Slice(b, 4, 4)) > Len(b) THEN Far ELSE RU(12 + UInt(Slice(b, 4, 4)), 4) - 4 + 36
       [] OTHER -> 0
V12Ok(m) == \A i \in 1..Len(m.tracks) : \A p \in 1..Len(m.tracks[i].properties) :
              LET k == UInt(m.tracks[i].properties[p].buffer_index)
              IN k < Len(m.buffers) /\ LET b == m.buffers[k + 1] IN Len(b) >= 4 /\ Len(b) >= 4 + V12Needs(b)
V12Judge(m, d) ==
  LET order == SelectSeq([i \in 1..Len(m.tracks) |-> IF \E j \in 1..i - 1 : m.tracks[j].track_type = m.tracks[i].track_type THEN "" ELSE m.tracks[i].track_type.v],
                         LAMBDA x : x # "")
      of(t) == SelectSeq(m.tracks, LAMBDA x : x.track_type.v = t)
  IN IF [g \in 1..Len(d.groups) |-> d.groups[g].group_type.v] # [g \in 1..Len(order) |-> V12Group[order[g]]] THEN "groups differ"
     ELSE IF \E g \in 1..Len(order) :
               LET ts == of(order[g])
                   ns == d.groups[g].nodes
               IN Len(ns) # Len(ts) \/ \E i \in 1..Len(ts) : ns[i].name # Text(ts[i].name) \/ Len(ns[i].tracks) # 1 \/ ns[i].tracks[1].name # V12Name[order[g]]
          THEN "nodes or tracks differ" ELSE ""

(* r: the outcome of loading the animation file f *)
AnimFileJudge(f, r) ==
  LET m == f.d
      good == IF f.v = "V12" THEN V12Ok(m) ELSE LET ts == TracksIn(m.groups) IN \A i \in 1..Len(ts) : TrackOf(ts[i], m.buffer).ok
      ver == CASE f.v = "V12" -> <<1, 2>> [] f.v = "V20" -> <<2, 0>> [] f.v = "V21" -> <<2, 1>>
  IN IF r.k = "panic" THEN r.e
     ELSE IF ~good THEN (IF r.k = "err" THEN "" ELSE "tracks without meaning are accepted")
     ELSE IF r.k = "err" THEN "rejected although well formed: " \o r.e
     ELSE LET d == r.v IN
       IF d.major_version # <<ver[1], 0>> \/ d.minor_version # <<ver[2], 0>> THEN "the version differs"
       ELSE IF d.final_frame_index # m.final_frame_index THEN "the final frame differs"
       ELSE IF f.v = "V12" THEN V12Judge(m, d)
       ELSE IF ~SameShape(m.groups, d.groups) THEN "groups, nodes or tracks differ"
       ELSE IF \E n \in 1..Len(NodesIn(m.groups)) : Text(NodesIn(m.groups)[n].name) # NodesIn(d.groups)[n].name THEN "a node name differs"
       ELSE LET ts == TracksIn(m.groups)
                xs == TracksIn(d.groups)
            IN FirstBad(Len(ts), LAMBDA i : TrackJudge(ts[i], TrackOf(ts[i], m.buffer), xs[i]))

(* ---- saving *)
Steps24 == Mask(24)
Usable(S) == \A f \in S : IsFinite(f) /\ Expo(f) < 253            \* so that differences are finite
Least(S) == CHOOSE f \in S : \A g \in S : Key(f) <= Key(g)
Most(S) == CHOOSE f \in S : \A g \in S : Key(f) >= Key(g)
Frames(v) == [i \in 1..Len(v.d) |-> CellsOf(v.v, v.d[i])]
ColumnOf(fs, c) == {fs[i][c] : i \in 1..Len(fs)}
Quantised(t, c) == t \notin {"PatternIndex", "Boolean"} /\ ~(t = "Transform" /\ c = 7)
AllFramesEqual(fs) == \A i \in 1..Len(fs) : \A c \in 1..Len(fs[i]) : NumEq(fs[i][c], fs[1][c])
(* the same, up to frames that are not numbers, with the frame y among them *)
CollapsesTo(fs, y) == \A c \in 1..Len(y) : \A i \in 1..Len(fs) : IsNaN(fs[i][c]) \/ NumEq(fs[i][c], y[c])
(* Error in steps allowed for single precision arithmetic in the quantisation. *)
Tol == 5
TrackKept(d, x) ==
  LET t == d.values.v
      fs == Frames(d.values)
      n == Len(fs)
  IN IF x.name # d.name THEN "a track name differs"
     ELSE IF x.transform_flags # d.transform_flags THEN "transform flags differ"
     ELSE IF x.values.v # t THEN "the type of a track differs"
     ELSE IF (x.compensate_scale = <<1>>) # (t = "Transform" /\ n > 0 /\ d.compensate_scale = <<1>>) THEN "scale compensation differs"
     ELSE LET ys == Frames(x.values) IN
       IF StorageOf(t, n) # "Compressed" THEN (IF ys = fs THEN "" ELSE "uncompressed values differ")
       ELSE IF Len(ys) # n THEN (IF Len(ys) = 1 /\ CollapsesTo(fs, ys[1]) THEN "" ELSE "number of frames differs")
       ELSE IF t \in {"PatternIndex", "Boolean"} THEN (IF ys = fs THEN "" ELSE "pattern indices or booleans differ")
       ELSE IF \E c \in 1..AnimCells[t] : Quantised(t, c) /\ Usable(ColumnOf(fs, c)) /\
                 LET S == ColumnOf(fs, c)
                     lo == Least(S)
                     hi == Most(S)
                 IN \E i \in 1..n : LET y == ys[i][c]
                                    IN ~IsFinite(y) \/ Key(y) < Key(lo) \/ Key(y) > Key(hi) \/ ~WithinSteps(y, fs[i][c], lo, hi, Tol, Steps24)
            THEN "a compressed value leaves its range or is off by more than the quantisation"
       ELSE IF t = "Transform" /\ \E i \in 1..n :
                 /\ \A c \in 4..7 : IsFinite(fs[i][c])
                 /\ \/ Sign(ys[i][7]) # Sign(fs[i][7])
                    \/ ~RotW(ys[i][4], ys[i][5], ys[i][6], ys[i][7], Sign(fs[i][7]) = 1)
            THEN "the w of a rotation is wrong"
       ELSE ""
AnimKept(d, x) ==
  IF x.major_version # d.major_version \/ x.minor_version # d.minor_version THEN "the version differs"
  ELSE IF x.final_frame_index # d.final_frame_index THEN "the final frame differs"
  ELSE IF ~SameShape(d.groups, x.groups) THEN "groups, nodes or tracks differ"
  ELSE IF \E n \in 1..Len(NodesIn(d.groups)) : NodesIn(d.groups)[n].name # NodesIn(x.groups)[n].name THEN "a node name differs"
  ELSE LET ts == TracksIn(d.groups)
           xs == TracksIn(x.groups)
       IN FirstBad(Len(ts), LAMBDA i : TrackKept(ts[i], xs[i]))

(* ---- the file: b are the bytes stored for the track data d *)
CompWord(d) == IF d.values.v = "Transform" THEN LE(d.compensate_scale[1], 4) ELSE <<>>
PlainBytes(d) == LET fs == Frames(d.values) IN Concat([i \in 1..Len(fs) |-> Concat(fs[i]) \o CompWord(d)])
FlagWord(t, fs) ==
  LET even == CASE t = "Transform" -> \A i \in 1..Len(fs) : NumEq(fs[i][1], fs[i][2]) /\ NumEq(fs[i][2], fs[i][3])
                [] t = "UvTransform" -> \A i \in 1..Len(fs) : NumEq(fs[i][1], fs[i][2])
                [] OTHER -> FALSE
  IN IF t \in {"Transform", "UvTransform"} THEN <<(IF even THEN 15 ELSE 13), 0>> ELSE <<0, 0>>
(* the cell whose values the range k bounds *)
CellOfRange(t, k) == IF t = "Transform" /\ k > 6 THEN k + 1 ELSE k
CompressedJudge(d, b) ==
  LET t == d.values.v
      fs == Frames(d.values)
      n == Len(fs)
      x == TrackDecode(t, "Compressed", n, b)
      dp == UInt(Slice(b, 4, 2))
      bp == UInt(Slice(b, 8, 4))
      total == UInt(Slice(b, 6, 2))
      col(k) == ColumnOf(fs, CellOfRange(t, k))
      rangeBad(k) ==
        LET r == RangeAt(b, k)
            S == col(k)
        IN CASE t = "Boolean" -> Slice(b, 16, 16) # Zeros(16)
             [] t = "PatternIndex" -> \/ r.min \notin S \/ r.max \notin S
                                      \/ (\E f \in S : BCmp(Big4(f), Big4(r.min)) < 0 \/ BCmp(Big4(f), Big4(r.max)) > 0)
                                      \/ BCmp(BSub(Big4(r.max), Big4(r.min)), Mask(UInt(r.bits))) > 0
             [] OTHER -> Usable(S) /\ \/ ~NumEq(r.min, Least(S)) \/ ~NumEq(r.max, Most(S))
                                      \/ UInt(r.bits) # (IF NumEq(r.min, r.max) THEN 0 ELSE 24)
      cellBad(i, c) ==
        LET y == x.frames[i][c]
            v == fs[i][c]
        IN CASE y.k = "raw" -> IF t = "Boolean" \/ t = "PatternIndex" THEN y.b # v ELSE IsFinite(v) /\ ~NumEq(y.b, v)
             [] y.k = "sign" -> y.flip # (Sign(v) = 1)
             [] OTHER -> Usable(ColumnOf(fs, c)) /\ ~QWithinSteps(y.q, v, y.min, y.max, Tol, y.s)
  IN IF ~x.ok THEN "a compressed track cannot be decoded"
     ELSE IF Slice(b, 0, 2) # <<4, 0>> \/ Slice(b, 2, 2) # FlagWord(t, fs) THEN "the compression flags are wrong"
     ELSE IF Slice(b, 12, 4) # LE(n, 4) THEN "the frame count of the compression header is wrong"
     ELSE IF dp < 16 + 16 * RangesOf[t] \/ bp < dp + ValueSize(t) THEN "parts of a compressed track overlap"
     ELSE IF Len(b) # bp + ((n * total + 7) \div 8) THEN "the bit stream has another size than its frames"
     ELSE IF \E k \in 1..RangesOf[t] : rangeBad(k) THEN "a range is not that of the values"
     ELSE IF x.comp # (t = "Transform" /\ d.compensate_scale = <<1>>) THEN "scale compensation is not stored"
     ELSE IF t \notin {"PatternIndex", "Boolean"} /\ \E c \in 1..AnimCells[t] : Usable(ColumnOf(fs, c)) /\ ~NumEq(RawCells(t, b, dp)[c], Least(ColumnOf(fs, c)))
          THEN "a default is not the least value"
     ELSE IF Len(x.frames) # n /\ ~AllFramesEqual(fs) /\ \A c \in 1..AnimCells[t] : Usable(ColumnOf(fs, c)) THEN "frames are missing"
     ELSE IF \E i \in 1..Len(x.frames) : \E c \in 1..AnimCells[t] : cellBad(i, c) THEN "the bits do not stand for the values"
     ELSE ""
TrackFileJudge(d, s, b) ==
  LET t == d.values.v
      n == Len(d.values.d)
  IN IF Text(s.name) # d.name THEN "a track name differs"
     ELSE IF s.flags.track_type.v # t \/ s.flags.compression_type.v # StorageOf(t, n) THEN "the type or storage of a track is wrong"
     ELSE IF UInt(s.frame_count) # n THEN "a frame count is wrong"
     ELSE IF FlagsAs(s.transform_flags.bytes[1][1]) # d.transform_flags \/ s.transform_flags.bytes[1][1] > 15 \/ (\E i \in 2..4 : s.transform_flags.bytes[i] # <<0>>) THEN "transform flags differ"
     ELSE IF StorageOf(t, n) # "Compressed" THEN (IF b = PlainBytes(d) THEN "" ELSE "the bytes of an uncompressed track differ")
     ELSE CompressedJudge(d, b)
AnimLayout(d, f) ==
  LET m == f.d
      ts == TracksIn(d.groups)
      ss == TracksIn(m.groups)
      sizes == [i \in 1..Len(ss) |-> UInt(ss[i].data_size)]
  IN IF f.v # (IF d.minor_version = <<0, 0>> THEN "V20" ELSE "V21") THEN "another version is written"
     ELSE IF m.final_frame_index # d.final_frame_index THEN "the final frame differs"
     ELSE IF ~SameShape(d.groups, m.groups) THEN "groups, nodes or tracks differ"
     ELSE IF \E n \in 1..Len(NodesIn(d.groups)) : NodesIn(d.groups)[n].name # Text(NodesIn(m.groups)[n].name) THEN "a node name differs"
     ELSE IF \E i \in 1..Len(ss) : sizes[i] > Len(m.buffer) \/ UInt(ss[i].data_offset) # SumTo(sizes, i - 1) THEN "the data of tracks overlaps or leaves a gap"
     ELSE IF SumTo(sizes, Len(ss)) # Len(m.buffer) THEN "the buffer is not covered by the tracks"
     ELSE FirstBad(Len(ts), LAMBDA i : TrackFileJudge(ts[i], ss[i], Slice(m.buffer, UInt(ss[i].data_offset), sizes[i])))

(* ---- what is refused *)
AnimErrors(d) ==
  LET ts == TracksIn(d.groups)
      lens == {Len(ts[i].values.d) : i \in 1..Len(ts)}
      last == (IF lens = {} THEN 0 ELSE CHOOSE n \in lens : \A k \in lens : k <= n) - 1
      f == d.final_frame_index
      whole == IF IsZero(f) THEN 0 ELSE IF Expo(f) > 149 THEN 16777216 ELSE IF Expo(f) < 127 THEN 0 ELSE Full(f) \div P2(150 - Expo(f))
  IN (IF d.major_version = <<2, 0>> /\ d.minor_version \in {<<0, 0>>, <<1, 0>>} THEN {}
      ELSE {[e |-> "UnsupportedVersion", a |-> d.major_version, b |-> d.minor_version]})
     \cup (IF ~IsNaN(f) /\ (Sign(f) = 0 \/ IsZero(f)) /\ whole >= last THEN {} ELSE {[e |-> "InvalidFinalFrameIndex", a |-> f, b |-> <<>>]})
=============================================================================
