------------------------------ MODULE Compose -------------------------------
(* User defined types built from the layout primitives (the harness declares *)
(* the same types with the library's derive macros and containers).          *)
EXTENDS Formats

Const(bs) == Rep(Len(bs), [m |-> bs])
Pay == [A |-> Tag(3, U8), B |-> Tag(7, St(<<F("x", U32), F("s", Str)>>)), C |-> Tag(1, Arr(U16)), D |-> Tag(0, Unit), E |-> Tag(300, U64)]
Small == St(<<F("a", U8), F("b", U32)>>)
Padded == StPad(<<F("a", U8), F("p", Ptr(U16))>>, 3)
AlignedT(n) == Al(n, St(<<F("a", U8)>>))
RepU8 == Rep(1, [X |-> <<1>>, Y |-> <<200>>])
RepU16 == Rep(2, [X |-> <<1, 0>>, Y |-> <<0, 1>>])
RepU32 == Rep(4, [X |-> <<0, 0, 0, 0>>, Y |-> <<255, 255, 255, 255>>])
RepP == Al(2, Rep(5, [X |-> <<1, 0, 0, 0, 0>>, Y |-> <<0, 1, 0, 0, 0>>]))
VarE == [A |-> [t |-> U8], B |-> [t |-> St(<<F("x", U32), F("y", Ptr(U8))>>)], C |-> [t |-> U64], P |-> [t |-> StPad(<<F(1, U16), F(2, Str)>>, 5)]]
PadF(p) == StPad(Small.f, p)      \* a field of type Small followed by p zero bytes
FieldPadded == St(<<F("a", PadF(3)), F("p", Ptr(U8)), F("b", PadF(9))>>)
TuplePadded == St(<<F(1, PadF(2)), F(2, Ptr(U8)), F(3, PadF(11))>>)
PadVar == [A |-> [t |-> StPad(<<F("x", U32), F("y", Ptr(U8))>>, 12)], B |-> [t |-> St(<<F("x", PadF(6)), F("y", Ptr(U8))>>)],
           C |-> [t |-> St(<<F(1, PadF(10)), F(2, Ptr(U8))>>)], D |-> [t |-> StPad(<<F(1, Ptr(U8)), F(2, U8)>>, 1)]]
PadEnum == [A |-> [t |-> StPad(<<F(1, U8), F(2, U8)>>, 5)], B |-> [t |-> StPad(<<F("x", Ptr(U8))>>, 5)]]
WideRep(n) == Rep(n, [X |-> LE(1, n), Y |-> LE(70, n)])
AlEnum == Al(16, Var([A |-> [t |-> StPad(<<F(1, U8), F(2, U8)>>, 2)], B |-> [t |-> StPad(<<F("x", U16)>>, 2)]]))
Gen(t) == St(<<F("x", t), F("p", Ptr(t))>>)

ComposeTypes == [
  Ints    |-> St(<<F("a", U8), F("b", U16), F("c", U32), F("d", U64), F("e", B(4)), F("f", B(8)), F("g", B(1)), F("h", B(2)), F("i", B(4)), F("j", B(8))>>),
  PtrU8   |-> Ptr(U8), PtrU16 |-> Ptr(U16), PtrU32 |-> Ptr(U32), PtrU64 |-> Ptr(U64), PtrUnit |-> Ptr(Unit),
  Chain   |-> St(<<F("p", Ptr(Ptr(Ptr(U8)))), F("q", Ptr(Ptr(U32))), F("r", Ptr(U8))>>),
  Abs8    |-> APtr(1, U8),
  Abs16   |-> St(<<F("a", APtr(2, U16)), F("b", APtr(2, St(<<F("x", U8), F("y", APtr(2, U32))>>)))>>),
  AbsMix  |-> St(<<F("a", U8), F("p", APtr(1, U32)), F("q", APtr(4, U64)), F("r", APtr(8, CS(16))), F("s", APtr(2, U8)), F("t", Ptr(APtr(8, U16)))>>),
  ArrU8   |-> Arr(U8), ArrU64 |-> Arr(U64),
  Arrs    |-> St(<<F("a", Arr(U16)), F("b", Arr(Arr(U8))), F("c", Arr(Ptr(U16))), F("d", Arr(U8)), F("e", Arr(Str))>>),
  Bufs    |-> St(<<F("a", Buf), F("b", Arr(Buf)), F("c", U8), F("d", Buf), F("e", Ptr(U8))>>),
  Strs    |-> St(<<F("a", Str), F("b", Str8), F("c", Ptr(CS(1))), F("d", Ptr(CS(2))), F("e", Ptr(CS(16))), F("f", Ptr(Str)), F("g", Str)>>),
  StrIn   |-> St(<<F("a", U8), F("s", CS(4)), F("p", Ptr(U8)), F("t", CS(1)), F("q", Ptr(U16))>>),
  Enums   |-> St(<<F("a", En(Pay)), F("b", Arr(En(Pay))), F("c", En(Pay)), F("d", Ptr(En(Pay)))>>),
  Vars    |-> St(<<F("a", Var(VarE)), F("b", Ptr(Var(VarE))), F("c", Var(VarE))>>),
  Pads    |-> StPad(<<F("a", Padded), F("b", Arr(Padded)), F("c", Ptr(Padded)), F("d", U8)>>, 7),
  Aligned |-> St(<<F("a", U8), F("p", Ptr(AlignedT(16))), F("q", Ptr(AlignedT(1))), F("r", Ptr(AlignedT(2))), F("s", APtr(8, AlignedT(32))), F("t", Ptr(U8)),
                   F("u", Ptr(Vec(AlignedT(16)))), F("v", AlignedT(16))>>),
  Reprs   |-> St(<<F("a", RepU8), F("b", Ptr(RepU16)), F("c", Ptr(RepU8)), F("d", RepU32), F("e", Arr(RepU16)), F("f", Ptr(RepU32))>>),
  RepPads |-> St(<<F("a", RepP), F("p", Ptr(U8)), F("b", Arr(RepP)), F("c", Ptr(RepP)), F("d", Ptr(U8)), F("e", Vec(RepP)), F("f", Ptr(U8))>>),
  Tuple   |-> St(<<F(1, U8), F(2, Ptr(U16)), F(3, Str)>>),
  GenU16  |-> Gen(U16), GenStr |-> Gen(Str), GenSmall |-> Gen(Small),
  Lists   |-> St(<<F("n", U8), F("a", Vec(U16)), F("p", Ptr(Vec(U32))), F("b", Opt(U16)), F("q", Ptr(Opt(U64))), F("c", Vec(Ptr(U8))), F("d", Opt(Ptr(U16))),
                   F("e", Vec(Str)), F("r", Ptr(Vec(Ptr(U8))))>>),
  Fixed   |-> St(<<F("a", Tup(3, U16)), F("p", Ptr(Tup(3, U16))), F("b", Tup(2, Ptr(U8))), F("c", Arr(Tup(3, U8))), F("d", Tup(2, Small))>>),
  Deep    |-> Arr(St(<<F("n", Str), F("k", Arr(St(<<F("a", U8), F("v", En(Pay)), F("b", Buf)>>))), F("m", Ptr(Arr(Str)))>>)),
  Math    |-> St(<<F("a", Ptr(Vec3)), F("b", Ptr(Mat4)), F("c", Vec4), F("d", Ptr(Color4)), F("e", Mat3)>>),
  Magic   |-> St(<<F("p", Ptr(U8)), F("q", U16)>>),
  PtrOpts |-> Ptr(Vec(Opt(U16))),
  MagicT  |-> St(<<F(1, U8), F(2, Ptr(U8))>>),
  MagicE  |-> Var([A |-> [t |-> U16], B |-> [t |-> St(<<F("x", U8), F("y", Ptr(U8))>>)]]),
  Mixed   |-> St(<<F("n", U8), F("a", Vec(Opt(U32))), F("p", Ptr(U8)), F("b", Arr(Opt(U16))), F("c", Ptr(Vec(Var(VarE)))), F("d", Tup(3, Opt(U8))),
                   F("e", Vec(Var(VarE))), F("f", Arr(Var(VarE))), F("g", Vec(Vec(U8))), F("h", Arr(CS(4)))>>),
  NonZero |-> St(<<F("a", U16), F("p", Ptr(U32))>>),
  FieldPads |-> St(<<F("a", FieldPadded), F("b", Arr(FieldPadded)), F("c", Ptr(FieldPadded)), F("d", Ptr(U8))>>),
  TuplePads |-> St(<<F(1, TuplePadded), F(2, Arr(TuplePadded)), F(3, Ptr(TuplePadded)), F(4, Ptr(U8))>>),
  PadVars |-> St(<<F("a", Var(PadVar)), F("b", Ptr(Var(PadVar))), F("c", Arr(Var(PadVar))), F("d", Vec(Var(PadVar))), F("e", Ptr(U8))>>),
  PadEnums |-> St(<<F("a", Var(PadEnum)), F("b", Ptr(Var(PadEnum))), F("c", Ptr(U8)), F("d", Vec(Var(PadEnum))), F("e", Ptr(U8))>>),
  Wides   |-> St(<<F("n", Ptr(U8)), F("a", Ptr(WideRep(2))), F("m", Ptr(U8)), F("b", Ptr(WideRep(4))), F("o", Ptr(U8)), F("c", Ptr(WideRep(8))), F("d", Arr(WideRep(2))), F("e", WideRep(4)), F("f", APtr(2, WideRep(4)))>>),
  Aligned2 |-> St(<<F("n", Ptr(U8)), F("a", Ptr(AlignedT(7))), F("b", Ptr(AlEnum)), F("c", Ptr(U8)), F("d", APtr(4, AlEnum)), F("e", Arr(AlEnum)), F("f", Ptr(Opt(AlEnum)))>>),
  EndedField |-> St(<<F("a", U8), F("p", Str), F("b", Arr(U8))>>),
  EndedVar |-> Var([A |-> [t |-> Str], B |-> [t |-> St(<<F("x", U8), F("y", Arr(U8))>>)], C |-> [t |-> St(<<F("x", Ptr(U8))>>)], D |-> [t |-> Ptr(U8)]]),
  EndedTuple |-> St(<<F(1, U8), F(2, Ptr(U8))>>),
  Ended   |-> St(<<F("a", U8), F("p", Str), F("b", Arr(U8))>>)]
(* Types with leading constant bytes and with an aligned end. *)
Lead(ty) == IF ty \in {"Magic", "MagicT", "MagicE"} THEN <<65, 66, 67>> ELSE <<>>
EndAlign(ty) == CASE ty = "Ended" -> 16 [] ty = "EndedField" -> 8 [] ty = "EndedVar" -> 4 [] ty = "EndedTuple" -> 32 [] OTHER -> 1
(* In place lists have no stored length: such types are only written. *)
WriteOnly == {"Lists", "Aligned", "Vars", "Magic", "MagicT", "MagicE", "Mixed", "PtrOpts", "RepPads", "PadVars", "PadEnums", "Aligned2", "EndedVar", "EndedTuple"}
=============================================================================
