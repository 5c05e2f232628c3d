------------------------------ MODULE MC_Docs -------------------------------
(* Edits of documents of a small type: what is accepted, and with what meaning. *)
EXTENDS Docs, TLC, Json
CONSTANTS Depth
VARIABLES doc, edits
vars == <<doc, edits>>
N(x) == [t |-> "n", i |-> <<x, 0, 0, 0, 0, 0, 0, 0>>, neg |-> FALSE, f |-> <<x, 0, 0, 0>>]
S(x) == [t |-> "s", v |-> <<>>, name |-> x]
Null == [t |-> "null"]
L(v) == [t |-> "a", v |-> v]
O(v) == [t |-> "o", v |-> v]
T == DocRec(<<Fd("a", DocU(1)), FdOr("b", DocOr(DocNames({"x", "y"}), <<"e", "x">>), <<"e", "y">>), Fd("c", DocOpt(DocF)), Fd("d", DocOne([p |-> DocList(DocB), q |-> DocFixed(1, DocT)]))>>)
Whole == O([a |-> N(1), b |-> S("x"), c |-> N(2), d |-> O([p |-> L(<<[t |-> "bool", v |-> TRUE]>>)])])
Names == {"a", "b", "c", "d", "z"}
Values == {N(0), N(255), [N(0) EXCEPT !.i[2] = 1], [N(0) EXCEPT !.i = <<>>], S("y"), S("w"), Null, L(<<>>), L(<<S("x")>>), O([q |-> L(<<S("x")>>)]), O([q |-> L(<<>>)]), O([p |-> L(<<>>), q |-> L(<<S("x")>>)])}
(* the edits of the harness *)
Kinds == {"drop", "null", "add", "empty", "rename", "case", "more", "less", "number", "wrong", "name", "swap", "letter"}
Without(n) == [x \in DOMAIN doc.v \ {n} |-> doc.v[x]]
With(n, v) == [x \in DOMAIN doc.v \cup {n} |-> IF x = n THEN v ELSE doc.v[x]]
Init == doc = Whole /\ edits = <<>>
Edit(k, d) == doc' = d /\ edits' = Append(edits, k)
Next == /\ Len(edits) < Depth
        /\ \/ \E n \in DOMAIN doc.v : Edit("drop", O(Without(n)))
           \/ \E n \in Names, v \in Values : Edit("put", O(With(n, v)))
Spec == Init /\ [][Next]_vars
Required == {"a", "d"}
(* a document is refused exactly if a field that has no default is missing or a field holds what it cannot *)
Refused == DocOk(T, doc) <=> /\ Required \subseteq DOMAIN doc.v
                             /\ doc.v.a \in {N(0), N(1), N(255)}
                             /\ "b" \in DOMAIN doc.v => doc.v.b \in {S("x"), S("y"), Null}
                             /\ "c" \in DOMAIN doc.v => doc.v.c.t \in {"n", "null"}
                             /\ \/ doc.v.d = Whole.v.d
                                \/ doc.v.d = O([q |-> L(<<S("x")>>)])
Meaning == DocOk(T, doc) =>
  LET c == DocFill(T, doc)
  IN /\ DocOk(T, DocShow(T, c)) /\ DocWhole(T, DocShow(T, c)) /\ DocFill(T, DocShow(T, c)) = c     \* written and read again
     /\ "b" \notin DOMAIN doc.v => c[2][2] = <<"e", "y">>
     /\ ("b" \in DOMAIN doc.v /\ doc.v.b = Null) => c[2][2] = <<"e", "x">>
     /\ "z" \in DOMAIN doc.v => c = DocFill(T, O(Without("z")))
Emit == IF edits = <<>> THEN /\ PrintT(<<"GEN", ToJson([edits |-> <<>>])>>)
                             /\ \A k \in Kinds : PrintT(<<"GEN", ToJson([edits |-> <<k>>])>>)
                             /\ \A k \in Kinds, m \in Kinds : PrintT(<<"GEN", ToJson([edits |-> <<k, m>>])>>)
        ELSE TRUE
=============================================================================
