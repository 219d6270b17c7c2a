----------------------------- MODULE MC_Array -----------------------------
(* Every event of up to Depth rows whose payloads come from templates with  *)
(* arrays; the exploded rows against the declarative statement.             *)
EXTENDS Payload, TLC, Json, IOUtils
VARIABLES rows
Depth == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3

\* a template: name x's elements, whether y follows, a plain field
Templates == << "k=1", "x={1}", "x={1 2} k=5", "k=a x={7 8 9}", "x={} k=2", "k=3 x={}", "y={4 5} x={6}", "y={}" >>
XEls == << <<>>, <<"1">>, <<"1", "2">>, <<"7", "8", "9">>, <<>>, <<>>, <<"6">>, <<>> >>
YEls == << <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<"4", "5">>, <<>> >>
K    == << "1", "", "5", "a", "2", "3", "", "" >>

Init == rows = <<>>
Next == Len(rows) < Depth /\ \E i \in 1..Len(Templates) : rows' = Append(rows, i)
Spec == Init /\ [][Next]_rows

Payl == [i \in 1..Len(rows) |-> DropEmpty(Chars(Templates[rows[i]]))]
Lens == ArrayLens(Payl)
D(i) == ParseKV(Explode(Payl[i], Lens)).d
Max(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Longest(E) == Max({Len(E[rows[i]]) : i \in 1..Len(rows)})
Col(n, j) == n \o Join(NatStr(j - 1))
Shows(d, key, text) == Has(d, key) /\ Get(d, key) = Cast(Chars(text))

ArrayOk(E, n) == \A i \in 1..Len(rows) :
   LET els == E[rows[i]] IN
   IF els = <<>> THEN \A j \in 1..4 : ~Has(D(i), Col(n, j))
   ELSE /\ \A j \in 1..Longest(E) : Shows(D(i), Col(n, j), IF j <= Len(els) THEN els[j] ELSE "0")
        /\ ~Has(D(i), Col(n, Longest(E) + 1))
Declarative ==
  /\ ArrayOk(XEls, "x") /\ ArrayOk(YEls, "y")
  /\ \A i \in 1..Len(rows) : IF K[rows[i]] = "" THEN ~Has(D(i), "k") ELSE Shows(D(i), "k", K[rows[i]])
  /\ \A i \in 1..Len(rows) : ~Has(D(i), "x") /\ ~Has(D(i), "y")
Emit == rows # <<>> => PrintT("@@" \o ToJson([payloads |-> [i \in 1..Len(rows) |-> Templates[rows[i]]]]))
============================================================================
