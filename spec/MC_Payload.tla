---------------------------- MODULE MC_Payload ----------------------------
(* Every payload of up to Depth fields from a small alphabet, built word by *)
(* word; ParseKV against the declarative reading; behaviours emitted.       *)
EXTENDS Payload, TLC, Json, IOUtils
VARIABLES ws

Depth == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3
Alphabet == <<"a=1", "b=foo", "a=0x1F", "a=bar=2", "b=", "free", "7", "c=-010", "c=0b11", "a=-3">>

Init == ws = <<>>
Next == Len(ws) < Depth /\ \E i \in 1..Len(Alphabet) : ws' = Append(ws, i)
Spec == Init /\ [][Next]_ws

RECURSIVE Glue(_, _)
Glue(w, i) == IF i > Len(w) THEN "" ELSE (IF i > 1 THEN " " ELSE "") \o Alphabet[w[i]] \o Glue(w, i + 1)
Text1 == Glue(ws, 1)
R == ParseKV(Chars(Text1))

\* declarative: words, fields, last field of a key
W(i) == Chars(Alphabet[ws[i]])
IsField(i) == \E j \in 1..Len(W(i)) : W(i)[j] = "="
KeyOf(i) == Join(Split(W(i), "=")[1])
ValText(i) == SubSeq(W(i), Len(Split(W(i), "=")[1]) + 2, Len(W(i)))
FieldsOf(key) == {i \in 1..Len(ws) : IsField(i) /\ KeyOf(i) = key}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
RECURSIVE Free(_)
Free(i) == IF i > Len(ws) THEN "" ELSE IF IsField(i) THEN "" ELSE " " \o Join(W(i)) \o Free(i + 1)
Expect(i) == LET c == Cast(ValText(i)) IN
             IF c.k = "s" THEN [k |-> "s", v |-> c.v \o Free(i + 1)] ELSE c

Declarative ==
  IF ws # <<>> /\ ~IsField(1) THEN R.err = "nokey"
  ELSE /\ R.err = ""
       /\ \A i \in 1..Len(ws) : IsField(i) =>
             /\ Has(R.d, KeyOf(i))
             /\ Get(R.d, KeyOf(i)) = Expect(Last(FieldsOf(KeyOf(i))))
       /\ \A j \in 1..Len(R.d) : FieldsOf(R.d[j].key) # {}
Emit == ws # <<>> => PrintT("@@" \o ToJson([payloads |-> <<Text1>>]))
============================================================================
