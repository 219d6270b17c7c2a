------------------------------ MODULE MC_Cache ------------------------------
(* All histories of a cache over two specific events, a fallback event, two *)
(* versions of the file, contended lines, crashes and damage.               *)
EXTENDS Cache, TLC, Json, IOUtils
VARIABLE h      \* how we got here (not part of the state)
MCContent == [v1 |-> << {"A"}, {"F"}, {"F", "A"}, {"B"} >>, v2 |-> << {"A"}, {"A", "B"}, {"F"}, {"A"} >>]
MCFallback == {"F"}
Sels == { <<"A">>, <<"F">>, <<"A", "F">>, <<"F", "B", "A">>, <<"A", "B">>, <<"B", "A">>, <<"B">> }
CONSTANTS Depth, Quiet     \* Quiet: explore everything, print nothing
Init == CInit("v1") /\ h = <<>>
\* record the step and print the behaviour that ends with it
Log(op) == h' = (IF Quiet THEN h ELSE Append(h, op)) /\ (op.op = "open" /\ ~Quiet => PrintT("@@" \o ToJson(h')))
Op(o, s, n, x) == [op |-> o, s |-> s, n |-> n, x |-> x]
Next == (Quiet \/ Len(h) < Depth) /\
  \/ \E s \in Sels : Open(s) /\ Log(Op("open", s, 0, ""))
  \/ (Quiet \/ Len(h) + 1 < Depth) /\
     (\/ \E s \in Sels, k \in 1..5, t \in BOOLEAN : Crash(s, k, t) /\ Log(Op(IF t THEN "tear" ELSE "crash", s, k, ""))
      \/ \E v \in DOMAIN Content : Edit(v) /\ Log(Op("edit", <<>>, 0, v))
      \/ \E e \in {"A", "B", "F"}, x \in {None, Torn} : DamageCsv(e, x) /\ Log(Op("csv-" \o x.k, <<e>>, 0, ""))
      \/ \E x \in {None, Torn} : DamageMeta(x) /\ Log(Op("meta-" \o x.k, <<>>, 0, ""))
      \/ Wipe /\ Log(Op("wipe", <<>>, 0, "")))
Spec == Init /\ [][Next]_<<cvars, h>>
View == cvars
=============================================================================
