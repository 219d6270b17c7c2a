--------------------------- MODULE MC_BareTrace ---------------------------
EXTENDS BareTrace, TLC, Json, IOUtils
VARIABLES h
Depth == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3
Tables == { <<>>, <<0>>, <<1, 3>>, <<2, 2>>, <<5>> }
Init == events = <<>> /\ h = <<>>
Next == Len(h) < Depth /\ \E n \in {"ab", "b", "endtime"}, t \in Tables, p \in {"", "cpu"} :
          /\ (p = "cpu" => t = <<1, 3>>)
          /\ Add(n, t, p) /\ h' = Append(h, [name |-> n, times |-> t, pivot |-> p])
Spec == Init /\ [][Next]_<<events, h>>
View == events
Append1 == [][Len(events') \in {Len(events), Len(events) + 1} /\ SubSeq(events', 1, Len(events)) = events]_events
Emit == PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
