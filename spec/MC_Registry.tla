---------------------------- MODULE MC_Registry ----------------------------
EXTENDS Registry, TLC, Json, IOUtils
VARIABLES h
Pool == << [cls |-> "MyEvent", word |-> "foo:", id |-> 1], [cls |-> "FOOBar", word |-> "foo: bar", id |-> 2],
           [cls |-> "myEvent", word |-> "baz", id |-> 3] >>
Asks == { <<>>, <<"foo">>, <<"my_event">>, <<"baz">>, <<"other", "foo:">>, <<"f_oobar", "fresh">> }
Thorough == "TV_TIER" \in DOMAIN IOEnv /\ IOEnv.TV_TIER = "thorough"
Depth == IF Thorough THEN 4 ELSE 3
Init == reg = [s \in Scopes |-> <<>>] /\ h = <<>>
Op(o, i, s, e) == [op |-> o, i |-> i, scope |-> s, events |-> e]
Log(o) == h' = Append(h, o)
Next == Len(h) < Depth /\
  \/ \E i \in 1..3, s \in {"all", "sched", "thermal"} :
        Register(Parser(SnakeName(Pool[i].cls), Pool[i].word, Pool[i].id), s) /\ Log(Op("register", i, s, <<>>))
  \/ \E i \in 1..3 : Unregister(i) /\ Log(Op("unregister", i, "", <<>>))
Spec == Init /\ [][Next]_<<reg, h>>
View == reg
Meaning == \A s \in {"all", "sched", "thermal", "custom"}, e \in Asks : ExactlyAsked(s, e)
\* nothing unregistered is left
Gone == h # <<>> /\ h[Len(h)].op = "unregister" =>
          \A s \in Scopes : \A i \in 1..Len(reg[s]) : reg[s][i].id # h[Len(h)].i
Emit == PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
