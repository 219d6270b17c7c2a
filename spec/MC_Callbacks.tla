--------------------------- MODULE MC_Callbacks ---------------------------
(* Every way of spreading N lines over the events a, b, c and others, for  *)
(* every set of requested events.                                          *)
EXTENDS Callbacks, TLC, Json, IOUtils
VARIABLES lines, req
N == IF IOEnv.TV_TIER = "thorough" THEN 6 ELSE 5
E == {"ev_a", "ev_b", "ev_c"}
RECURSIVE PosFrom(_, _, _)
PosFrom(ls, e, i) == IF i > Len(ls) THEN <<>>
                     ELSE (IF ls[i] = e THEN <<i>> ELSE <<>>) \o PosFrom(ls, e, i + 1)
Init == /\ \E n \in 0..N : lines \in [1..n -> E \cup {"other"}]
        /\ req \in SUBSET E
        /\ queues = [e \in req |-> PosFrom(lines, e, 1)] /\ calls = <<>>
Next == Visit /\ UNCHANGED <<lines, req>>
Spec == Init /\ [][Next]_<<cvars, lines, req>>
\* at the end exactly the lines of the requested events were visited
ExactlyOnce == Done => calls = SelectSeq([i \in 1..Len(lines) |-> <<lines[i], i>>], LAMBDA c : c[1] \in req)
Emit == Done => PrintT("@@" \o ToJson([lines |-> lines, req |-> req]))
===========================================================================
