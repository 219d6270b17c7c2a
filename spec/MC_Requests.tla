---------------------------- MODULE MC_Requests ----------------------------
(* All requests.  What is accepted names a column for all of its data.      *)
EXTENDS Requests, Json
VARIABLE r
Init == r \in Requests
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
Named == Accepted(r) => r.column \/ r.signals # ""
NotTwice == Accepted(r) => ~(r.signals # "" /\ (r.column \/ r.templates))
Emit == PrintT("@@" \o ToJson(r))
=============================================================================
