---------------------------- MODULE MC_CacheRace ----------------------------
(* All interleavings of two openings (each may be killed), after any number *)
(* of undisturbed ones, the trace being replaced at any moment.             *)
EXTENDS CacheRace, TLC, Json, IOUtils
VARIABLES h, edits, prior, first
Big == IOEnv.TV_TIER = "thorough"
MCContent == [v1 |-> << {"A"}, {"B", "A"}, {"B"} >>, v2 |-> << {"A", "B"}, {"B"}, {"A"} >>]
MCProcs == {"p", "q"}
Careful == {"own", "kept", "first", "once"}
MCPriors == {<<>>, <<"A">>, <<"A", "B">>}
EmitPriors == IF Big THEN MCPriors ELSE {<<>>, <<"A">>}
CONSTANTS Quiet, Edits, Priors, Kills
Sels == {<<"A">>, <<"B">>, <<"A", "B">>, <<"B", "A">>}
\* the cache an undisturbed opening of v1 leaves
Left(s) == /\ dir = TRUE
           /\ meta = [k |-> "whole", by |-> {}, is |-> [v |-> "v1", tabs |-> [e \in Elems(s) |-> [sum |-> Rows("v1", s, e), words |-> s, cont |-> Contended("v1", s, e)]]]]
           /\ csv = [e \in Events |-> IF e \in Elems(s) THEN [k |-> "whole", by |-> {}, is |-> Rows("v1", s, e)] ELSE Absent]
Init == /\ pr = [p \in Procs |-> Idle] /\ h = <<>> /\ edits = Edits
        /\ prior \in Priors /\ file \in {"v1", "v2"} /\ first = file /\ (prior = <<>> => file = "v1")
        /\ IF prior = <<>> THEN dir = FALSE /\ meta = AbsentMeta /\ csv = [e \in Events |-> Absent] ELSE Left(prior)
All == \A p \in Procs : pr[p].pc \in {"done", "killed"}
Log(x) == h' = IF Quiet THEN h ELSE Append(h, x)
Next == /\ UNCHANGED <<prior, first>>
        /\ \/ \E p \in Procs, s \in Sels : Start(p, s) /\ Log([p |-> p, op |-> "start", s |-> s, pc |-> ""]) /\ UNCHANGED edits
           \/ \E p \in Procs : Step(p) /\ Log([p |-> p, op |-> "step", s |-> <<>>, pc |-> pr[p].pc]) /\ UNCHANGED edits
           \/ edits > 0 /\ (\E p \in Procs : pr[p].pc \notin {"idle"}) /\ ~All /\ edits' = edits - 1
              /\ \E v \in {"v1", "v2"} : Replace(v) /\ Log([p |-> "", op |-> "edit", s |-> <<v>>, pc |-> ""])
           \/ Kills /\ \E p \in Procs : Kill(p) /\ Log([p |-> p, op |-> "kill", s |-> <<>>, pc |-> ""]) /\ UNCHANGED edits
Spec == Init /\ [][Next]_<<rvars, h, edits, prior, first>>
View == <<rvars, edits, prior>>
Clear == Transparent(Sels)
Emit == (~Quiet /\ All) => PrintT("@@" \o ToJson([prior |-> prior, start |-> first, h |-> h]))
=============================================================================
