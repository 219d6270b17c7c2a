------------------------------ MODULE MC_Dedup ------------------------------
EXTENDS Dedup, TLC, Json, IOUtils
N == IF IOEnv.TV_TIER = "thorough" THEN 7 ELSE 6
T == IF IOEnv.TV_TIER = "thorough" THEN 6 ELSE 4
Init == \E n \in 0..N : \E t \in [1..n -> 0..T] : \E m \in {1, 2, 4} : Sorted(t) /\ DInit(t, m)
Spec == Init /\ [][DNext]_dvars
Emit == at = Len(ts) => PrintT("@@" \o ToJson([ts |-> ts, maxd |-> maxd]))
=============================================================================
