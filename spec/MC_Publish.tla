---------------------------- MODULE MC_Publish ----------------------------
(* Notebooks being written, published word by word, and published again.   *)
EXTENDS Publish, Json, IOUtils
VARIABLES nb, out, at, rounds
vars == <<nb, out, at, rounds>>
N == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3
Others == {"plotter_scripts/EventPlot/EventPlot", "/nbextensions/other/d3.min", "d3", "EventPlot"}
Pool == {l.path : l \in Libs} \cup Own \cup Others
Host == "https://public/"
UrlOf == [k \in {l.plot \o "/" \o l.file : l \in Libs} |-> Host \o k]
\* as published: the URL without the extension
Away(w) == IF IsLib(w) THEN Host \o LibOf(w).plot \o "/" \o (CHOOSE s \in {"d3.min", "d3.tip.v0.6.3", "synchronizer", "dygraph-combined", "underscore-min"} : s \o ".js" = LibOf(w).file)
           ELSE IF w \in Own THEN Host \o w ELSE w
Init == nb = <<>> /\ out = <<>> /\ at = 0 /\ rounds = 0
Write(w) == at = 0 /\ rounds = 0 /\ Len(nb) < N /\ nb' = Append(nb, w) /\ UNCHANGED <<out, at, rounds>>
Start == at = 0 /\ rounds = 0 /\ at' = 1 /\ UNCHANGED <<nb, out, rounds>>
Turn == at > 0 /\ at <= Len(nb) /\ out' = Append(out, Away(nb[at])) /\ at' = at + 1 /\ UNCHANGED <<nb, rounds>>
\* publishing what was published
Again == at = Len(nb) + 1 /\ at > 0 /\ rounds = 0 /\ rounds' = 1 /\ UNCHANGED <<nb, out, at>>
Spec == Init /\ [][(\E w \in Pool : Write(w)) \/ Start \/ Turn \/ Again]_vars
Done == at = Len(nb) + 1
NothingLocal == Done => \A i \in 1..Len(out) : ~IsLocal(out[i])
OthersKept == \A i \in 1..Len(out) : ~IsLocal(nb[i]) => out[i] = nb[i]
AsSpecified == \A i \in 1..Len(out) : Stands(nb[i], out[i], UrlOf, {Host \o w : w \in Own})
Idempotent == Done => \A i \in 1..Len(out) : Away(out[i]) = out[i]
ASSUME TargetName("a.ipynb", "") = "published_a.ipynb" /\ TargetName("a.ipynb", "x") = "x.ipynb" /\ TargetName("a.ipynb", "x.ipynb") = "x.ipynb"
Emit == (Done /\ rounds = 1) => PrintT("@@" \o ToJson([nb |-> nb]))
===========================================================================
