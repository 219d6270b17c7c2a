---------------------------- MODULE MC_Resources ----------------------------
(* Two notebooks view plots of one kind at the same time, time and again:  *)
(* each looks through the files and downloads those that are missing, into *)
(* a file of its own which takes its place when it is complete.            *)
EXTENDS Resources, Json, IOUtils
VARIABLES files, pc, at, tmp, dead, log
vars == <<files, pc, at, tmp, dead, log>>
Big == IOEnv.TV_TIER = "thorough"
N == IF Big THEN 9 ELSE 7
M == "EventPlot"
Order == <<"d3.min.js", "d3.tip.v0.6.3.js", "EventPlot.js", "EventPlot_help.jpg">>
P == {1, 2}
Init == /\ files \in [FilesOf(M) -> {"none"}] \cup {[f \in FilesOf(M) |-> IF Local(f) THEN "own" ELSE IF f = "d3.min.js" THEN "own" ELSE "none"]}
        /\ pc = [p \in P |-> "idle"] /\ at = [p \in P |-> 0] /\ tmp = [p \in P |-> "none"] /\ dead = 0
        /\ log = <<[c |-> "begin", p |-> IF files["d3.min.js"] = "own" THEN 1 ELSE 0, o |-> ""]>>
\* go through the files from the i-th one, up to the next download
RECURSIVE Scan(_, _)
Scan(fs, i) == IF i > Len(Order) THEN [fs |-> fs, at |-> i]
               ELSE IF Local(Order[i]) THEN Scan([fs EXCEPT ![Order[i]] = "good"], i + 1)
               ELSE IF fs[Order[i]] = "none" THEN [fs |-> fs, at |-> i]
               ELSE Scan(fs, i + 1)
Go(p, fs, i) == LET s == Scan(fs, i) IN
  /\ files' = s.fs /\ at' = [at EXCEPT ![p] = s.at]
  /\ pc' = [pc EXCEPT ![p] = IF s.at > Len(Order) THEN "shown" ELSE "asked"]
Log(c, p, o) == log' = Append(log, [c |-> c, p |-> p, o |-> o])
Resting(p) == pc[p] \in {"idle", "shown", "failed", "dead"}
Start(p) == Resting(p) /\ (p = 2 => pc[1] # "idle") /\ Go(p, files, 1) /\ tmp' = [tmp EXCEPT ![p] = "none"] /\ dead' = dead /\ Log("start", p, "")
Refused(p) == pc[p] = "asked" /\ pc' = [pc EXCEPT ![p] = "failed"] /\ UNCHANGED <<files, at, tmp, dead>> /\ Log("answer", p, "no")
Served(p) == pc[p] = "asked" /\ pc' = [pc EXCEPT ![p] = "mid"] /\ tmp' = [tmp EXCEPT ![p] = "part"] /\ UNCHANGED <<files, at, dead>> /\ Log("answer", p, "go")
Got(p) == pc[p] = "mid" /\ tmp' = [tmp EXCEPT ![p] = "none"] /\ Go(p, [files EXCEPT ![Order[at[p]]] = "good"], at[p] + 1) /\ dead' = dead /\ Log("end", p, "ok")
Cut(p) == pc[p] = "mid" /\ tmp' = [tmp EXCEPT ![p] = "none"] /\ pc' = [pc EXCEPT ![p] = "failed"] /\ UNCHANGED <<files, at, dead>> /\ Log("end", p, "cut")
Die(p) == pc[p] = "mid" /\ dead = 0 /\ dead' = 1 /\ pc' = [pc EXCEPT ![p] = "dead"] /\ UNCHANGED <<files, at, tmp>> /\ Log("end", p, "die")
Next == Len(log) <= N /\ \E p \in P : Start(p) \/ Refused(p) \/ Served(p) \/ Got(p) \/ Cut(p) \/ Die(p)
Spec == Init /\ [][Next]_vars
\* nobody ever loads a piece of a file
Whole == \A f \in FilesOf(M) : files[f] # "part"
\* what is shown works, from then on
Works == \A p \in P : pc[p] = "shown" => Complete(files, M)
\* a file is downloaded because it was missing when it was looked at
Wanted == \A p \in P : pc[p] \in {"asked", "mid"} => ~Local(Order[at[p]]) /\ (files[Order[at[p]]] = "none" \/ pc[3 - p] # "idle")
\* somebody else's files stay
Kept == log[1].p = 1 => files["d3.min.js"] = "own"
Clean == dead = 0 /\ (\A p \in P : Resting(p)) => \A p \in P : tmp[p] = "none"
Emit == (\A p \in P : Resting(p)) /\ Len(log) > 1 => PrintT("@@" \o ToJson(log))
=============================================================================
