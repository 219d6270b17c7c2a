---------------------------- MODULE MC_Expand ----------------------------
(* The expansion done step by step (broadcast the short lists, then pair   *)
(* up, one constraint at a time) against its declarative properties.       *)
EXTENDS Constraints, TLC, Json, IOUtils
VARIABLES lens, zip, stage, vecs, made, at
N == IF IOEnv.TV_TIER = "thorough" THEN 6 ELSE 4
vars == <<lens, zip, stage, vecs, made, at>>
Seqn(n) == [i \in 1..n |-> i]
Init == /\ lens \in [1..3 -> 0..N] /\ zip \in BOOLEAN
        /\ stage = "check" /\ vecs = [i \in 1..3 |-> Seqn(lens[i])] /\ made = <<>> /\ at = 1
Positions == IF zip THEN {1, 2, 3} ELSE {2, 3}
Longest == CHOOSE m \in {lens[i] : i \in Positions} : \A i \in Positions : lens[i] <= m
Check == /\ stage = "check"
         /\ stage' = IF (\E i \in 1..3 : lens[i] = 0) \/ (\E i \in Positions : lens[i] \notin {1, Longest}) THEN "rejected" ELSE "spread"
         /\ UNCHANGED <<lens, zip, vecs, made, at>>
SpreadOne == /\ stage = "spread"
             /\ \/ \E i \in Positions : /\ Len(vecs[i]) < Longest
                                        /\ vecs' = [vecs EXCEPT ![i] = [k \in 1..Longest |-> vecs[i][1]]]
                                        /\ UNCHANGED stage
                \/ /\ \A i \in Positions : Len(vecs[i]) = Longest
                   /\ stage' = "pair" /\ UNCHANGED vecs
             /\ UNCHANGED <<lens, zip, made, at>>
Total3 == IF zip THEN Longest ELSE lens[1] * Longest
Pair == /\ stage = "pair"
        /\ IF at > Total3 THEN stage' = "done" /\ UNCHANGED <<made, at>>
           ELSE /\ LET i == IF zip THEN at ELSE ((at - 1) % Longest) + 1
                       t == IF zip THEN vecs[1][at] ELSE ((at - 1) \div Longest) + 1 IN
                   made' = Append(made, [tr |-> t, col |-> vecs[2][i], tmpl |-> vecs[3][i],
                                         ix |-> IF zip /\ lens[1] # Longest THEN 0 ELSE IF zip THEN at - 1 ELSE t - 1])
                /\ at' = at + 1 /\ UNCHANGED stage
        /\ UNCHANGED <<lens, zip, vecs>>
Next == Check \/ SpreadOne \/ Pair
Spec == Init /\ [][Next]_vars
Due == Expand(lens[1], lens[2], lens[3], zip)
Agrees == /\ stage = "rejected" => Due = Rejected
          /\ stage = "done" => made = Due
\* every trace, column and event takes part, and none outside
Complete == stage = "done" =>
   /\ {made[k].tr : k \in 1..Len(made)} = 1..lens[1]
   /\ {made[k].col : k \in 1..Len(made)} = 1..lens[2]
   /\ {made[k].tmpl : k \in 1..Len(made)} = 1..lens[3]
\* each combination once; a column keeps its event in every trace
Once == stage = "done" => \A j, k \in 1..Len(made) : j # k => made[j] # made[k]
OwnEvent == stage = "done" => \A j, k \in 1..Len(made) :
   (made[j].col = made[k].col /\ lens[2] >= lens[3]) => (zip \/ made[j].tmpl = made[k].tmpl)
Product == stage = "done" /\ ~zip => Len(made) = lens[1] * Longest
\* a nameless trace is always called by the same number, that of its position
Numbered == stage = "done" => \A k \in 1..Len(made) : made[k].ix = made[k].tr - 1
Emit == stage \in {"done", "rejected"} => PrintT("@@" \o ToJson([lens |-> lens, zip |-> zip]))
============================================================================
