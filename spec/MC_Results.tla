----------------------------- MODULE MC_Results -----------------------------
(* Reading a results file row by row into a table.                         *)
EXTENDS Results, Json, IOUtils
VARIABLES rows, table
vars == <<rows, table>>
Big == IOEnv.TV_TIER = "thorough"
Ids == {"gov_1", "gov_2", "wise_1"} \cup (IF Big THEN {"a_2_b_1"} ELSE {})
Benches == {"antutu", "cf"}
Metrics == {"score", "score 2", "Overall_Score_2", "FPS_1", "Memory_score"} \cup (IF Big THEN {"Overall_Score", "FPS"} ELSE {})
N == 3
Init == rows = <<>> /\ table = {}
Row == /\ Len(rows) < N
       /\ \E id \in Ids, b \in Benches, m \in Metrics :
            LET r == [id |-> id, bench |-> b, metric |-> m, val |-> Len(rows) + 1] IN
            /\ rows' = Append(rows, r)
            /\ table' = IF ~IsScore(m) \/ \E s \in table : Key(s) = Key(ScoreOf(r, "")) THEN table
                        ELSE table \cup {ScoreOf(r, "")}
Spec == Init /\ [][Row]_vars
Agrees == table = Scores(rows, "")
One == \A s, t \in table : Key(s) = Key(t) => s = t
\* nothing of what is no score, and every score's place is taken
Covers == \A i \in 1..Len(rows) : IsScore(rows[i].metric) => \E s \in table : Key(s) = Key(ScoreOf(rows[i], "")) /\ s.val <= rows[i].val
Sources == \A s \in table : \E i \in 1..Len(rows) : IsScore(rows[i].metric) /\ rows[i].val = s.val
ASSUME Number("score") = 0 /\ Number("score 3") = 3 /\ Number("Overall_Score_2") = 1 /\ Number("FPS_1") = 1 /\ ~IsScore("Memory_score")
ASSUME RunOf("power_allocator_1") = "power_allocator" /\ RunOf("a_12_b_3") = "a_b" /\ RunOf("_x_") = "_x_"
ASSUME TitleOf("t-rex_offscreen 2d") = "T-Rex Offscreen 2D" /\ TitleOf("antUTU") = "Antutu"
\* the limits moved hold all data, and never less than before
ASSUME \A S \in (SUBSET {0, 1000, 5000, 90000}) \ {{}}, lo \in {-1000, 0, 3000}, hi \in {4000, 90000, 200000} :
         LET l == EnlargedLow(S, lo)  h == EnlargedHigh(S, hi) IN
         l <= 10 * lo /\ h >= 10 * hi /\ \A x \in S : l < 10 * x /\ 10 * x < h
Emit == rows # <<>> => PrintT("@@" \o ToJson([rows |-> rows]))
=============================================================================
