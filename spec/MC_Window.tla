----------------------------- MODULE MC_Window -----------------------------
(* Every non-decreasing two/three row trace on a small grid with every pair *)
(* of windows: rows kept = rows in both windows; checked declaratively.     *)
EXTENDS Window, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES times, win
Grid == 0..2
T(i) == <<10 + (i \div 2), (i % 2) * 500000000, 0>>      \* absolute, half seconds from 10
R(i) == <<i \div 2, (i % 2) * 500000000, 0>>             \* relative
Rows == IF IOEnv.TV_TIER = "thorough" THEN 3 ELSE 2
Lo(S) == {R(i) : i \in S} \cup {<<0, 0, 0>>}
Opt(S) == S \cup {<<>>}

Init == /\ times = <<T(0)>>
        /\ win \in [rel : {<<b, e>> : b \in {R(i) : i \in Grid}, e \in Opt({R(i) : i \in Grid})},
                    abs : {<<b, e>> : b \in {Zero} \cup {T(i) : i \in {1, 2}}, e \in Opt({Zero} \cup {T(i) : i \in {0, 1}})}]
Next == /\ Len(times) < Rows
        /\ \E i \in Grid : TLeq(times[Len(times)], T(i)) /\ times' = Append(times, T(i))
        /\ UNCHANGED win
Spec == Init /\ [][Next]_<<times, win>>

Kept == {i \in 1..Len(times) : InWindow(times[i], times[1], win)}
\* the kept rows are an interval of the trace ...
Interval == \A i, j \in Kept : \A m \in i..j : m \in Kept
\* ... and open windows keep everything; each window alone keeps a superset
OpenW == <<Zero, <<>>>>
Both == Kept = {i \in 1..Len(times) : /\ InWindow(times[i], times[1], [win EXCEPT !.abs = OpenW])
                                      /\ InWindow(times[i], times[1], [win EXCEPT !.rel = OpenW])}
AllOpen == win.rel = OpenW /\ win.abs = OpenW => Kept = 1..Len(times)
Emit == Len(times) = Rows => PrintT("@@" \o ToJson([times |-> times, rel |-> win.rel, abs |-> win.abs]))
=============================================================================
