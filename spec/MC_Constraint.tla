---------------------------- MODULE MC_Constraint ----------------------------
(* Every small table, pivot, filter and window: a scan row by row against  *)
(* the declarative Pivots/SeriesOf.                                        *)
EXTENDS Constraints, TLC, Json, IOUtils
VARIABLES tab, pivot, fs, w, i, got
N == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3
vars == <<tab, pivot, fs, w, i, got>>
F(c, vs) == [col |-> c, vals |-> vs]
Filters == { <<>>, <<F("v", <<I(1)>>)>>, <<F("p", <<I(0)>>)>>, <<F("p", <<I(1), I(0)>>), F("v", <<I(2), I(3)>>)>>,
             <<F("zz", <<I(1)>>)>>, <<F("v", <<>>)>> }
Times == { [k \in 1..n |-> 2 * k] : n \in 0..N } \cup { <<2, 2, 4>>, <<2, 4, 4>> }
Windows == {<<>>} \cup {<<a, b>> : a \in {1, 2, 3, 4, 7, 9}, b \in {1, 2, 3, 4, 7, 9}}
Init == /\ \E ts \in Times : \E ps \in [1..Len(ts) -> {0, 1}] : \E vs \in [1..Len(ts) -> {1, 2}] :
             tab = [cols |-> <<"p", "v">>, rows |-> [k \in 1..Len(ts) |-> [t |-> ts[k], c |-> [p |-> I(ps[k]), v |-> I(vs[k])]]]]
        /\ pivot \in {NoPivot, "p", "zz"} /\ fs \in Filters
        /\ w \in {x \in Windows : x = <<>> \/ x[1] <= x[2]}
        /\ i = 1 /\ got = <<>>
\* what lies outside: a later row at or before the start, or an earlier one
\* at or after the end, cuts this one off
Cut(k) == w # <<>> /\ ( (\E j \in 1..Len(tab.rows) : tab.rows[j].t > tab.rows[k].t /\ tab.rows[j].t <= w[1])
                     \/ (\E j \in 1..Len(tab.rows) : tab.rows[j].t < tab.rows[k].t /\ tab.rows[j].t >= w[2]))
Key(r) == IF pivot = NoPivot THEN Missing ELSE r.c[pivot]
Add(g, k, r) == IF \E j \in 1..Len(g) : g[j].pv = k
                THEN [j \in 1..Len(g) |-> IF g[j].pv = k THEN [g[j] EXCEPT !.pts = Append(@, [t |-> r.t, v |-> r.c.v])] ELSE g[j]]
                ELSE Append(g, [pv |-> k, pts |-> <<[t |-> r.t, v |-> r.c.v]>>])
Step == /\ i <= Len(tab.rows) /\ i' = i + 1
        /\ got' = IF Cut(i) \/ pivot = "zz" \/ \E j \in 1..Len(fs) : fs[j].col # "zz" /\ ~\E x \in 1..Len(fs[j].vals) : fs[j].vals[x] = tab.rows[i].c[fs[j].col]
                  THEN got ELSE Add(got, Key(tab.rows[i]), tab.rows[i])
        /\ UNCHANGED <<tab, pivot, fs, w>>
Spec == Init /\ [][Step]_vars
Done == i > Len(tab.rows)
Agrees == Done => /\ {got[j].pv : j \in 1..Len(got)} = Pivots(tab, "v", pivot, fs, w)
                  /\ \A j \in 1..Len(got) : got[j].pts = SeriesOf(tab, "v", pivot, fs, w, got[j].pv)
\* the pivots divide the data: nothing is drawn twice or lost
Partition == Done /\ pivot = "p" =>
   LET len[j \in 0..Len(got)] == IF j = 0 THEN 0 ELSE len[j - 1] + Len(got[j].pts)
   IN len[Len(got)] = Len(SeriesOf(tab, "v", NoPivot, fs, w, Missing))
Emit == Done => PrintT("@@" \o ToJson([tab |-> tab, pivot |-> pivot, filters |-> fs, w |-> w]))
==============================================================================
