--------------------------- MODULE MC_Aggregate ---------------------------
(* One aggregator, any sequence of aggregate() calls: the memoised base    *)
(* series stay what they are, so that every call returns the same.         *)
EXTENDS Triggers, TLC, Json, IOUtils
VARIABLES which, fn, memo, calls, results
D == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3
Row(t, p, v) == [t |-> t, c |-> [p |-> I(p), v |-> I(v)]]
T(kind, n, col, fs) == [ev |-> "ev_a", pivot |-> "p", filters |-> fs,
                        val |-> [kind |-> kind, cell |-> I(n), col |-> col]]
Is(v) == <<[col |-> "v", kind |-> "value", vals |-> <<I(v)>>, fn |-> ""]>>
Worlds == <<
  [table |-> <<Row(1, 0, 1), Row(2, 1, 2), Row(3, 0, 2), Row(4, 2, 1)>>,
   trs |-> <<T("const", 1, "", Is(1)), T("const", -1, "", Is(2))>>,
   levels |-> <<[name |-> "cluster", groups |-> <<<<0, 1>>, <<2, 3>>>>], [name |-> "cpu", groups |-> <<<<0>>, <<1>>, <<2>>, <<3>>>>]>>],
  [table |-> <<Row(1, 1, 3), Row(2, 1, 1), Row(5, 0, 2)>>,
   trs |-> <<T("col", 0, "v", <<>>), T("const", 9, "", Is(1))>>,
   levels |-> <<[name |-> "big", groups |-> <<<<1, 0>>>>], [name |-> "cpu", groups |-> <<<<1>>, <<0>>, <<1, 1>>>>]>>] >>
W == Worlds[which]
Tables == [ev_a |-> W.table]
LevelNames == {"all"} \cup {W.levels[i].name : i \in 1..Len(W.levels)}
BaseOf(n) == Base(Tables, W.trs, n)
Init == /\ which \in 1..Len(Worlds) /\ fn \in {"none", "double", "cumsum", "clip", "sum"}
        /\ memo = <<>> /\ calls = <<>> /\ results = <<>>
\* the first call computes the base of every node once; later ones reuse it
Aggregate(l) ==
  LET m == IF memo = <<>> THEN [n \in NodesOf(W.levels) |-> BaseOf(n)] ELSE memo
      gs == GroupsOf(W.levels, l) IN
  /\ memo' = m /\ calls' = Append(calls, l)
  /\ results' = Append(results, [g \in 1..Len(gs) |-> AddSeqs([k \in 1..Len(gs[g]) |-> Agg(fn, m[gs[g][k]])])])
  /\ UNCHANGED <<which, fn>>
Next == Len(calls) < D /\ \E l \in LevelNames : Aggregate(l)
Spec == Init /\ [][Next]_<<which, fn, memo, calls, results>>
MemoIsBase == memo # <<>> => \A n \in DOMAIN memo : memo[n] = BaseOf(n)
Repeatable == \A i, j \in 1..Len(calls) : calls[i] = calls[j] => results[i] = results[j]
\* levels that partition the nodes add up to the same
AddsUp == \A i, j \in 1..Len(calls) :
   (which = 1 \/ {calls[i], calls[j]} \subseteq {"all", "big"}) => AddSeqs(results[i]) = AddSeqs(results[j])
Emit == Len(calls) = D => PrintT("@@" \o ToJson([which |-> which, fn |-> fn, calls |-> calls]))
ASSUME PrintT("@@" \o ToJson([worlds |-> Worlds]))
===========================================================================
