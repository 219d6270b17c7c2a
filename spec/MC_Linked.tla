----------------------------- MODULE MC_Linked -----------------------------
(* Every history of N pages shown and dropped.  Pages hold one or two      *)
(* figures; data windows, groups and wishes to be zoomed together vary.    *)
EXTENDS Linked, TLC, Json, IOUtils
VARIABLES hist, n
N == 3
Row(t, v) == [t |-> t, vs |-> <<[k |-> "i", i |-> v]>>]
Data == { <<Row(0, 5), Row(4, 1)>>, <<Row(2, 9)>>, <<Row(3, 2), Row(9, 3)>> }
Limits == {<<>>, <<1, 5>>}
Fig(p, k, g, s, d, xl) == [page |-> p, fig |-> k, group |-> g, sync |-> s, rows |-> d, xl |-> xl, yl |-> <<>>]
Pages(p) ==
  {<<Fig(p, 1, g, s, d, xl)>> : g \in {"g", "h"}, s \in BOOLEAN, d \in Data, xl \in Limits}
  \cup {<<Fig(p, 1, g, s, <<Row(0, 5), Row(4, 1)>>, <<>>), Fig(p, 2, g, s, d, <<>>)>> : g \in {"g", "own"}, s \in BOOLEAN, d \in Data}
Init == shown = <<>> /\ hist = <<>> /\ n = 0
OnShow == {shown[i].page : i \in 1..Len(shown)}
Next ==
  /\ Len(hist) < N
  /\ \/ \E fs \in Pages(n + 1) : Show(fs) /\ hist' = Append(hist, [do |-> "page", n |-> n + 1, figs |-> fs]) /\ n' = n + 1
     \/ \E p \in OnShow : Drop(p) /\ hist' = Append(hist, [do |-> "drop", n |-> p, figs |-> <<>>]) /\ n' = n
Spec == Init /\ [][Next]_<<shown, hist, n>>
\* -------------------------------------------------------------- invariants
\* every figure shows what it would show alone
CoversOwn == \A i \in 1..Len(shown) : LET f == shown[i] IN f.x[1] <= OwnX(f)[1] /\ OwnX(f)[2] <= f.x[2] /\ f.y[1] <= OwnY(f)[1] /\ OwnY(f)[2] <= f.y[2]
\* those of a group agree
Agree == \A i, j \in 1..Len(shown) : shown[i].group = shown[j].group => shown[i].x = shown[j].x /\ shown[i].y = shown[j].y
\* no wider than ever needed
Needed == \A i \in 1..Len(shown) : \E k \in 1..Len(hist) : \E q \in 1..Len(hist[k].figs) : hist[k].figs[q].group = shown[i].group /\ OwnX(hist[k].figs[q])[1] = shown[i].x[1]
Emit == Len(hist) = N => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
