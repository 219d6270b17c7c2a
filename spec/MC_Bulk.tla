------------------------------ MODULE MC_Bulk ------------------------------
(* The laws of long traces on short ones: every line is of one kind, times  *)
(* do not decrease, a window keeps a run of lines; and the generator gives  *)
(* every row whatever it finds about the memory.                            *)
EXTENDS Bulk
VARIABLE tc
mvars == <<vars, tc>>
Trs == [n : {1, 7, 23}, k : {2, 5}, j : {3, 9}, d : {1, 4}, step : {10}, ncpu : {2}, arr : BOOLEAN, win : {<<>>, <<15, 35>>}]
Init == GInit /\ tc \in Trs
Next == GNext /\ UNCHANGED tc
Spec == Init /\ [][Next]_mvars
Partition ==
  LET a == LinesOf(tc, "a") b == LinesOf(tc, "b") o == LinesOf(tc, "other") IN
  /\ Len(a) + Len(b) + Len(o) = tc.n
  /\ \A s \in {a, b, o} : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1] /\ At(tc, s[i]) <= At(tc, s[i + 1])
Run == \A i \in 0..(tc.n - 1), x \in 0..(tc.n - 1) : i < x /\ Inside(tc, i) /\ Inside(tc, x) => \A m \in i..x : Inside(tc, m)
Wide == \A e \in {"a", "b"} : LET mine == LinesOf(tc, e) IN
          \A i \in 1..Len(mine) : Len(RowDue(tc, mine, mine[i])) = 7 + Width(tc, mine)
===========================================================================
