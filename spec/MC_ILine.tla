------------------------------ MODULE MC_ILine ------------------------------
(* Merging every small set of series into one table, row by row, carrying  *)
(* the last values along and then closing the gaps that are left.          *)
EXTENDS ILine, Json, IOUtils
VARIABLES ss, style, at, rows, phase
Big == IOEnv.TV_TIER = "thorough"
vars == <<ss, style, at, rows, phase>>
V(j, t) == IF (t + j) % 2 = 0 THEN I(10 * j + t) ELSE I(40 - 10 * j - t)
Seqs(T) == {[i \in 1..Cardinality(X) |-> [t |-> (Ascending(X))[i], v |-> IF (Ascending(X))[i] \in M THEN Missing ELSE I(0)]] :
              <<X, M>> \in {<<A, B>> \in ((SUBSET T) \ {{}}) \X SUBSET T : B \subseteq A}}
Styles == {"default", "steps-post", "steps-pre", "steps-mid"}
Init == /\ \E n \in 1..(IF Big THEN 3 ELSE 2) : \E s \in [1..n -> Seqs(IF Big /\ n < 3 THEN 1..4 ELSE 1..3)] : ss = [j \in 1..n |-> [i \in 1..Len(s[j]) |-> [t |-> s[j][i].t, v |-> IF s[j][i].v = Missing THEN Missing ELSE V(j, s[j][i].t)]]]
        /\ style \in Styles /\ at = 0 /\ rows = <<>> /\ phase = "merge"
Common == Ascending(Times(ss))
Own(j, t) == IF \E i \in 1..Len(ss[j]) : ss[j][i].t = t THEN ss[j][CHOOSE i \in 1..Len(ss[j]) : ss[j][i].t = t].v ELSE Missing
\* the outer join
Merge == /\ phase = "merge"
         /\ IF at = Len(Common) THEN phase' = "fill" /\ at' = (IF style = "steps-pre" THEN Len(rows) ELSE 1) /\ UNCHANGED rows
            ELSE /\ at' = at + 1 /\ phase' = phase
                 /\ rows' = Append(rows, [t |-> Common[at + 1], vs |-> [j \in 1..Len(ss) |-> Shown(Own(j, Common[at + 1]))]])
         /\ UNCHANGED <<ss, style>>
\* filling one row from the one before it (after it, backwards)
Dir == IF style = "steps-pre" THEN 1 ELSE -1
NextKnown(j, i) == {k \in i..Len(rows) : rows[k].vs[j] # Missing}
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
Filled(j, i) ==
  LET v == rows[i].vs[j] k == i + Dir IN
  IF v # Missing \/ k \notin 1..Len(rows) THEN v
  ELSE IF style # "default" THEN rows[k].vs[j]
  ELSE LET p == rows[k].vs[j] N == NextKnown(j, i) IN
       IF p = Missing \/ N = {} THEN p
       ELSE LET e == MinOf(N) IN I(p.i + (rows[e].vs[j].i - p.i) \div (e - k))
Fill == /\ phase = "fill" /\ Len(ss) > 1
        /\ IF at \notin 1..Len(rows) THEN phase' = "done" /\ UNCHANGED <<rows, at>>
           ELSE /\ rows' = [rows EXCEPT ![at].vs = [j \in 1..Len(ss) |-> Filled(j, at)]]
                /\ at' = at - Dir /\ phase' = phase
        /\ UNCHANGED <<ss, style>>
Alone == phase = "fill" /\ Len(ss) = 1 /\ phase' = "done" /\ UNCHANGED <<ss, style, rows, at>>
Spec == Init /\ [][Merge \/ Fill \/ Alone]_vars
Done == phase = "done"
Complete == Done => TableFits(ss, style, rows)
\* known values are never altered while filling
Kept0 == phase # "merge" => \A j \in 1..Len(ss) : \A i \in 1..Len(ss[j]) : ss[j][i].v # Missing =>
           \E k \in 1..Len(rows) : rows[k].t = ss[j][i].t /\ rows[k].vs[j] = Shown(ss[j][i].v)
Sorted == \A i \in 1..(Len(rows) - 1) : rows[i].t < rows[i + 1].t
NothingElse == \A i \in 1..Len(rows) : rows[i].t \in Times(ss)
\* no value from nowhere: what is shown lies between values of the series
Within == \A j \in 1..Len(ss) : \A i \in 1..Len(rows) : rows[i].vs[j] = Missing \/
            \E a, b \in 1..Len(ss[j]) : ss[j][a].v # Missing /\ ss[j][b].v # Missing /\
              ss[j][a].v.i * 1000 <= rows[i].vs[j].i /\ rows[i].vs[j].i <= ss[j][b].v.i * 1000
Emit == Done => PrintT("@@" \o ToJson([ss |-> ss, style |-> style]))
=============================================================================
