----------------------------- MODULE MC_Power -----------------------------
(* The reports of two clusters and a GPU, one at a time; what is known of  *)
(* each is kept in registers, and a row of the table written at a report.  *)
EXTENDS Power, Json, IOUtils, TLC
VARIABLES rows, known, table
vars == <<rows, known, table>>
Big == IOEnv.TV_TIER = "thorough"
Who == {"A", "B", "GPU"}
N == IF Big THEN 7 ELSE 5
Init == rows = <<>> /\ known = [w \in Who |-> None] /\ table = <<>>
Report(w, v, dt) ==
  LET t == dt + (IF rows = <<>> THEN 0 ELSE rows[Len(rows)].t) IN
  /\ rows' = Append(rows, [t |-> t, who |-> w, v |-> v])
  /\ known' = [known EXCEPT ![w] = v]
  /\ table' = Append(table, [t |-> t, at |-> known'])
Next == Len(rows) < N /\ \E w \in Who, v \in {1, 2} : Report(w, v, IF Len(rows) % 2 = 0 THEN 1 ELSE 2)
Spec == Init /\ [][Next]_vars
\* the registers hold the last reports, now and at every row written
Agrees == \A i \in 1..Len(table) : \A w \in Who : table[i].at[w] = At(rows, w, table[i].t)
\* nothing is attributed to another, and nothing known too early
Own == \A i \in 1..Len(table) : \A w \in Who : LET x == At(rows, w, table[i].t) IN
   x # None => \E j \in 1..i : rows[j].who = w /\ rows[j].v = x
NotBefore == \A w \in Who : \A t \in 0..20 : (At(rows, w, t) = None) <=> (\A j \in Reports(rows, w) : rows[j].t > t)
\* what is known without others' reports is what is known with them
Apart == \A w \in Who : LET mine == SelectSeq(rows, LAMBDA r : r.who = w) IN \A t \in 0..12 : At(rows, w, t) = At(mine, w, t)
Emit == (Len(rows) >= 2) => PrintT("@@" \o ToJson([rows |-> rows]))
ASSUME CpusOf("00000000,0000000f") = 4 /\ CpusOf("000000f0") = 4 /\ CpusOf("00000039") = 4 /\ CpusOf("00000006") = 2
ASSUME \A a \in {0, 1, 7, 100, 399}, b \in {1, 3, 8, 1000} : LET m == Millionths(a, b) IN a < b => (m \div 100) * b <= a * 10000 /\ a * 10000 < (m \div 100 + 1) * b
=============================================================================
