------------------------------ MODULE Results ------------------------------
(* The scores in the results of Workload Automation.  A row is [id, bench, *)
(* metric, val]; which metrics are scores and how often the benchmark had  *)
(* run by then is told by the metric's name, the run by the row's id       *)
(* without the numbers in it.  Of several scores for the same benchmark,   *)
(* run and number the first one is the score.                              *)
EXTENDS Text, TLC
IsScore(m) == LET cs == Chars(m) IN \E p \in {"Overall_Score", "score", "FPS"} : StartsWith(cs, Chars(p))
\* the last number after a blank or underscore
NumAt(cs) == LET S == {i \in 2..(Len(cs) - 1) : cs[i] \in {" ", "_"} /\ cs[i + 1] \in Digits} IN
             IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
RECURSIVE Decimal(_, _, _)
Decimal(cs, i, acc) == IF i > Len(cs) THEN acc ELSE IF cs[i] \notin Digits THEN acc
                       ELSE Decimal(cs, i + 1, 10 * acc + (CHOOSE d \in 0..9 : ToString(d) = cs[i]))
Number(m) == LET cs == Chars(m)  i == NumAt(cs) IN
  IF i = 0 THEN 0
  ELSE Decimal(cs, i + 1, 0) - (IF SubSeq(cs, 1, i - 1) = Chars("Overall_Score") THEN 1 ELSE 0)
RECURSIVE RunFrom(_, _)
RunFrom(cs, i) == IF i > Len(cs) THEN ""
  ELSE IF cs[i] = "_" /\ i < Len(cs) /\ cs[i + 1] \in Digits THEN RunFrom(cs, SkipWhile(cs, i + 1, Digits))
  ELSE cs[i] \o RunFrom(cs, i + 1)
RunOf(id) == RunFrom(Chars(id), 1)
\* a score: [bench, run, num, val]
ScoreOf(r, name) == [bench |-> r.bench, run |-> IF name = "" THEN RunOf(r.id) ELSE name, num |-> Number(r.metric), val |-> r.val]
Key(s) == <<s.bench, s.run, s.num>>
Scores(rows, name) ==
  LET all == SelectSeq(rows, LAMBDA r : IsScore(r.metric))
      ss == [i \in 1..Len(all) |-> ScoreOf(all[i], name)]
  IN {ss[i] : i \in {j \in 1..Len(ss) : \A k \in 1..(j - 1) : Key(ss[k]) # Key(ss[j])}}
\* ---- room for data on a plot (enlarge_axis): data which reach a limit get
\* a margin of a tenth of their range, and at least one, beyond it.  Limits
\* and margins in ten-thousandths, data (-1: none) in thousandths.
Low(S) == CHOOSE x \in S : \A y \in S : x <= y
High(S) == CHOOSE x \in S : \A y \in S : x >= y
Room(S) == LET m == High(S) - Low(S) IN IF m < 10000 THEN 10000 ELSE m
EnlargedLow(S, lo) == IF Low(S) <= lo THEN 10 * Low(S) - Room(S) ELSE 10 * lo
EnlargedHigh(S, hi) == IF High(S) >= hi THEN 10 * High(S) + Room(S) ELSE 10 * hi
\* the title of a benchmark's plot is its name, with blanks for underscores
LowSeq == Chars("abcdefghijklmnopqrstuvwxyz")
UpSeq == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Up(ch) == IF ch \in Lower THEN UpSeq[CHOOSE i \in 1..26 : LowSeq[i] = ch] ELSE ch
Down(ch) == IF ch \in Upper THEN LowSeq[CHOOSE i \in 1..26 : UpSeq[i] = ch] ELSE ch
TitleOf(bench) ==
  LET cs == Chars(bench)
      ds == [i \in 1..Len(cs) |-> IF cs[i] = "_" THEN " " ELSE cs[i]]
  IN Join([i \in 1..Len(ds) |-> IF i > 1 /\ ds[i - 1] \in Lower \cup Upper THEN Down(ds[i]) ELSE Up(ds[i])])
=============================================================================
