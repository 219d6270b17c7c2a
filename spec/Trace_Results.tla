--------------------------- MODULE Trace_Results ---------------------------
(* Tables of results (C29) against Results.                                *)
(* Case: [id, files: sequence of [rows, name], title, obs = [err, tables   *)
(*   (of each file: sequence of [bench, run, num, val]), kinds, comberr,   *)
(*   comb (cells of all combined), combcols (columns [bench, run]),        *)
(*   bars: [bench, title, sets: [run, vals]]]]                             *)
EXTENDS Results, TV
VARIABLES cx, bad
Range(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Columns(S) == {<<s.bench, s.run>> : s \in S}
Judge(c) ==
  LET o == c.obs
      want == TLCEval([i \in 1..Len(c.files) |-> Scores(c.files[i].rows, c.files[i].name)])
      none == \E i \in 1..Len(want) : want[i] = {}
      cols == [i \in 1..Len(want) |-> Columns(want[i])]
      ncols(x) == Cardinality({i \in 1..Len(want) : x \in cols[i]})
      ncell(x) == Cardinality({i \in 1..Len(want) : x \in want[i]})
      everyCol == UNION Range(cols)
      everyCell == UNION Range(want)
  IN
  IF none THEN Clause("no-results-rejected", o.err # "")
  ELSE IF o.err # "" THEN <<"no-error">>
  ELSE Clause("every-score", \A i \in 1..Len(want) : Range(o.tables[i]) = want[i] /\ Len(o.tables[i]) = Cardinality(want[i]))
    \o Clause("result-type", o.kinds)
    \o (IF Len(want) = 1 THEN <<>>
        ELSE IF o.comberr # "" THEN <<"combines">>
        ELSE Clause("combined-columns", Len(o.combcols) = Len(SelectSeq(o.combcols, LAMBDA x : x \in everyCol)) /\ \A x \in everyCol : Count(o.combcols, x) = ncols(x))
          \o Clause("combined-scores", Range(o.comb) = everyCell /\ \A x \in everyCell : Count(o.comb, x) = ncell(x)))
    \o Clause("bars", \A i \in 1..Len(o.bars) :
         LET b == o.bars[i] IN
         /\ b.title = (IF c.title # "" THEN c.title ELSE TitleOf(b.bench))
         /\ Len(b.legend) = Len(b.sets) /\ Range(b.legend) = {s.run : s \in Range(b.sets)} /\ b.other = 0
         /\ {s.run : s \in Range(b.sets)} = {x[2] : x \in {y \in cols[1] : y[1] = b.bench}}
         /\ \A s \in Range(b.sets) : \A v \in {w.val : w \in {y \in want[1] : y.bench = b.bench /\ y.run = s.run}} \ {0} :
              Count(s.vals, v) = Cardinality({y \in want[1] : y.bench = b.bench /\ y.run = s.run /\ y.val = v})
         /\ \A s \in Range(b.sets) : \A v \in Range(s.vals) : v \in {-1, 0} \/ \E y \in want[1] : y.bench = b.bench /\ y.run = s.run /\ y.val = v)
    \o Clause("all-benchmarks", ~c.bars \/
         LET bs == {x[1] : x \in cols[1]} IN
         /\ Len(o.all) = Cardinality(bs)
         /\ \A b \in bs : LET rs == {x[2] : x \in {y \in cols[1] : y[1] = b}} IN
              \E i \in 1..Len(o.all) : o.all[i].title = TitleOf(b) /\ Range(o.all[i].runs) = rs /\ Len(o.all[i].runs) = Cardinality(rs))
    \o Clause("limits", ~c.bars \/ (Len(o.limits) = Len(c.limits) /\ \A i \in 1..Len(c.limits) :
         LET l == c.limits[i]
             S == TLCEval(UNION {Range(l.data[k]) : k \in 1..Len(l.data)} \ {-1}) IN
         o.limits[i].lo = EnlargedLow(S, l.lo) /\ o.limits[i].hi = EnlargedHigh(S, l.hi) /\ o.limits[i].kept))
    \o Clause("file-kept", o.kept)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
