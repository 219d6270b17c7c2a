--------------------------- MODULE Trace_Correlate ---------------------------
(* Recorded correlations against Correlate (C18).  A case has two worlds   *)
(* (tables by event), triggers, levels, an aggregation function, a         *)
(* correlation function ("" none given), a level and plot (its columns, 0  *)
(* if nothing is plotted); obs = [err, index,    *)
(* scores ([nan, m, q]: thousandths and tenths), total (thousandths),      *)
(* zeros (Indexer.series()), uniform, plots (by axis, the lines drawn)]                                  *)
EXTENDS Correlate, TV
VARIABLES cx, bad

RECURSIVE LevelsFrom(_, _)
LevelsFrom(adds, ls) == IF adds = <<>> THEN ls ELSE LevelsFrom(Tail(adds), AddTo(ls, Head(adds).name, Head(adds).groups))
C18(c) ==
  LET o == c.obs
      ls == LevelsFrom(c.adds, <<>>)
      ta == SortedTimes(c.a, c.trs)
      tb == SortedTimes(c.b, c.trs)
      ts == UnionTimes(<<ta, tb>>)
      grid == Grid(ts)
      ba == [n \in NodesOf(ls) |-> Base(c.a, c.trs, n)]
      bb == [n \in NodesOf(ls) |-> Base(c.b, c.trs, n)]
      group(base, g) == AddSeqs([k \in 1..Len(g) |-> Agg(c.fn, base[g[k]])])
      all == GroupsOf(ls, "all")[1]
      topx == Sample(ta, group(ba, all), grid)
      topy == Sample(tb, group(bb, all), grid)
      how == IF c.corr = "" THEN "pearson" ELSE c.corr
      gs == GroupsOf(ls, c.level)
      \* without resampling the very series are compared (same times, no shift)
      sx(g) == IF c.resample THEN Sample(ta, group(ba, gs[g]), grid) ELSE group(ba, gs[g])
      sy(g) == IF c.resample THEN Sample(tb, group(bb, gs[g]), grid) ELSE group(bb, gs[g])
      pair(g, s) == Aligned(sx(g), sy(g), s)
      wsum(s) == LET w(g) == Weight(pair(g, s)[1], pair(g, s)[2]) IN SumOver(Len(gs), w)
      fits(g, s) == LET p == pair(g, s) q == Pearson(p[1], p[2]) x == o.scores[g] IN
         IF how = "pearson" THEN IF Undefined(q) THEN x.nan ELSE ~x.nan /\ IsTenths(q, x.q) /\ (Perfect(q) => x.m = 1000)
         ELSE ~x.nan /\ x.m = 1000 * Score(how, p[1], p[2])
      \* sum of w c over sum of w; scores that are not numbers add nothing
      totals(s) == LET W == wsum(s)
                       part(g) == IF o.scores[g].nan THEN 0
                                  ELSE Weight(pair(g, s)[1], pair(g, s)[2]) * o.scores[g].m
                   IN IF W = 0 THEN (\A g \in 1..Len(gs) : o.scores[g].nan) => o.total = 0
                      ELSE Abs(o.total * W - SumOver(Len(gs), part)) <= 2 * W
      shifts == Alignments(how, topx, topy)
  IN
  IF o.err # "" THEN (IF o.err = "ZeroDivisionError" /\ \E s \in shifts : wsum(s) = 0 THEN <<>> ELSE <<"no-error">>) ELSE
     Clause("common-times", o.index = ts)
  \o Clause("zero-series", o.zeros = [i \in 1..Len(ts) |-> [t |-> ts[i], v |-> 0]])
  \o Clause("uniform-times", o.uniform = grid)
  \o Clause("one-score-per-group", Len(o.scores) = Len(gs))
  \o (IF Len(o.scores) # Len(gs) THEN <<>> ELSE
        Clause("scores", \E s \in shifts : \A g \in 1..Len(gs) : fits(g, s))
     \o Clause("plotted", c.plot # 0 => \E s \in shifts :
           /\ (c.resample => \A g \in 1..Len(gs) : fits(g, s))
           /\ o.plots = [g \in 1..Len(gs) |-> LET p == Aligned(Sample(ta, group(ba, gs[g]), grid), Sample(tb, group(bb, gs[g]), grid), s) IN
                         <<[t |-> grid, v |-> p[1]], [t |-> grid, v |-> p[2]]>>])
     \o Clause("total", \E s \in shifts : (\A g \in 1..Len(gs) : fits(g, s)) => totals(s))
     \o Clause("identical-inputs", c.a = c.b /\ how # "print" => \A g \in 1..Len(gs) :
           o.scores[g].nan \/ how = "agree" \/ o.scores[g].m = 1000)
     \o Clause("symmetric", how # "print" => o.swapped = [scores |-> o.scores, total |-> o.total]))
Verdict(c) == C18(c)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Verdict(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
=============================================================================
