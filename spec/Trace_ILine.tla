----------------------------- MODULE Trace_ILine -----------------------------
(* Pages of ILinePlot (C24) against ILine.                                 *)
(* Case: [id, data, cols, tmpls, zip, pivot, filters, w, unit, concat,     *)
(*  per_line, map, colors, ylim, title, fill, alpha, scatter, psize,       *)
(*  drawstyle, group, sync, max,                                           *)
(*  obs = [err, groups (of two pages of the same request), title,          *)
(*    cells (rows of the table, of figure numbers), legends (likewise),    *)
(*    calls (sequence of [fig, colors, given]),                            *)
(*    figs (sequence of [title, labels, rows, step, fill, alpha, perLine,  *)
(*      points, stroke, psize, sync, yl, xl])]]                            *)
EXTENDS ILine, TV
VARIABLES cx, bad

Mapped(c, p) == IF \E i \in 1..Len(c.map) : c.map[i].pv = p
                THEN (c.map[CHOOSE i \in 1..Len(c.map) : c.map[i].pv = p]).label
                ELSE Join(TextOf(p))
PivotName(c, p) == c.pivot \o ": " \o Mapped(c, p)
\* positions of a row of the table
Cells(n, perLine) == [r \in 1..NRows(n, perLine) |->
   LET k == NCols(n, perLine) IN [i \in 1..(IF r * k <= n THEN k ELSE n - (r - 1) * k) |-> (r - 1) * k + i]]

Judge(c) ==
  LET o == c.obs
      ex == TLCEval(Expand(Len(c.data), Len(c.cols), Len(c.tmpls), c.zip))
      tab(k) == c.data[ex[k].tr].tabs[c.tmpls[ex[k].tmpl]]
      col(k) == c.cols[ex[k].col]
      pvs == TLCEval([k \in 1..Len(ex) |-> Pivots(tab(k), col(k), c.pivot, c.filters, c.w)])
      all == TLCEval(SortPivots(UNION {pvs[k] : k \in 1..Len(ex)}, c.unit))
      mode == IF c.concat THEN "concat" ELSE IF ~c.zip THEN "permute" ELSE "pivot"
      pivoted == c.pivot # NoPivot
      keys == TLCEval(AxisKeys(mode, ex, all, Len(c.data)))
      n == Len(keys)
      on == TLCEval([a \in 1..n |-> OnAxis(mode, keys[a], ex, pvs)])
      place(p) == CHOOSE i \in 1..Len(all) : all[i] = p
      \* the series of a figure in order: by constraint, then by pivot value
      order(a) == LET R(x) == x[1] * 1000 + place(x[2])
                      rs == Ascending({R(x) : x \in on[a]})
                  IN [i \in 1..Len(rs) |-> CHOOSE x \in on[a] : R(x) = rs[i]]
      seq == TLCEval([a \in 1..n |-> order(a)])
      pts(x) == SeriesOf(tab(x[1]), col(x[1]), c.pivot, c.filters, c.w, x[2])
      series == TLCEval([a \in 1..n |-> [j \in 1..Len(seq[a]) |-> pts(seq[a][j])]])
      data(k) == c.data[ex[k].tr]
      label(k) == Label(data(k).name, data(k).frame, ex[k].ix, c.tmpls[ex[k].tmpl], col(k))
      name(k) == DataName(data(k).name, data(k).frame, ex[k].ix)
      signal(k) == (IF data(k).frame THEN "" ELSE c.tmpls[ex[k].tmpl] \o ":") \o col(k)
      title(a) == CASE mode = "concat" -> label(keys[a].c)
                    [] mode = "permute" -> name(CHOOSE k \in 1..Len(ex) : ex[k].tr = keys[a].c)
                    [] OTHER -> IF pivoted THEN PivotName(c, keys[a].pv) ELSE ""
      entry(x) == CASE mode = "concat" /\ pivoted -> PivotName(c, x[2])
                    [] mode = "concat" -> col(x[1])
                    [] mode = "permute" -> signal(x[1])
                    [] OTHER -> label(x[1])
      shown(ss) == Len(ss) * (IF Len(ss) = 1 THEN Len(ss[1]) ELSE Cardinality(Times(ss)))
      \* one colour for each signal, in order; for each pivot value if
      \* pivot values share a figure
      nsig == IF Len(c.cols) > Len(c.tmpls) THEN Len(c.cols) ELSE Len(c.tmpls)
      place1(x) == CASE mode = "concat" /\ pivoted -> place(x[2])
                     [] mode = "permute" -> ((x[1] - 1) % nsig) + 1
                     [] OTHER -> x[1]
      call(a) == o.calls[CHOOSE i \in 1..Len(o.calls) : o.calls[i].fig = a]
      color(a, j) == call(a).colors[((j - 1) % Len(call(a).colors)) + 1]
      fig(a) == o.figs[a]
  IN
  IF ex = Rejected THEN Clause("mismatch-rejected", o.err \in {"RuntimeError", "ValueError"})
  ELSE IF n = 0 THEN Clause("nothing-to-plot-rejected", o.err = "RuntimeError")
  ELSE IF \E a \in 1..n : on[a] # {} /\ shown(series[a]) > c.max THEN Clause("too-big-rejected", o.err = "ValueError")
  ELSE IF o.err # "" THEN <<"no-error">>
  ELSE IF Len(o.figs) # n THEN <<"number-of-figures">>
  ELSE
     Clause("layout", o.cells = Cells(n, c.per_line) /\ o.legends = Cells(n, c.per_line))
  \o Clause("every-figure-drawn-once", /\ Len(o.calls) = n
                                       /\ {o.calls[i].fig : i \in 1..Len(o.calls)} = 1..n)
  \o Clause("titles", \A a \in 1..n : on[a] # {} => fig(a).title = title(a))
  \o Clause("labels", \A a \in 1..n : fig(a).labels = <<"index">> \o [j \in 1..Len(seq[a]) |-> entry(seq[a][j])])
  \o Clause("data", \A a \in 1..n : IF seq[a] = <<>> THEN fig(a).rows = <<>> ELSE TableFits(series[a], c.drawstyle, fig(a).rows))
  \o Clause("colours", (Len(o.calls) = n /\ {o.calls[i].fig : i \in 1..Len(o.calls)} = 1..n) => \A a \in 1..n :
       IF c.colors = <<>> THEN ~call(a).given
       ELSE \A j \in 1..Len(seq[a]) : place1(seq[a][j]) <= Len(c.colors) => call(a).colors # <<>> /\ color(a, j) = c.colors[place1(seq[a][j])])
  \o Clause("options", \A a \in 1..n :
       /\ fig(a).step = Steps(c.drawstyle)
       /\ fig(a).fill = (c.fill \/ c.alpha # 0) /\ fig(a).alpha = c.alpha
       /\ fig(a).perLine = NCols(n, c.per_line)
       /\ fig(a).points = c.scatter /\ (fig(a).stroke = 0) = c.scatter /\ fig(a).psize = c.psize
       /\ fig(a).sync = c.sync)
  \o Clause("limits", \A a \in 1..n : fig(a).yl = c.ylim /\ fig(a).xl = c.w)
  \o Clause("caption", o.title = c.title)
  \o Clause("one-group-for-a-page", /\ Cardinality({o.groups[1][i] : i \in 1..Len(o.groups[1])}) = 1
                                    /\ IF c.group # "" THEN o.groups[1][1] = c.group /\ o.groups[2][1] = c.group
                                       ELSE o.groups[1][1] # o.groups[2][1])
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
