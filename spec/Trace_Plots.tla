----------------------------- MODULE Trace_Plots -----------------------------
(* Figures of LinePlot and BarPlot (C23) against Plots.                    *)
(* Case: [id, data, cols, tmpls, zip, pivot, filters, w, unit, concat,     *)
(*  per_line, map, style, ncol, psize, fwd, passed, bars, stacked, colors, *)
(*  lims, title, fill, scatter,                                            *)
(*  obs = [err, grid (rows, cols),                                         *)
(*    axes (sequence of [cell, title, xl, yl, fills, arts (sequence of     *)
(*    [color, pts, bars (sequence of [x, w, y, h]), style, mark])]),       *)
(*    legend (sequence of [text, color]), title]]                          *)
EXTENDS Plots, TV
VARIABLES cx, bad

Mapped(c, p) == IF \E i \in 1..Len(c.map) : c.map[i].pv = p
                THEN (c.map[CHOOSE i \in 1..Len(c.map) : c.map[i].pv = p]).label
                ELSE Join(TextOf(p))
PivotName(c, p) == c.pivot \o ": " \o Mapped(c, p)
\* bars are drawn by position: heights, each next to or on top of the others
BarsOf(art) == [i \in 1..Len(art.bars) |-> art.bars[i].h]
Values(pts) == [i \in 1..Len(pts) |-> pts[i].v.i]
Side(arts) == \A a, b \in 1..Len(arts) : \A i \in 1..Len(arts[a].bars) : \A j \in 1..Len(arts[b].bars) :
   (a # b \/ i # j) => LET p == arts[a].bars[i] q == arts[b].bars[j] IN p.x + p.w <= q.x + 2 \/ q.x + q.w <= p.x + 2
Stacks(arts) == \A a \in 1..Len(arts) : \A i \in 1..Len(arts[a].bars) :
   LET b == arts[a].bars[i]
       others == {x \in 1..Len(arts) : x # a /\ Len(arts[x].bars) >= i}
   IN /\ \A x \in others : arts[x].bars[i].x = b.x /\ arts[x].bars[i].y # b.y
      /\ b.y # 0 => \E x \in others : arts[x].bars[i].y + arts[x].bars[i].h = b.y
InGroups(art) == \A i \in 1..Len(art.bars) : LET d == art.bars[i].x - art.bars[1].x - 1000000 * (i - 1) IN d \in -2..2

Judge(c) ==
  LET o == c.obs
      ex == TLCEval(Expand(Len(c.data), Len(c.cols), Len(c.tmpls), c.zip))
      tab(k) == c.data[ex[k].tr].tabs[c.tmpls[ex[k].tmpl]]
      col(k) == c.cols[ex[k].col]
      pvs == TLCEval([k \in 1..Len(ex) |-> Pivots(tab(k), col(k), c.pivot, c.filters, c.w)])
      all == TLCEval(SortPivots(UNION {pvs[k] : k \in 1..Len(ex)}, c.unit))
      mode == IF c.concat THEN "concat" ELSE IF ~c.zip THEN "permute" ELSE "pivot"
      pivoted == c.pivot # NoPivot
      keys == TLCEval(AxisKeys(mode, ex, all, Len(c.data)))
      n == Len(keys)
      on == TLCEval([a \in 1..n |-> OnAxis(mode, keys[a], ex, pvs)])
      pts(x) == SeriesOf(tab(x[1]), col(x[1]), c.pivot, c.filters, c.w, x[2])
      data(k) == c.data[ex[k].tr]
      label(k) == Label(data(k).name, data(k).frame, ex[k].ix, c.tmpls[ex[k].tmpl], col(k))
      name(k) == DataName(data(k).name, data(k).frame, ex[k].ix)
      signal(k) == (IF data(k).frame THEN "" ELSE c.tmpls[ex[k].tmpl] \o ":") \o col(k)
      title(a) == IF on[a] = {} THEN "" ELSE
                  CASE mode = "concat" -> label(keys[a].c)
                    [] mode = "permute" -> name(CHOOSE k \in {x[1] : x \in on[a]} : TRUE)
                    [] OTHER -> IF pivoted THEN PivotName(c, keys[a].pv) ELSE ""
      entry(x) == CASE mode = "concat" /\ pivoted -> PivotName(c, x[2])
                    [] mode = "concat" -> col(x[1])
                    [] mode = "permute" -> signal(x[1])
                    [] OTHER -> label(x[1])
      lkey(x) == LET q == LegendKey(mode, pivoted, ex, x[1], x[2]) IN
                 \* the same signal asked for twice is the same entry
                 IF mode = "pivot" \/ (mode = "concat" /\ pivoted) THEN q
                 ELSE [q EXCEPT !.col = CHOOSE i \in 1..Len(c.cols) : c.cols[i] = col(x[1]) /\ \A j \in 1..(i - 1) : c.cols[j] # col(x[1]),
                                !.tmpl = CHOOSE i \in 1..Len(c.tmpls) : c.tmpls[i] = c.tmpls[ex[x[1]].tmpl] /\ \A j \in 1..(i - 1) : c.tmpls[j] # c.tmpls[ex[x[1]].tmpl]]
      drawn == TLCEval(UNION {on[a] : a \in 1..n})
      entries == TLCEval({[key |-> lkey(x), text |-> entry(x)] : x \in drawn})
      shows(art, x) == IF c.bars THEN BarsOf(art) = Values(pts(x)) ELSE art.pts = pts(x)
      \* the legend entry of a colour
      named(art) == {i \in 1..Len(o.legend) : o.legend[i].color = art.color}
  IN
  IF ex = Rejected THEN Clause("mismatch-rejected", o.err \in {"RuntimeError", "ValueError"})
  ELSE IF n = 0 THEN Clause("nothing-to-plot-rejected", o.err = "RuntimeError")
  ELSE IF o.err # "" THEN <<"no-error">>
  ELSE IF Len(o.axes) # n THEN <<"number-of-axes">>
  ELSE
     Clause("layout", /\ o.grid = <<NRows(n, c.per_line), NCols(n, c.per_line)>>
                      /\ \A a \in 1..n : o.axes[a].cell = CellAt(a, n, c.per_line))
  \o Clause("titles", \A a \in 1..n : o.axes[a].title = title(a))
  \o Clause("every-series-once", \A a \in 1..n :
        /\ Len(o.axes[a].arts) = Cardinality(on[a])
        /\ \A x \in on[a] : Cardinality({i \in 1..Len(o.axes[a].arts) : shows(o.axes[a].arts[i], x)})
                            = Cardinality({y \in on[a] : pts(y) = pts(x)}))
  \o Clause("legend", /\ Len(o.legend) = Cardinality(entries)
                      /\ \A e \in entries : Cardinality({i \in 1..Len(o.legend) : o.legend[i].text = e.text})
                                            = Cardinality({f \in entries : f.text = e.text}))
  \o Clause("entries-told-apart", \A i, j \in 1..Len(o.legend) : (i # j /\ c.colors = <<>>) => o.legend[i].color # o.legend[j].color)
  \o Clause("legend-names-the-series", \A a \in 1..n : \A x \in on[a] :
        \E i \in 1..Len(o.axes[a].arts) : LET art == o.axes[a].arts[i] IN
           shows(art, x) /\ \E e \in named(art) : o.legend[e].text = entry(x))
  \o Clause("colours", (c.colors # <<>> /\ ~(mode = "concat" /\ pivoted)) => \A a \in 1..n : \A x \in on[a] :
        \E i \in 1..Len(o.axes[a].arts) : shows(o.axes[a].arts[i], x) /\
           LET q == IF mode = "pivot" THEN x[1]
                    ELSE CHOOSE k \in 1..Len(ex) : lkey(<<k, x[2]>>) = lkey(x) /\ \A j \in 1..(k - 1) : lkey(<<j, x[2]>>) # lkey(x)
           IN q <= Len(c.colors) => o.axes[a].arts[i].color = c.colors[q])
  \o Clause("limits", \A a \in 1..n : on[a] # {} =>
        /\ (c.xlim # <<>> => o.axes[a].xl = c.xlim) /\ (c.ylim # <<>> => o.axes[a].yl = c.ylim))
  \o Clause("figure-title", o.title = c.title)
  \o Clause("filled", ~c.bars => \A a \in 1..n : o.axes[a].fills = IF c.fill THEN Cardinality(on[a]) ELSE 0)
  \o Clause("style", ~c.bars => \A a \in 1..n : \A i \in 1..Len(o.axes[a].arts) : LET art == o.axes[a].arts[i] IN
        /\ art.mark = IF c.scatter THEN "o" ELSE c.marker
        /\ (c.scatter => art.line = "None") /\ art.drawstyle = c.drawstyle /\ (~c.scatter => art.line = c.linestyle))
  \o Clause("forwarded", ~c.bars => \A a \in 1..n : \A i \in 1..Len(o.axes[a].arts) : \A k \in 1..Len(c.passed) :
        c.passed[k].arg \in Forwarded(c.fwd, Usual) => o.axes[a].arts[i].props[c.passed[k].arg] = c.passed[k].v)
  \o Clause("not-forwarded", ~c.bars => \A a \in 1..n : \A i \in 1..Len(o.axes[a].arts) : \A k \in 1..Len(c.passed) :
        c.passed[k].arg \notin Forwarded(c.fwd, Usual) => o.axes[a].arts[i].props[c.passed[k].arg] # c.passed[k].v)
  \o Clause("point-size", c.psize # 0 => \A a \in 1..n : \A i \in 1..Len(o.axes[a].arts) : o.axes[a].arts[i].props["markersize"] = c.psize)
  \* as many as asked for, or at least one for each entry
  \o Clause("legend-columns", (c.ncol # 0 /\ o.legend # <<>>) =>
        o.ncol <= c.ncol /\ (o.ncol = c.ncol \/ o.ncol >= Len(o.legend)))
  \o Clause("bars-in-groups", c.bars => \A a \in 1..n : \A i \in 1..Len(o.axes[a].arts) : InGroups(o.axes[a].arts[i]))
  \o Clause("bars-apart", c.bars => \A a \in 1..n :
        IF c.stacked THEN Stacks(o.axes[a].arts)
        ELSE Side(o.axes[a].arts) /\ \A i \in 1..Len(o.axes[a].arts) : \A j \in 1..Len(o.axes[a].arts[i].bars) : o.axes[a].arts[i].bars[j].y = 0)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
