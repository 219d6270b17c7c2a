--------------------------- MODULE Trace_Compare ---------------------------
(* Thermal plots and comparisons of runs (C28) against Compare.            *)
(* Case: [id, op, runs (see Compare), tz, actors, map, w, h (inches, 0 for *)
(*   the default), title, lab, ctl, lim, cur, give; obs: [err, msg, figs,  *)
(*   lims]]; a figure: [size, rows, cols, axes], an axis: [row, col,       *)
(*   title, lines, leg (the legend names them), bars = <<lo, hi, n>>...,   *)
(*   upto, mean (hundredths), xlabel]                                      *)
EXTENDS Compare, TV
VARIABLES cx, bad
Near(a, b) == (a - b) \in -2..2
Same(l, e) == /\ l.name = e.name /\ Len(l.pts) = Len(e.pts)
              /\ \A i \in 1..Len(l.pts) : l.pts[i][1] = e.pts[i][1] /\
                   (IF Nothing \in {l.pts[i][2], e.pts[i][2]} THEN l.pts[i][2] = e.pts[i][2] ELSE Near(l.pts[i][2], e.pts[i][2]))
Inked(ls) == SelectSeq(ls, LAMBDA l : l.pts # <<>>)
SameAll(ls, es) == LET x == Inked(ls) IN Len(x) = Len(es) /\ \A i \in 1..Len(es) : Same(x[i], es[i])
Cell(fig, r, k) == fig.axes[CHOOSE i \in 1..Len(fig.axes) : fig.axes[i].row = r /\ fig.axes[i].col = k]
Grid(fig, rows, cols) == /\ fig.rows = rows /\ fig.cols = cols /\ Len(fig.axes) = rows * cols
                         /\ \A r \in 1..rows, k \in 1..cols : \E i \in 1..Len(fig.axes) : fig.axes[i].row = r /\ fig.axes[i].col = k
Sized(fig, w, h, rows) == LET s == Size(w, h, rows) IN Near(fig.size[1], s[1]) /\ (fig.size[2] - s[2]) \in (-rows)..rows
\* a figure with this grid and size of which these clauses hold
Page(name, fig, rows, cols, w, h, inside) ==
  IF ~Grid(fig, rows, cols) THEN <<name \o "-grid">>
  ELSE Clause(name \o "-size", Sized(fig, w, h, rows)) \o inside
Legends(name, fig) == Clause(name \o "-legend", \A i \in 1..Len(fig.axes) : fig.axes[i].leg)
\* one axis for each run
RowOf(name, c, fig, what, lines(_)) ==
  Page(name, fig, 1, Len(c.runs), c.w, c.h,
    Clause(name \o "-titles", \A k \in 1..Len(c.runs) : lines(c.runs[k]) # <<>> => Cell(fig, 1, k).title = Title(c.runs[k].name, what))
    \o Clause(name \o "-lines", \A k \in 1..Len(c.runs) : SameAll(Cell(fig, 1, k).lines, lines(c.runs[k])))
    \o Legends(name, fig))
FigTemperature(c, fig) ==
  Page("temperature", fig, 1, 1, c.w, c.h,
    LET ax == Cell(fig, 1, 1) IN Clause("temperature-title", ax.title = "Temperature")
      \o Clause("temperature-lines", SameAll(ax.lines, LinesOf(c.runs, c.tz, 1))) \o Legends("temperature", fig))
HistFits(vs, ax) ==
  LET In(b, strict) == Cardinality({i \in 1..Len(vs) : IF strict THEN b[1] + 2 < vs[i] /\ vs[i] < b[2] - 2 ELSE b[1] - 2 <= vs[i] /\ vs[i] <= b[2] + 2})
  IN /\ \A i \in 1..Len(ax.bars) : In(ax.bars[i], TRUE) <= ax.bars[i][3] /\ ax.bars[i][3] <= In(ax.bars[i], FALSE)
     /\ \A v \in Range(vs) : \E b \in Range(ax.bars) : b[3] > 0 /\ b[1] - 2 <= v /\ v <= b[2] + 2
     /\ (Highest(Range(vs)) > 0 => Near(ax.upto, Highest(Range(vs))))
RECURSIVE SumOf(_, _)
SumOf(vs, i) == IF i > Len(vs) THEN 0 ELSE vs[i] + SumOf(vs, i + 1)
Readings(run) == [i \in 1..Len(run.temps) |-> run.temps[i].v]
FigTempHist(c, fig) ==
  LET H == WithTemps(c.runs) IN
  Page("histogram", fig, 1, Len(H), 0, 0,
    Clause("histogram-titles", \A k \in 1..Len(H) : Cell(fig, 1, k).title = Title(c.runs[H[k]].name, "Temperature") /\ Cell(fig, 1, k).xlabel = "Temperature (C)")
    \o Clause("histogram-data", \A k \in 1..Len(H) : HistFits(Readings(c.runs[H[k]]), Cell(fig, 1, k)))
    \o Clause("histogram-mean", \A k \in 1..Len(H) : LET vs == Readings(c.runs[H[k]]) IN
         (Cell(fig, 1, k).mean - (SumOf(vs, 1) \div (10 * Len(vs)))) \in -1..1))
\* power plots of a run, as in PowerTables
Case(c, k) == [ev |-> c.runs[k].ev, map |-> c.map, name |-> c.runs[k].name]
Ours(cols) == [i \in 1..Len(cols) |-> [cols[i] EXCEPT !.pts = [j \in 1..Len(@) |-> <<@[j][1], IF @[j][2] = Nothing THEN None ELSE @[j][2]>>]]]
Thousandths(rows) == [i \in 1..Len(rows) |-> [rows[i] EXCEPT !.v = @ \div 1000]]
Lab(p, e) == Label(p, e.mask)
RowsIn(p, what) == LET L(e) == Lab(p, e) G(e) == "GPU" IN Rows(p, "cin", what, L) \o Rows(p, "din", what, G)
FigLoad(c, fig) ==
  LET n == Len(c.runs)  p(k) == Case(c, k) IN
  Page("load", fig, 2, n, c.w, c.h,
    Clause("load-titles", \A k \in 1..n : Cell(fig, 1, k).title = Titled(c.runs[k].name, "Utilization") /\ Cell(fig, 2, k).title = Titled(c.runs[k].name, "Normalized Utilization"))
    \o Clause("load-lines", \A k \in 1..n : ColsOk(RowsIn(p(k), "load"), Ours(Cell(fig, 1, k).lines), Labels(p(k))))
    \o Clause("normalized-load-lines", \A k \in 1..n : ColsOk(Thousandths(RowsIn(p(k), "norm")), Ours(Cell(fig, 2, k).lines), Labels(p(k))))
    \o Legends("load", fig))
AnyDev(c) == \E k \in 1..Len(c.runs) : Sel(c.runs[k], "din") # <<>>
FreqRows(c) == Len(c.map) + (IF AnyDev(c) THEN 1 ELSE 0)
FreqsOf(p, kind, who) == LET L(e) == who IN SelectSeq(Rows(p, kind, "freq", L), LAMBDA r : TRUE)
OfLabel(p, kind, l, who) == LET es == SelectSeq(Sel(p, kind), LAMBDA e : Label(p, e.mask) = l) IN [i \in 1..Len(es) |-> [t |-> es[i].t, who |-> who, v |-> es[i].freq]]
PairRows(p, l) == IF l = "GPU" THEN FreqsOf(p, "din", "gpu_freq_in") \o FreqsOf(p, "dout", "gpu_freq_out")
                  ELSE OfLabel(p, "cin", l, l \o "_freq_in") \o OfLabel(p, "cout", l, l \o "_freq_out")
BothDev(p) == Sel(p, "din") # <<>> /\ Sel(p, "dout") # <<>>
AnyTime(p) == {p.ev[i].t : i \in 1..Len(p.ev)}
PairFits(p, l, cols) ==
  LET rows == PairRows(p, l) IN
  /\ \A i, j \in 1..Len(cols) : i # j => cols[i].name # cols[j].name
  /\ {rows[i].who : i \in 1..Len(rows)} \subseteq {cols[i].name : i \in 1..Len(cols)}
  /\ \A i \in 1..Len(cols) : LET ts == [j \in 1..Len(cols[i].pts) |-> cols[i].pts[j][1]] IN
       /\ cols[i].name \in (IF l = "GPU" THEN {"gpu_freq_in", "gpu_freq_out"} ELSE {l \o "_freq_in", l \o "_freq_out"})
       /\ Rising(ts) /\ \A j \in Reports(rows, cols[i].name) : rows[j].t \in Range(ts)
       /\ \A j \in 1..Len(ts) : ts[j] \in AnyTime(p) /\ Close(cols[i].pts[j][2], At(rows, cols[i].name, ts[j]))
FigFreqs(c, fig) ==
  LET n == Len(c.runs)  R == FreqRows(c)  p(k) == Case(c, k)
      Named(k) == Labels(p(k)) \cup (IF BothDev(p(k)) THEN {"GPU"} ELSE {})
      ttl(k, l) == Titled(c.runs[k].name, "allfreqs " \o l)
  IN Page("allfreqs", fig, R, n, c.w, c.h,
    Clause("allfreqs-each-once", \A k \in 1..n : \A l \in Named(k) : Cardinality({r \in 1..R : Cell(fig, r, k).title = ttl(k, l)}) = 1)
    \o Clause("allfreqs-no-other", \A k \in 1..n : \A r \in 1..R : Inked(Cell(fig, r, k).lines) # <<>> => \E l \in Named(k) \cup {"GPU"} : Cell(fig, r, k).title = ttl(k, l))
    \o Clause("allfreqs-lines", \A k \in 1..n : \A r \in 1..R : \A l \in Named(k) : Cell(fig, r, k).title = ttl(k, l) => PairFits(p(k), l, Ours(Cell(fig, r, k).lines)))
    \o Legends("allfreqs", fig))
DirRows(p, dir, l) == IF l = "GPU" THEN FreqsOf(p, IF dir = "in" THEN "din" ELSE "dout", "GPU") ELSE OfLabel(p, IF dir = "in" THEN "cin" ELSE "cout", l, l)
HistsFit(rows, ax) == LET vs == {rows[i].v : i \in 1..Len(rows)} IN
  /\ \A v \in vs : \E b \in Range(ax.bars) : b[3] > 0 /\ b[1] - 2 <= v /\ v <= b[2] + 2
  /\ \A b \in Range(ax.bars) : b[3] > 0 => \E v \in vs : b[1] - 2 <= v /\ v <= b[2] + 2
  /\ Near(ax.upto, Highest(vs))
FigFreqHists(c, fig) ==
  LET n == Len(c.runs)  R == FreqRows(c)  p(k) == Case(c, k)
      Named(k) == Labels(p(k)) \cup (IF BothDev(p(k)) THEN {"GPU"} ELSE {})
      ttl(k, dir, l) == Titled(c.runs[k].name, "freq " \o dir \o " " \o l)
      Spot(dir) == IF dir = "out" THEN 1..R ELSE (R + 1)..(2 * R)
      Wanted(k) == {w \in {"in", "out"} \X Named(k) : DirRows(p(k), w[1], w[2]) # <<>>}
      Filled(ax) == \E i \in 1..Len(ax.bars) : ax.bars[i][3] > 0
  IN Page("freqhist", fig, 2 * R, n, 0, 0,
    Clause("freqhist-each-once", \A k \in 1..n : \A w \in Wanted(k) : Cardinality({r \in 1..(2 * R) : Cell(fig, r, k).title = ttl(k, w[1], w[2])}) = 1)
    \o Clause("freqhist-places", \A k \in 1..n : \A w \in Wanted(k) : \E r \in Spot(w[1]) : Cell(fig, r, k).title = ttl(k, w[1], w[2]))
    \o Clause("freqhist-no-other", \A k \in 1..n : \A r \in 1..(2 * R) : Filled(Cell(fig, r, k)) => \E w \in {"in", "out"} \X (Named(k) \cup {"GPU"}) : Cell(fig, r, k).title = ttl(k, w[1], w[2]))
    \o Clause("freqhist-data", \A k \in 1..n : \A r \in 1..(2 * R) : \A w \in Wanted(k) : Cell(fig, r, k).title = ttl(k, w[1], w[2]) => HistsFit(DirRows(p(k), w[1], w[2]), Cell(fig, r, k))))
\* figures in the order they come in, or an error
Plots(name, c, figs, n, inside) == IF Len(figs) # n THEN <<name \o "-figures">> ELSE inside
Some(c, P(_)) == \E k \in 1..Len(c.runs) : P(c.runs[k])
NoTemps(c) == \E k \in 1..Len(c.runs) : TempLines(c.runs[k], c.tz) = <<>>
NoGov(r) == r.gov = <<>>
NoPid(r) == r.pid = <<>>
NoIn(r) == Sel(r, "cin") = <<>>
NoOut(r) == Sel(r, "cout") = <<>>
Weighed(c) == c.actors # <<>> /\ \E k \in 1..Len(c.runs) : c.runs[k].weights # <<>>
UnmappedIn(c) == \E k \in 1..Len(c.runs) : Unmapped(Case(c, k), "cin")
UnmappedAny(c) == \E k \in 1..Len(c.runs) : Unmapped(Case(c, k), "cin") \/ Unmapped(Case(c, k), "cout")
\* power lines for another number of actors are none
Mismatch(c, f(_)) == \E k \in 1..Len(c.runs) : Widest(c.runs[k], f) # Len(c.actors)
InputLines(c, r) == PowerLines(r, Req, c.actors)
OutputLines(c, r) == PowerLines(r, Granted, c.actors)
FigInput(c, fig) == LET L(r) == InputLines(c, r) IN RowOf("input", c, fig, "Input Power", L)
FigOutput(c, fig) == LET L(r) == OutputLines(c, r) IN RowOf("output", c, fig, "Output Power", L)
FigWeighted(c, fig) == LET L(r) == WeightedLines(r, c.actors) IN RowOf("weighted", c, fig, "Weighted Input Power", L)
FigPid(c, fig) == RowOf("controller", c, fig, "PID", PidLines)
Error(name, c, e) == Clause(name, c.obs.err = e)
Fine(c, open, n, inside(_)) ==
  IF open THEN <<>> ELSE IF c.obs.err # "" THEN <<c.op \o "-no-error">>
  ELSE Plots(c.op, c, c.obs.figs, n, inside(c.obs.figs))
Limits(c) ==
  LET L == c.obs.lims IN
  Clause("limits-default", c.lim # "default" \/ L.got = L.cur)
  \o Clause("limits-range", c.lim # "range" \/ (\A i \in {1, 2} : Near(L.got[i], Range10(L.cur)[i])))
  \o Clause("limits-given", c.lim # "pair" \/ (\A i \in {1, 2} : L.got[i] = c.give[i] * 1000))
Judge(c) ==
  CASE c.op = "temperature" -> Fine(c, NoTemps(c), 1, LAMBDA f : FigTemperature(c, f[1]))
         \o (IF NoTemps(c) \/ c.obs.err # "" THEN <<>> ELSE Limits(c))
    [] c.op = "controller" -> Fine(c, Some(c, NoPid), 1, LAMBDA f : FigPid(c, f[1]))
    [] c.op \in {"input", "weighted"} ->
         IF Some(c, NoGov) THEN <<>>
         ELSE IF c.op = "input" /\ Mismatch(c, Req) THEN Error("input-mismatch-rejected", c, "ValueError")
         ELSE LET k == IF c.op = "input" THEN 1 ELSE 0 IN
              Fine(c, FALSE, k + (IF Weighed(c) THEN 1 ELSE 0),
                   LAMBDA f : (IF k = 1 THEN FigInput(c, f[1]) ELSE <<>>) \o (IF Weighed(c) THEN FigWeighted(c, f[k + 1]) ELSE <<>>))
    [] c.op = "output" -> IF Some(c, NoGov) THEN <<>> ELSE IF Mismatch(c, Granted) THEN Error("output-mismatch-rejected", c, "ValueError")
         ELSE Fine(c, FALSE, 1, LAMBDA f : FigOutput(c, f[1]))
    [] c.op = "temphist" -> Fine(c, FALSE, IF WithTemps(c.runs) = <<>> THEN 0 ELSE 1, LAMBDA f : IF f = <<>> THEN <<>> ELSE FigTempHist(c, f[1]))
    [] c.op = "load" -> IF UnmappedIn(c) THEN Clause("load-unmapped-rejected", c.obs.err # "") ELSE Fine(c, Some(c, NoIn), 1, LAMBDA f : FigLoad(c, f[1]))
    [] c.op = "allfreqs" -> IF UnmappedAny(c) THEN Clause("allfreqs-unmapped-rejected", c.obs.err # "") ELSE Fine(c, Some(c, NoIn) \/ Some(c, NoOut), 1, LAMBDA f : FigFreqs(c, f[1]))
    [] c.op = "freqhists" -> IF UnmappedAny(c) THEN Clause("freqhist-unmapped-rejected", c.obs.err # "") ELSE Fine(c, Some(c, NoIn) \/ Some(c, NoOut), 1, LAMBDA f : FigFreqHists(c, f[1]))
    [] c.op \in {"compare", "summary"} ->
         IF c.give[1] = 1 \/ c.give[2] = 1 THEN Error("arguments-rejected", c, "TypeError")
         ELSE IF Some(c, NoGov) \/ Some(c, NoPid) \/ Some(c, NoOut) \/ NoTemps(c) THEN <<>>
         ELSE IF Some(c, NoIn) THEN Clause("compare-no-power-rejected", c.obs.err = "ValueError")
         ELSE IF UnmappedAny(c) THEN Clause("compare-unmapped-rejected", c.obs.err # "")
         ELSE IF Mismatch(c, Req) \/ Mismatch(c, Granted) THEN Error("compare-mismatch-rejected", c, "ValueError")
         ELSE LET k == IF Weighed(c) THEN 1 ELSE 0  th == IF WithTemps(c.runs) = <<>> THEN 0 ELSE 1
                  d == [c EXCEPT !.w = IF @ = 0 THEN 20 ELSE @, !.h = IF @ = 0 THEN 5 ELSE @] IN
              Fine(c, FALSE, 7 + k + th, LAMBDA f :
                FigTemperature(d, f[1]) \o FigLoad(d, f[2]) \o FigFreqs(d, f[3]) \o FigPid(d, f[4]) \o FigInput(d, f[5])
                \o (IF k = 1 THEN FigWeighted(d, f[6]) ELSE <<>>) \o FigOutput(d, f[6 + k]) \o FigFreqHists(d, f[7 + k])
                \o (IF th = 1 THEN FigTempHist(d, f[8 + k]) ELSE <<>>))
    [] c.op = "thermal" ->       \* one run's temperatures alone
         LET r == c.runs[1]  th == InZone(r.temps, c.tz) IN
         IF th = <<>> THEN Error("empty-rejected", c, "ValueError")
         ELSE Fine(c, FALSE, 1, LAMBDA f : Page("thermal", f[1], 1, 1, c.w, c.h,
                LET ax == Cell(f[1], 1, 1) IN Clause("thermal-title", ax.title = Title(c.title, "Temperature")) \o
                Clause("thermal-lines", SameAll(ax.lines, <<[name |-> Title(c.lab, "Temperature"), pts |-> Temps(th)]>>
                  \o (IF c.ctl /\ r.gov # <<>> THEN <<[name |-> Title(c.lab, "Control"), pts |-> Control(r.gov)]>> ELSE <<>>))) \o Legends("thermal", f[1])))
    [] c.op = "governor" ->
         LET r == c.runs[1] IN
         Fine(c, r.gov = <<>>, 1, LAMBDA f : Page("governor", f[1], 1, 1, c.w, c.h,
                LET ax == Cell(f[1], 1, 1) IN Clause("governor-title", ax.title = Title(c.title, "Temperature")) \o
                Clause("governor-lines", SameAll(ax.lines, GovernorLines([r EXCEPT !.name = c.lab], -1))) \o Legends("governor", f[1])))
    [] c.op = "single" ->        \* input, output and controller of one run
         LET r == c.runs[1] e == [c EXCEPT !.runs = <<[r EXCEPT !.name = c.title]>>] IN
         IF NoGov(r) \/ NoPid(r) THEN <<>> ELSE IF Mismatch(c, Req) \/ Mismatch(c, Granted) THEN Error("single-mismatch-rejected", c, "ValueError")
         ELSE Fine(c, FALSE, 3, LAMBDA f : FigInput(e, f[1]) \o FigOutput(e, f[2]) \o FigPid(e, f[3]))
    [] c.op = "inout" ->         \* what older kernels told: by actor's name
         LET r == c.runs[1] IN
         Fine(c, r.gov = <<>>, Len(c.actors), LAMBDA f :
           Clause("inout-titles", \A k \in 1..Len(c.actors) : Grid(f[k], 1, 1) /\ Cell(f[k], 1, 1).title = Title(c.title, c.actors[k]))
           \o Clause("inout-lines", \A k \in 1..Len(c.actors) : Grid(f[k], 1, 1) => SameAll(Cell(f[k], 1, 1).lines,
                << [name |-> "P" \o c.actors[k] \o "_in", pts |-> Actor(r, Req, k)], [name |-> "P" \o c.actors[k] \o "_out", pts |-> Actor(r, Granted, k)] >>)))
    [] OTHER -> <<"unknown-op">>
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
