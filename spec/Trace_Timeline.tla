--------------------------- MODULE Trace_Timeline ---------------------------
(* Timelines of event plots in a browser (C34) against Timeline.            *)
(* Case: [id, plots (plot n: see Timeline), steps (gestures: [do, n, num,   *)
(*   den, px, y, lo, hi, width]), obs = [err, help, obs (after each step: [err, pages])]]      *)
(* A page: [n, timelines (here one): [width, height, axis, shapes, lanes,   *)
(*   lines, marks, said, rect, swatch, summary, mini], help]                *)
EXTENDS Timeline, TV
VARIABLES cx, bad

\* ------------------------------------------------------------- what is seen
Shapes(p, lo_, hi_, w_, n_, h_, shs_, named) ==
  LET lo == TLCEval(lo_) hi == TLCEval(hi_) w == TLCEval(w_) n == TLCEval(n_) h == TLCEval(h_) shs == TLCEval(shs_)
      vis == TLCEval({i \in 1..Len(p.items) : Showing(p.items[i], lo, hi)})
      \* the colours of the names
      same(i, sh) == Shows(p.items[i], lo, hi, w, n, h, sh) /\ (named => sh.name = p.items[i].name) /\ ColourAsked(p, p.items[i].name, sh.colour)
  IN    Clause("every-event-drawn", \A i \in vis : Drawable(p.items[i], lo, hi, w) => \E k \in 1..Len(shs) : same(i, shs[k]) /\ ShowsAll(p.items[i], lo, hi, w, n, h, shs[k]))
     \o Clause("nothing-else-drawn", \A k \in 1..Len(shs) : \E i \in vis : same(i, shs[k]))
\* every name has one colour, and its own unless colours are given or scarce
ColourPairs(shs) == {<<shs[k].name, shs[k].colour>> : k \in 1..Len(shs)}
Names(p) == {p.items[i].name : i \in 1..Len(p.items)}
Colours(p, shs) ==
  LET cs == ColourPairs(shs) IN
  Clause("colour-per-name", \A x, y \in cs : x[1] = y[1] => x[2] = y[2])
  \o Clause("colours-differ", (p.colours = <<>> /\ Cardinality(Names(p)) <= 20) => \A x, y \in cs : x[2] = y[2] => x[1] = y[1])
LaneNames(p, h, ls) ==
  LET n == Len(p.lanes) IN
  Clause("lanes", /\ Len(ls) = n
                  /\ \A l \in 1..n : \E k \in 1..n : ls[k].text = p.lanes[l] /\ (l - 1) * h <= ls[k].y * n /\ ls[k].y * n <= l * h)
\* the text of the times: rounded to microseconds, so to the unit when read
Mark(name, v, m, px, said) ==
  Clause("mark-" \o name, IF m = <<>> THEN px = <<>> /\ said = <<>>
                          ELSE /\ said = <<m[1]>>
                               /\ IF InView(v, m[1]) THEN Len(px) = 1 /\ At(v.lo, v.hi, v.w, m[1], px[1]) ELSE px = <<>>)
Details(p, v, o) ==
  IF v.info = <<>> THEN Clause("details", o.said.other = <<>> /\ o.rect = <<>>)
  ELSE LET i == v.info[1] IN
    Clause("details", /\ {o.said.other[k] : k \in 1..Len(o.said.other)} = {[name |-> i.name, s |-> 0, e |-> 0, d |-> 0], [name |-> "", s |-> i.s, e |-> i.e, d |-> i.e - i.s]})
    \o Clause("details-place",
         IF ~Showing(i, v.lo, v.hi) THEN o.rect = <<>>
         ELSE /\ Len(o.rect) = 1
              /\ LET r == o.rect[1] n == Len(p.lanes) IN
                 /\ At(v.lo, v.hi, v.w, Max2(i.s, v.lo), r.x) /\ Abs((r.x + r.w) * (v.hi - v.lo) - (Min2(i.e, v.hi) - v.lo) * v.w * 64) <= 2 * (v.hi - v.lo)
                 /\ Abs(r.y * n - (i.lane - 1) * o.height) <= n /\ Abs(r.h * n - o.height) <= n)
    \o Clause("details-colour", \A k \in 1..Len(o.shapes) : o.shapes[k].name = i.name => \E q \in 1..Len(o.swatch) : o.swatch[q] = o.shapes[k].colour)
\* the drawing lies in its picture, with room for the names of the lanes
Within(m) == m[1] > 0 /\ \A k \in 2..4 : m[k] >= 0
Mini(p, v, o) ==
  IF ~p.summary THEN Clause("summary", ~o.summary)
  ELSE IF ~o.summary THEN <<"summary">>
  ELSE LET m == o.mini IN
       Clause("summary-axis", m.axis.lo = p.lo /\ m.axis.hi = p.hi /\ m.axis.left = 0 /\ m.axis.right = v.w * 64)
    \o Shapes(p, p.lo, p.hi, v.w, Len(p.lanes), m.height, m.shapes, FALSE)
    \o LaneNames(p, m.height, m.lanes)
    \o Clause("summary-margins", Within(m.margins))
    \o Clause("summary-brush", Len(m.brush) = 1 /\ m.brush[1] = <<v.lo, v.hi>>)
    \o Clause("summary-lines", \A k \in 1..Len(m.lines) : m.lines[k] = v.w * 64)
See(p_, v_, o_) ==
  LET p == TLCEval(p_) v == TLCEval(v_) o == TLCEval(o_) IN
     Clause("axis", o.axis.lo = v.lo /\ o.axis.hi = v.hi /\ o.axis.left = 0 /\ o.axis.right = v.w * 64)
  \o Shapes(p, v.lo, v.hi, v.w, Len(p.lanes), o.height, o.shapes, TRUE)
  \o Colours(p, o.shapes)
  \o LaneNames(p, o.height, o.lanes)
  \o Clause("margins", Within(o.margins))
  \o Clause("lines", \A k \in 1..Len(o.lines) : o.lines[k] = v.w * 64)
  \o Mark("A", v, v.A, o.marks.A, o.said.A) \o Mark("B", v, v.B, o.marks.B, o.said.B)
  \o Clause("delta", o.said.D = IF v.A = <<>> \/ v.B = <<>> THEN <<>> ELSE <<v.A[1] - v.B[1]>>)
  \o Details(p, v, o)
  \o Mini(p, v, o)

\* ------------------------------------------------------------ the histories
\* what a gesture makes of the view of plot n; seen: the axis afterwards
Lane(p, h, y) == (y * 64 * Len(p.lanes)) \div h + 1
Results(p, v, g, o) ==
  CASE g.do = "zoom" -> LET n == [v EXCEPT !.lo = o.axis.lo, !.hi = o.axis.hi] IN IF IsZoom(p, v, g.num, g.den, n) THEN {n} ELSE {}
    [] g.do = "pan" -> {Pan(p, v, g.px)}
    [] g.do = "brush" -> {Brush(p, v, g.lo, g.hi)}
    [] g.do = "A" -> {MarkA(p, v, g.px)}
    [] g.do = "B" -> {MarkB(p, v, g.px)}
    [] g.do = "ask" -> Ask(p, v, g.px, Lane(p, o.height, g.y))
    [] OTHER -> {v}
After(c, vs, k, n, o) ==
  LET g == c.steps[k] p == c.plots[n] IN
  CASE g.do = "page" -> IF g.n = n THEN {Opened(p, g.width)} ELSE vs
    [] g.do = "resize" -> {Resize(p, v, g.width) : v \in vs}
    [] g.n = n -> UNION {Results(p, v, g, o) : v \in vs}
    [] OTHER -> vs
Page(o, n) == SelectSeq(o.pages, LAMBDA p : p.n = n)
RECURSIVE Follow(_, _, _, _), Plots(_, _)
\* vs: the views plot n may have
Follow(c, n, k, vs) ==
  IF k > Len(c.steps) THEN <<>>
  ELSE LET ob == TLCEval(c.obs.obs[k]) pg == TLCEval(Page(ob, n))
           live == vs # {} \/ (c.steps[k].do = "page" /\ c.steps[k].n = n)
       IN IF ob.err = "unsupported" THEN <<>> ELSE IF ob.err # "" THEN <<"no-error">>
          ELSE IF c.steps[k].do = "drop" /\ c.steps[k].n = n THEN Follow(c, n, k + 1, {})
          ELSE IF ~live THEN Follow(c, n, k + 1, {})
          ELSE IF Len(pg) # 1 \/ Len(pg[1].timelines) # 1 THEN <<"shown">>
          ELSE LET o == TLCEval(pg[1].timelines[1])
                   next == TLCEval(After(c, vs, k, n, o))
                   saw == TLCEval([v \in next |-> See(c.plots[n], v, o)])
                   fits == TLCEval({v \in next : saw[v] = <<>>})
               IN IF fits # {} THEN (IF c.steps[k].do = "help" /\ c.steps[k].n = n THEN Clause("help", pg[1].help = <<c.obs.help>>) ELSE <<>>) \o Follow(c, n, k + 1, fits)
                  ELSE IF next = {} THEN <<"window">>
                  ELSE saw[CHOOSE v \in next : TRUE]
Plots(c, n) == IF n > Len(c.plots) THEN <<>> ELSE Follow(c, n, 1, {}) \o Plots(c, n + 1)
\* ------------------------------------------------------- crowds of events
\* c.crowd: [n, stride]; all steps are about one plot
CrowdStep(c, o, v) ==
  LET t(sh) == (sh.x0 * (v.hi - v.lo)) \div (v.w * 64) + v.lo
      one(sh) == LET k == (IF sh.x0 = 0 THEN v.lo ELSE t(sh)) \div 3 IN
                 IF Shows([name |-> "a", lane |-> 1, s |-> 3 * k, e |-> 3 * k + 2], v.lo, v.hi, v.w, 1, o.height, sh) THEN k ELSE -1
      ks == TLCEval({one(o.shapes[k]) : k \in 1..Len(o.shapes)})
  IN Clause("axis", o.axis.lo = v.lo /\ o.axis.hi = v.hi) \o Clause("crowd", Sampled(ks, CrowdIn(c.crowd.n, v.lo, v.hi), c.crowd.stride))
RECURSIVE Crowd(_, _, _)
Crowd(c, k, v) ==
  IF k > Len(c.steps) THEN <<>>
  ELSE LET ob == TLCEval(c.obs.obs[k]) g == c.steps[k] IN
       IF ob.err = "unsupported" THEN <<>> ELSE IF ob.err # "" \/ Len(ob.pages) # 1 THEN <<"no-error">>
       ELSE LET n == TLCEval(CASE g.do = "page" -> [lo |-> c.plots[1].lo, hi |-> c.plots[1].hi, w |-> g.width]
                               [] g.do = "brush" -> [v EXCEPT !.lo = g.lo, !.hi = g.hi]
                               [] OTHER -> [v EXCEPT !.w = g.width])
            IN CrowdStep(c, TLCEval(ob.pages[1].timelines[1]), n) \o Crowd(c, k + 1, n)
Judge(c) == IF "crowd" \in DOMAIN c THEN (IF c.obs.err # "" THEN <<"no-error">> ELSE Crowd(c, 1, [lo |-> 0, hi |-> 1, w |-> 1])) ELSE IF c.obs.err # "" THEN <<"no-error">> ELSE Plots(c, 1)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
=============================================================================
