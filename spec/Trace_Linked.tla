---------------------------- MODULE Trace_Linked ----------------------------
(* Interactive line plots in a browser (C35) against Linked.                *)
(* Case: [id, steps (page: [do, n, area (pixels across)], drop: [do, n],    *)
(*   resize: [do, area], look: [do, n, fig, x]), obs = [err, told (page n:  *)
(*   its figures as the page tells them, in the order of its scripts), seen *)
(*   (after each step: [err, pages: of [n, graphs], syncs])]]               *)
EXTENDS Linked, TV
VARIABLES cx, bad

Figs(c, n) == [k \in 1..Len(c.obs.told[n]) |-> LET f == c.obs.told[n][k] IN
                 [page |-> n, fig |-> k, group |-> f.group, sync |-> f.sync, rows |-> f.rows, xl |-> f.xl, yl |-> f.yl]]
Index(s, n, k) == CHOOSE i \in 1..Len(s) : s[i].page = n /\ s[i].fig = k
\* rows without values may stand before and after
Blank(r) == \A j \in 1..Len(r.vs) : r.vs[j].k = "n"
DataFits(rows, f) ==
  \E a, b \in 0..1 :
    /\ Len(rows) = Len(f.rows) + a + b
    /\ SubSeq(rows, 1 + a, Len(rows) - b) = f.rows
    /\ a = 1 => Blank(rows[1]) /\ rows[1].t <= f.rows[1].t
    /\ b = 1 => Blank(rows[Len(rows)]) /\ rows[Len(rows)].t >= f.rows[Len(f.rows)].t
SeeFig(f, t, o, area) ==
     Clause("window", o.x = f.x /\ o.y = f.y)
  \o Clause("data", DataFits(o.rows, f))
  \o Clause("labels", o.labels = t.labels /\ o.title = t.title)
  \o Clause("legend", o.legend = t.name \o "_legend" /\ o.id = t.name)
  \o Clause("style", o.step = t.step /\ o.fill = t.fill /\ (t.alpha # 0 => o.alpha = t.alpha) /\ o.points = t.points /\ o.stroke = t.stroke /\ o.psize = t.psize)
  \o Clause("colours", t.given => o.given /\ o.colors = t.colors)
  \o Clause("plain", o.connect /\ o.roll = 1 /\ ~o.log /\ ~o.bars)
  \o Clause("size", o.h = t.height /\ o.w * t.perLine < area /\ (o.w + 6) * t.perLine >= area)
RECURSIVE SeeFigs(_, _, _, _, _)
SeeFigs(c, s, pg, k, area) ==
  IF k > Len(pg.graphs) THEN <<>>
  ELSE SeeFig(s[Index(s, pg.n, k)], c.obs.told[pg.n][k], pg.graphs[k], area) \o SeeFigs(c, s, pg, k + 1, area)
RECURSIVE SeePages(_, _, _, _, _)
SeePages(c, s, ob, i, area) ==
  IF i > Len(ob.pages) THEN <<>>
  ELSE LET pg == ob.pages[i] IN
       (IF Len(pg.graphs) # Len(c.obs.told[pg.n]) THEN <<"graphs">> ELSE SeeFigs(c, s, pg, 1, area)) \o SeePages(c, s, ob, i + 1, area)
OnShow(y) == {<<y.graphs[i].page, y.graphs[i].fig>> : i \in {q \in 1..Len(y.graphs) : y.graphs[q].page > 0}}
Of(s, I) == {<<s[i].page, s[i].fig>> : i \in I}
SeeSyncs(c, s, ob, g) ==
     Clause("zoomed-together", \A i \in 1..Len(ob.syncs) : LET m == OnShow(ob.syncs[i]) IN
                Cardinality(m) >= 2 => \A a, b \in m : LET x == s[Index(s, a[1], a[2])] y == s[Index(s, b[1], b[2])] IN x.sync /\ y.sync /\ x.group = y.group)
  \o (IF g.do # "page" THEN <<>>
      ELSE Clause("zoom-linked", \A k \in 1..Len(c.obs.told[g.n]) : LET grp == c.obs.told[g.n][k].group IN
                Synced(s, grp) => \E i \in 1..Len(ob.syncs) : OnShow(ob.syncs[i]) = Of(s, Members(s, grp)) /\ ob.syncs[i].zoom))
Following(s, ob, n, k) == {i \in 1..Len(s) : \E y \in 1..Len(ob.syncs) : ob.syncs[y].zoom /\ {<<s[i].page, s[i].fig>>, <<n, k>>} \subseteq OnShow(ob.syncs[y])}
After(c, s, g, ob) ==
  CASE g.do = "page" -> WithAll(s, Figs(c, g.n))
    [] g.do = "drop" -> Without(s, g.n)
    [] g.do = "look" -> Look(s, Index(s, g.n, g.fig), g.x, Following(s, ob, g.n, g.fig))
    [] OTHER -> s
RECURSIVE Follow(_, _, _, _)
Follow(c, k, s, area) ==
  IF k > Len(c.steps) THEN <<>>
  ELSE LET g == c.steps[k] ob == TLCEval(c.obs.seen[k]) a == TLCEval(IF g.do \in {"page", "resize"} THEN g.area ELSE area) IN
       \* what our browser cannot do is not judged
       IF ob.err = "unsupported" THEN <<>> ELSE IF ob.err # "" THEN <<"no-error">>
       ELSE LET n == TLCEval(After(c, s, g, ob))
                \* only what is on a page shown with this width has been given it
                v == TLCEval(SeePages(c, n, ob, 1, a) \o SeeSyncs(c, n, ob, g))
            IN IF v # <<>> THEN v ELSE Follow(c, k + 1, n, a)
Judge(c) == IF c.obs.err # "" THEN <<"no-error">> ELSE Follow(c, 1, <<>>, 0)
TInit == cx = 1 /\ bad = <<>> /\ shown = <<>>
TNext == /\ cx <= Len(Cases)
         /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
         /\ cx' = cx + 1 /\ UNCHANGED shown
         /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == TInit /\ [][TNext]_<<cx, bad, shown>>
=============================================================================
