------------------------------ MODULE Timeline ------------------------------
(* The timeline of an event plot in a browser: which part of the trace is   *)
(* in view, the marks A and B, the event whose details are shown, and what  *)
(* each gesture makes of them; and what is drawn of the events.             *)
(* Times are counted in units, places on the screen in 1/64 pixels.         *)
(* plot: [lo, hi (its domain), lanes (labels), items (sequence of           *)
(*        [name, lane (1 based), s, e]), colours (sequence of               *)
(*        [name, colour] as asked for), summary]                            *)
(* view: [lo, hi, w (pixels), A, B (times, <<>> if not set), info (item,    *)
(*        <<>> if none)]                                                    *)
EXTENDS Integers, Sequences, FiniteSets

MaxScale == 4096
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

\* ------------------------------------------------------------- gestures
Opened(p, w) == [lo |-> p.lo, hi |-> p.hi, w |-> w, A |-> <<>>, B |-> <<>>, info |-> <<>>]
Inside(p, v) == p.lo <= v.lo /\ v.lo < v.hi /\ v.hi <= p.hi
\* magnifying by num/den about a point in view: the new window is that much
\* shorter or longer, and one is a part of the other; which part depends on
\* the point.  Never more than the domain, never less than 1/4096 of it
ZoomLen(p, v, num, den) == Max2((p.hi - p.lo) \div MaxScale, Min2(p.hi - p.lo, ((v.hi - v.lo) * den) \div num))
IsZoom(p, v, num, den, n) ==
  /\ Inside(p, n) /\ n.hi - n.lo = ZoomLen(p, v, num, den)
  /\ IF num >= den THEN v.lo <= n.lo /\ n.hi <= v.hi ELSE n.lo <= v.lo /\ v.hi <= n.hi
  /\ n = [v EXCEPT !.lo = n.lo, !.hi = n.hi]
\* dragging the events some pixels to the right, as far as the domain goes
Pan(p, v, px) ==
  LET l == v.hi - v.lo
      lo == Max2(p.lo, Min2(p.hi - l, v.lo - (px * l) \div v.w))
  IN [v EXCEPT !.lo = lo, !.hi = lo + l]
Brush(p, v, a, b) == IF a = b THEN v ELSE [v EXCEPT !.lo = a, !.hi = b]
Resize(p, v, w) == [v EXCEPT !.w = w]
TimeAt(v, px) == v.lo + ((v.hi - v.lo) * px) \div v.w
MarkA(p, v, px) == [v EXCEPT !.A = <<TimeAt(v, px)>>]
MarkB(p, v, px) == [v EXCEPT !.B = <<TimeAt(v, px)>>]
\* asking for the event at a point: those strictly around the time, or
\* touching it
Around(p, t, l) == {i \in 1..Len(p.items) : p.items[i].lane = l /\ p.items[i].s < t /\ t < p.items[i].e}
Touching(p, t, l) == {i \in 1..Len(p.items) : p.items[i].lane = l /\ p.items[i].s <= t /\ t <= p.items[i].e}
Ask(p, v, px, l) ==
  LET t == TimeAt(v, px) IN
     {[v EXCEPT !.info = <<p.items[i]>>] : i \in Touching(p, t, l)}
  \cup (IF Around(p, t, l) = {} THEN {v} ELSE {})

\* ------------------------------------------------------ what is to be seen
\* a place x (1/64 pixels) is where time t is
At(lo, hi, w, t, x) == Abs(x * (hi - lo) - (t - lo) * w * 64) <= hi - lo
InView(v, t) == v.lo <= t /\ t <= v.hi
\* the middle of lane l of n, h (1/64 pixels) high together
InLane(n, h, l, y) == Abs(10 * (2 * n * y - (2 * l - 1) * h)) <= 2 * h
Showing(i, lo, hi) == Max2(i.s, lo) < Min2(i.e, hi)
\* a shape [x0, x1, y] shows the part of an event in view; it shows all of
\* it if it is at least one pixel long, or as long as the part
Shows(i, lo, hi, w, n, h, sh) ==
  LET s == Max2(i.s, lo) e == Min2(i.e, hi) IN
  /\ InLane(n, h, i.lane, sh.y)
  /\ At(lo, hi, w, s, sh.x0)
  /\ At(lo, hi, w, e, sh.x1) \/ ((e - s) * w <= hi - lo /\ sh.x0 <= sh.x1 /\ sh.x1 - sh.x0 <= 65)
ShowsAll(i, lo, hi, w, n, h, sh) == Shows(i, lo, hi, w, n, h, sh) /\ sh.x1 - sh.x0 >= 63
Drawable(i, lo, hi, w) == (Min2(i.e, hi) - Max2(i.s, lo)) * w * 100 >= hi - lo     \* a hundredth of a pixel
ColourAsked(p, name, c) == \A k \in 1..Len(p.colours) : p.colours[k].name = name => p.colours[k].colour = c
Asked(p, name) == \E k \in 1..Len(p.colours) : p.colours[k].name = name

\* ------------------------------------------------------- crowds of events
\* n events of a name in a lane, the k-th (from 0) from 3k to 3k + 2; of more
\* than 2000 in view only every so-manieth need be drawn if sampling was
\* asked for
CrowdIn(n, lo, hi) == {k \in 0..n - 1 : Showing([s |-> 3 * k, e |-> 3 * k + 2], lo, hi)}
Sampled(ks, all, stride) ==
  IF ~stride \/ Cardinality(all) <= 2000 THEN ks = all
  ELSE /\ ks \subseteq all /\ Cardinality(ks) <= 2000
       /\ \E m \in 2..10 : \E r \in 0..m - 1 : ks = {k \in all : k % m = r}
       /\ Cardinality(ks) > 900
=============================================================================
