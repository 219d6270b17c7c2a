---------------------------- MODULE MC_Timeline ----------------------------
(* Every history of N gestures on a small timeline.  The domain is 0..64,  *)
(* the plot 16 or 8 pixels wide, with two lanes.                           *)
EXTENDS Timeline, TLC, Json, IOUtils
VARIABLES view, hist
N == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3
Items == << [name |-> "a", lane |-> 1, s |-> 0, e |-> 8], [name |-> "b", lane |-> 1, s |-> 8, e |-> 40], [name |-> "a", lane |-> 1, s |-> 44, e |-> 45],
            [name |-> "a", lane |-> 2, s |-> 2, e |-> 34], [name |-> "c", lane |-> 2, s |-> 34, e |-> 64] >>
P == [lo |-> 0, hi |-> 64, lanes |-> <<"CPU 0", "CPU 1">>, items |-> Items, colours |-> <<>>, summary |-> TRUE]
\* the window a magnification about a pixel gives: what is there stays there,
\* as far as the domain goes
ZoomAt(v, num, den, px) ==
  LET l == ZoomLen(P, v, num, den)
      raw == v.lo + (px * ((v.hi - v.lo) - l)) \div v.w
      lo == Max2(P.lo, Min2(P.hi - l, raw))
  IN [v EXCEPT !.lo = lo, !.hi = lo + l]
G(do, a, b, c) == [do |-> do, a |-> a, b |-> b, c |-> c]
Zooms == {G("zoom", 2, 1, f) : f \in {0, 8, 15}} \cup {G("zoom", 1, 2, f) : f \in {0, 12}}
Pans == {G("pan", d, 0, 0) : d \in {-8, 4}}
Brushes == {G("brush", 0, 32, 0), G("brush", 40, 56, 0), G("brush", 16, 16, 0)}
Others == {G("resize", 8, 0, 0), G("resize", 16, 0, 0), G("A", 2, 0, 0), G("B", 6, 0, 0), G("ask", 1, 1, 0), G("ask", 7, 2, 0)}
Result(v, g) ==
  CASE g.do = "zoom" -> {ZoomAt(v, g.a, g.b, (g.c * v.w) \div 16)}
    [] g.do = "pan" -> {Pan(P, v, (g.a * v.w) \div 16)}
    [] g.do = "brush" -> {Brush(P, v, g.a, g.b)}
    [] g.do = "resize" -> {Resize(P, v, g.a)}
    [] g.do = "A" -> {MarkA(P, v, g.a)}
    [] g.do = "B" -> {MarkB(P, v, g.a)}
    [] OTHER -> Ask(P, v, g.a, g.b)
Init == view = Opened(P, 16) /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E g \in Zooms \cup Pans \cup Brushes \cup Others :
              /\ \E n \in Result(view, g) : view' = n
              /\ hist' = Append(hist, g)
Spec == Init /\ [][Next]_<<view, hist>>
\* -------------------------------------------------------------- invariants
StaysInside == Inside(P, view)
KnownEvents == view.info # <<>> => \E i \in 1..Len(Items) : view.info[1] = Items[i]
MarksInside == \A m \in {view.A, view.B} : m # <<>> => P.lo <= m[1] /\ m[1] <= P.hi
\* magnifying about a point is a magnification, wherever the point
ZoomsAreZooms == \A g \in Zooms : IsZoom(P, view, g.a, g.b, ZoomAt(view, g.a, g.b, (g.c * view.w) \div 16))
\* looking for the events in view by bisection, as the page does: the events
\* of a name in a lane are sorted and disjoint
RECURSIVE Search(_, _, _, _)
\* keys: the starts or the ends
Search(keys, value, l, r) == IF l >= r THEN l ELSE LET m == (l + r) \div 2 IN IF keys[m] > value THEN Search(keys, value, l, m) ELSE Search(keys, value, m + 1, r)
Lanes == {<<n, l>> \in {"a", "b", "c"} \X {1, 2} : \E i \in 1..Len(Items) : Items[i].name = n /\ Items[i].lane = l}
BisectionFinds ==
  \A nl \in Lanes :
    LET d == SelectSeq(Items, LAMBDA i : i.name = nl[1] /\ i.lane = nl[2])
        r == Search([k \in 1..Len(d) |-> d[k].s], view.hi, 1, Len(d))
        l == Search([k \in 1..Len(d) |-> d[k].e], view.lo, 1, r)
    IN \A k \in 1..Len(d) : Showing(d[k], view.lo, view.hi) => l <= k /\ k <= r
Emit == Len(hist) = N => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
