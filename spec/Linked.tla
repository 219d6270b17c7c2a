------------------------------- MODULE Linked -------------------------------
(* Interactive line plots in a notebook: pages of figures come and go; the  *)
(* figures of a group which are on show together have a common window.      *)
(* A figure: [page, fig, group, sync, rows (sequence of [t, vs]), xl, yl    *)
(* (limits asked for: <<lo, hi>> or <<>>)].  On show it has a window x and  *)
(* a range y besides, both <<lo, hi>>.                                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE shown          \* the figures on show, in the order they came

LMin(X) == CHOOSE x \in X : \A y \in X : x <= y
LMax(X) == CHOOSE x \in X : \A y \in X : x >= y
\* ------------------------------------------------- alone: all of its data
Values(f) == {f.rows[i].vs[j].i : <<i, j>> \in {q \in (1..Len(f.rows)) \X (1..10) : q[2] <= Len(f.rows[q[1]].vs) /\ f.rows[q[1]].vs[q[2]].k = "i"}}
OwnX(f) == IF f.xl # <<>> THEN f.xl ELSE <<f.rows[1].t, f.rows[Len(f.rows)].t>>
OwnY(f) == IF f.yl # <<>> THEN f.yl ELSE IF Values(f) = {} THEN <<0, 1000>> ELSE <<LMin(Values(f)), LMax(Values(f))>>
Drawn(f, x, y) == [page |-> f.page, fig |-> f.fig, group |-> f.group, sync |-> f.sync, rows |-> f.rows, xl |-> f.xl, yl |-> f.yl, x |-> x, y |-> y]
\* --------------------------------------------------------------- together
Members(s, g) == {i \in 1..Len(s) : s[i].group = g}
CommonX(s, g) == <<LMin({s[i].x[1] : i \in Members(s, g)}), LMax({s[i].x[2] : i \in Members(s, g)})>>
CommonY(s, g) == <<LMin({s[i].y[1] : i \in Members(s, g)}), LMax({s[i].y[2] : i \in Members(s, g)})>>
Join(s, g) ==
  IF Cardinality(Members(s, g)) < 2 THEN s
  ELSE LET x == CommonX(s, g) y == CommonY(s, g) IN
       [i \in 1..Len(s) |-> IF s[i].group = g THEN [s[i] EXCEPT !.x = x, !.y = y] ELSE s[i]]
With(s, f) == Join(Append(s, Drawn(f, OwnX(f), OwnY(f))), f.group)
RECURSIVE WithAll(_, _)
WithAll(s, fs) == IF fs = <<>> THEN s ELSE WithAll(With(s, Head(fs)), Tail(fs))
Without(s, n) == SelectSeq(s, LAMBDA f : f.page # n)
\* the groups whose figures are to be zoomed together: all those which are
\* on show want it
Synced(s, g) == Cardinality(Members(s, g)) >= 2 /\ \A i \in Members(s, g) : s[i].sync
\* the user looks at some window of a figure; those zoomed together follow
Look(s, k, x, follow) == [i \in 1..Len(s) |-> IF i = k \/ i \in follow THEN [s[i] EXCEPT !.x = x] ELSE s[i]]

Show(fs) == shown' = WithAll(shown, fs)
Drop(n) == shown' = Without(shown, n)
=============================================================================
