------------------------------- MODULE ILine -------------------------------
(* What the page of an interactive line plot holds: figures laid out as    *)
(* the axes of a static plot are (Plots), each with a table of all its     *)
(* series over their common times.                                         *)
EXTENDS Plots

\* ------------------------------------------------------- the common table
\* series: sequences of points [t, v] with distinct times, in time order;
\* values are counted in thousandths
Times(ss) == UNION {{ss[j][i].t : i \in 1..Len(ss[j])} : j \in 1..Len(ss)}
RECURSIVE Ascending(_)
Ascending(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Ascending(X \ {m})
\* the last known value at or before, the next at or after a time
Known(s) == SelectSeq(s, LAMBDA p : p.v # Missing)
UpTo(s, t) == SelectSeq(s, LAMBDA p : p.t <= t)
From(s, t) == SelectSeq(s, LAMBDA p : p.t >= t)
ValueBefore(s, t) == LET b == UpTo(Known(s), t) IN IF b = <<>> THEN Missing ELSE b[Len(b)].v
ValueAfter(s, t) == LET a == From(Known(s), t) IN IF a = <<>> THEN Missing ELSE a[1].v
Shown(v) == IF v = Missing THEN Missing ELSE I(v.i * 1000)
Steps(style) == style \in {"steps", "steps-post", "steps-mid", "steps-pre"}
\* a known value of a series is shown as it is; at a time the series has no
\* value there is the last one (steps-post, steps-mid), the next one
\* (steps-pre), or one strictly between the two
Fits1(s, t, style, seen) ==
  LET p == ValueBefore(s, t) n == ValueAfter(s, t) IN
  IF \E i \in 1..Len(s) : s[i].t = t /\ s[i].v # Missing THEN seen = Shown(s[CHOOSE i \in 1..Len(s) : s[i].t = t].v)
  ELSE CASE style \in {"steps-post", "steps-mid"} -> seen = Shown(p)
         [] style = "steps-pre" -> seen = Shown(n)
         [] OTHER -> IF p = Missing THEN seen = Missing
                     ELSE IF n = Missing \/ n = p THEN seen = Shown(p)
                     ELSE /\ seen.k = "i"
                          /\ IF p.i < n.i THEN p.i * 1000 < seen.i /\ seen.i < n.i * 1000
                             ELSE n.i * 1000 < seen.i /\ seen.i < p.i * 1000
\* rows: the table of a figure, of [t, vs]
TableFits(ss, style, rows) ==
  IF Len(ss) = 1                       \* a single series is shown point by point
  THEN rows = [i \in 1..Len(ss[1]) |-> [t |-> ss[1][i].t, vs |-> <<Shown(ss[1][i].v)>>]]
  ELSE LET ts == TLCEval(Ascending(Times(ss))) IN
       /\ Len(rows) = Len(ts)
       /\ \A i \in 1..Len(rows) : rows[i].t = ts[i] /\ Len(rows[i].vs) = Len(ss)
       /\ \A j \in 1..Len(ss) : \A i \in 1..Len(rows) : Fits1(ss[j], ts[i], style, rows[i].vs[j])
=============================================================================
