---------------------------- MODULE PowerTables ----------------------------
(* Tables and plots of power events: a case has ev, a sequence of [k, t,   *)
(* mask, freq (kHz), load], k one of cin, cout (clusters), din, dout       *)
(* (devfreq), and map, a sequence of [mask, label].  A column is [name,    *)
(* pts = <<time, value or -1>>...].                                        *)
(* Values: kHz, thousandths of a load, millionths of a normalized one.     *)
EXTENDS Power, TLC
Range(s) == {s[i] : i \in 1..Len(s)}
Label(c, m) == LET i == CHOOSE i \in 1..Len(c.map) : c.map[i].mask = m IN c.map[i].label
Labels(c) == {c.map[i].label : i \in 1..Len(c.map)}
Sel(c, k) == SelectSeq(c.ev, LAMBDA e : e.k = k)
Unmapped(c, k) == \E i \in 1..Len(Sel(c, k)) : Sel(c, k)[i].mask \notin {c.map[j].mask : j \in 1..Len(c.map)}
MaxFreq(es, m) == Highest({es[i].freq : i \in {j \in 1..Len(es) : es[j].mask = m}})
Value(es, e, what) == CASE what = "freq" -> e.freq
  [] what = "load" -> e.load * 1000
  [] what = "norm" -> Normalized(e.load, e.freq, MaxFreq(es, e.mask), IF e.mask = "" THEN 1 ELSE CpusOf(e.mask))
Rows(c, k, what, who(_)) == LET es == Sel(c, k) IN [i \in 1..Len(es) |-> [t |-> es[i].t, who |-> who(es[i]), v |-> Value(es, es[i], what)]]
Rising(ts) == \A i \in 1..(Len(ts) - 1) : ts[i] < ts[i + 1]
Close(x, y) == IF x = None \/ y = None THEN x = y ELSE (x - y) \in -2..2
ColOk(rows, col) ==
  LET ts == [i \in 1..Len(col.pts) |-> col.pts[i][1]] IN
  /\ Rising(ts)
  /\ \A i \in Reports(rows, col.name) : rows[i].t \in Range(ts)
  /\ \A i \in 1..Len(ts) : ts[i] \in Times(rows) /\ Close(col.pts[i][2], At(rows, col.name, ts[i]))
\* cols hold exactly the rows; those that may come without any report are silent
ColsOk(rows, cols, may) ==
  /\ \A i, j \in 1..Len(cols) : i # j => cols[i].name # cols[j].name
  /\ {rows[i].who : i \in 1..Len(rows)} \subseteq {cols[i].name : i \in 1..Len(cols)}
  /\ \A i \in 1..Len(cols) : (cols[i].name \in may \/ Reports(rows, cols[i].name) # {}) /\ ColOk(rows, cols[i])
Titled(name, t) == IF name = "" THEN t ELSE name \o " - " \o t
\* both directions of one actor
Both(ri, ro, lin, lout) == [i \in 1..Len(ri) |-> [ri[i] EXCEPT !.who = lin]] \o [i \in 1..Len(ro) |-> [ro[i] EXCEPT !.who = lout]]
Of(rows, who) == SelectSeq(rows, LAMBDA r : r.who = who)
HistOk(rows, who, h) ==
  LET vs == {rows[i].v : i \in Reports(rows, who)} IN
  /\ \A v \in vs : \E b \in Range(h.bars) : b[1] - 2 <= v /\ v <= b[2] + 2
  /\ \A b \in Range(h.bars) : \E v \in vs : b[1] - 2 <= v /\ v <= b[2] + 2
  /\ h.upto - Highest(vs) \in -2..2
=============================================================================
