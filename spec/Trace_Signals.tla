---------------------------- MODULE Trace_Signals ----------------------------
(* Plots of signals and colour maps (C26) against Signals.                 *)
(* Case of signals: [id, kind = "signals", sigs, have (sequence of         *)
(*   [ev, cols]), traces (their names), also (column or events given too), *)
(*   obs = [err, labels (in order), colors (of the labels), given]]        *)
(* Case of a map: [id, kind = "map", n, rgb (colours, none: the default),  *)
(*   obs = [err, cols, seats (how far along the default gradient), inv]]   *)
EXTENDS Signals, TV
VARIABLES cx, bad
Has(c, ev) == \E i \in 1..Len(c.have) : c.have[i].ev = ev
HasCol(c, ev, col) == \E i \in 1..Len(c.have) : c.have[i].ev = ev /\ \E j \in 1..Len(c.have[i].cols) : c.have[i].cols[j] = col
JudgeSignals(c) ==
  LET o == c.obs
      ps == TLCEval([i \in 1..Len(c.sigs) |-> Parsed(Chars(c.sigs[i]))])
      wrong == \E i \in 1..Len(ps) : ~ps[i].ok \/ ~Has(c, ps[i].event)
      nt == Len(c.traces)
      ex == TLCEval(Expand(nt, Len(ps), Len(ps), TRUE))
      drawn == SelectSeq([k \in 1..Len(ex) |-> k], LAMBDA k : HasCol(c, ps[ex[k].col].event, ps[ex[k].col].column))
      label(k) == DataName(c.traces[ex[k].tr], FALSE, ex[k].ix) \o ":" \o ps[ex[k].col].event \o ":" \o ps[ex[k].col].column
      odd == \E i \in 1..Len(ps) : ps[i].color # <<>> /\ ~IsRgb(ps[i].color)
      colored == \E i \in 1..Len(ps) : ps[i].color # <<>>
      rgb(x) == Len(x) = 3 /\ \A i \in 1..3 : x[i] \in 0..255
  IN
  IF c.also THEN Clause("either-signals-or-columns", o.err = "ValueError")
  ELSE IF wrong THEN Clause("no-such-signal-rejected", o.err = "ValueError")
  ELSE IF ex = Rejected THEN Clause("mismatch-rejected", o.err \in {"RuntimeError", "ValueError"})
  ELSE IF odd THEN <<>>       \* not a colour: what happens then is open
  ELSE IF drawn = <<>> THEN Clause("nothing-to-plot-rejected", o.err = "RuntimeError")
  ELSE IF o.err # "" THEN <<"no-error">>
  ELSE Clause("signals-plotted", o.labels = [i \in 1..Len(drawn) |-> label(drawn[i])])
    \o Clause("colours", IF ~colored THEN ~o.given
         ELSE /\ Len(o.colors) = Len(drawn)
              /\ \A i \in 1..Len(drawn) : LET q == drawn[i] IN
                   \* one colour for each signal, in order
                   q <= Len(ps) => IF ps[q].color = <<>> THEN rgb(o.colors[i]) ELSE o.colors[i] = ps[q].color)
JudgeMap(c) ==
  LET o == c.obs IN
  IF o.err # "" THEN <<"no-error">>
  ELSE IF Len(o.cols) # c.n THEN <<"as-many-as-asked-for">>
  ELSE Clause("backwards", o.inv = [i \in 1..c.n |-> o.cols[c.n - i + 1]])
    \o (IF c.rgb # <<>> THEN Clause("the-colours-given", o.cols = c.rgb)
  ELSE Clause("distinct", c.n <= 200 => \A i, j \in 1..c.n : i # j => o.cols[i] # o.cols[j])
    \o Clause("spread-evenly", \A i \in 1..c.n : o.seats[i] - (256 * (i - 1)) \div c.n \in -1..1))
Judge(c) == IF c.kind = "map" THEN JudgeMap(c) ELSE JudgeSignals(c)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
