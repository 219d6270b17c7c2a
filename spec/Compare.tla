------------------------------ MODULE Compare ------------------------------
(* Plots of the thermal events of runs next to one another.                *)
(* A run: [name, temps: <<[t, zone, v]>>, gov: <<[t, zone, cur, delta,     *)
(*   req: <<W>>, granted: <<W>>]>>, pid: <<[t, output, p, i, d]>>,         *)
(*   weights: <<[cdev, w]>>, ev: power events].  A line: [name, pts =      *)
(*   <<time, value>>...], values in thousandths, none where not known.     *)
(* tz: the zone asked for, -1 for all of them.                             *)
EXTENDS PowerTables
Nothing == -1000000001
Title(name, what) == IF name = "" THEN what ELSE name \o " - " \o what
InZone(s, tz) == SelectSeq(s, LAMBDA e : tz = -1 \/ e.zone = tz)
Points(s, val(_)) == [i \in 1..Len(s) |-> <<s[i].t, val(s[i])>>]
\* milli degrees are thousandths of degrees
Temps(s) == Points(s, LAMBDA e : e.v)
Current(s) == Points(s, LAMBDA e : e.cur)
Control(s) == Points(s, LAMBDA e : e.cur + e.delta)
\* what the thermal framework tells and the governor's aim; the governor's
\* own readings where there are none
FrameworkLines(run, tz) ==
  LET th == InZone(run.temps, tz)  g == InZone(run.gov, tz) IN
  <<[name |-> Title(run.name, "Temperature"), pts |-> Temps(th)]>>
  \o (IF g # <<>> THEN <<[name |-> Title(run.name, "Control"), pts |-> Control(g)]>> ELSE <<>>)
GovernorLines(run, tz) ==
  LET g == InZone(run.gov, tz) IN
  <<[name |-> Title(run.name, "Temperature"), pts |-> Current(g)], [name |-> "control temperature", pts |-> Control(g)]>>
TempLines(run, tz) ==
  IF InZone(run.temps, tz) # <<>> THEN FrameworkLines(run, tz)
  ELSE IF InZone(run.gov, tz) # <<>> THEN GovernorLines(run, tz) ELSE <<>>
RECURSIVE LinesOf(_, _, _)
LinesOf(runs, tz, i) == IF i > Len(runs) THEN <<>> ELSE TempLines(runs[i], tz) \o LinesOf(runs, tz, i + 1)
\* powers of the actors, in the order they registered; arrays of fewer are
\* padded with zeros (see Payload)
Widest(run, f(_)) == IF run.gov = <<>> THEN 0 ELSE Highest({Len(f(run.gov[i])) : i \in 1..Len(run.gov)})
Actor(run, f(_), k) == Points(run.gov, LAMBDA e : IF k <= Len(f(e)) THEN f(e)[k] * 1000 ELSE 0)
Req(e) == e.req
Granted(e) == e.granted
PowerLines(run, f(_), actors) == [k \in 1..Widest(run, f) |-> [name |-> actors[k], pts |-> Actor(run, f, k)]]
\* the weights of the actors: those of the cooling devices, by number
WeightRank(run, w) == Cardinality({j \in 1..Len(run.weights) : run.weights[j].cdev <= w.cdev})
WeightAt(run, k) == LET i == CHOOSE j \in 1..Len(run.weights) : WeightRank(run, run.weights[j]) = k IN run.weights[i].w
Fewest(a, b) == IF a < b THEN a ELSE b
WeightedLines(run, actors) ==
  [k \in 1..Fewest(Widest(run, Req), Fewest(Len(actors), Len(run.weights))) |->
     [name |-> actors[k], pts |-> Points(run.gov, LAMBDA e : IF k <= Len(e.req) THEN (e.req[k] * WeightAt(run, k) * 1000) \div 1024 ELSE 0)]]
PidLines(run) == << [name |-> "output", pts |-> Points(run.pid, LAMBDA e : e.output * 1000)],
                    [name |-> "p", pts |-> Points(run.pid, LAMBDA e : e.p * 1000)],
                    [name |-> "i", pts |-> Points(run.pid, LAMBDA e : e.i * 1000)],
                    [name |-> "d", pts |-> Points(run.pid, LAMBDA e : e.d * 1000)] >>
\* runs in which the thermal framework told any temperature, in order
RECURSIVE WithTempsFrom(_, _)
WithTempsFrom(runs, i) == IF i > Len(runs) THEN <<>> ELSE (IF runs[i].temps # <<>> THEN <<i>> ELSE <<>>) \o WithTempsFrom(runs, i + 1)
WithTemps(runs) == WithTempsFrom(runs, 1)
\* thousandths of inches: a figure's width and height by rows
Size(w, h, rows) ==
  CASE w = 0 /\ h = 0 -> <<10000, 6000 * rows>>
    [] h = 0 -> <<1000 * w, 1000 * ((w * 1000000) \div 1618034) * rows>>
    [] w = 0 -> <<(h * 1618034) \div 1000, 1000 * h * rows>>
    [] OTHER -> <<1000 * w, 1000 * h * rows>>
\* limits widened by a tenth each way
Range10(lim) == <<lim[1] - (lim[2] - lim[1]) \div 10, lim[2] + (lim[2] - lim[1]) \div 10>>
=============================================================================
