----------------------------- MODULE Residency -----------------------------
(* Which task was on which CPU when, from the switches of a trace, and the *)
(* page of an event plot.                                                  *)
(* A switch is [t, cpu, prev, next, comm]: pids (0: idle) and the name of  *)
(* the task coming in; switches are in time order.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MigrationName(comm) == Len(comm) >= 9 /\ SubSeq(comm, 1, 9) = "migration"
Listed(x, l) == l = <<>> \/ \E i \in 1..Len(l) : l[i] = x
Wanted(s, names, pids) == s.next # 0 /\ ~MigrationName(s.comm) /\ Listed(s.comm, names) /\ Listed(s.next, pids)
NameOf(s) == s.comm \o "-" \o ToString(s.next)
\* the switches after i that take the task out of i, or bring it in again
Involve(sw, i) == {j \in (i + 1)..Len(sw) : sw[j].prev = sw[i].next \/ sw[j].next = sw[i].next}
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
\* a task that comes in while it is said to be running was lost sight of:
\* when it left is not known
Lost(sw, i) == Involve(sw, i) # {} /\ sw[Least(Involve(sw, i))].prev # sw[i].next
EndOf(sw, i) == IF Involve(sw, i) = {} THEN sw[Len(sw)].t ELSE sw[Least(Involve(sw, i))].t
Stays(sw, names, pids) == {i \in 1..Len(sw) : Wanted(sw[i], names, pids) /\ ~Lost(sw, i)}
RECURSIVE InOrder(_)
InOrder(X) == IF X = {} THEN <<>> ELSE <<Least(X)>> \o InOrder(X \ {Least(X)})
Interval(sw, i) == <<sw[i].t, EndOf(sw, i), sw[i].cpu>>
IntervalsOf(sw, names, pids, name) ==
  LET is == InOrder({i \in Stays(sw, names, pids) : NameOf(sw[i]) = name}) IN [k \in 1..Len(is) |-> Interval(sw, is[k])]
\* the tasks that came in at all, and those with a stay
Names(sw, names, pids) == {NameOf(sw[i]) : i \in {j \in 1..Len(sw) : Wanted(sw[j], names, pids)}}
Seen(sw, names, pids) == {NameOf(sw[i]) : i \in Stays(sw, names, pids)}
\* the tasks that were on screen when they were lost sight of
Losses(sw, names, pids) == Cardinality({i \in 1..Len(sw) : Wanted(sw[i], names, pids) /\ Lost(sw, i)})

\* ------------------------------------------------------------- event plot
\* data: a sequence of [name, evs], evs a sequence of <<start, end, lane>>
RECURSIVE Total(_)
Total(evs) == IF evs = <<>> THEN 0 ELSE evs[1][2] - evs[1][1] + Total(Tail(evs))
\* names of events that take time, longest average first: total of a over
\* (count + 1), compared crosswise
Longer(a, b) == Total(a) * (Len(b) + 1) > Total(b) * (Len(a) + 1)
LaneEvents(evs, lane) == LET s == SelectSeq(evs, LAMBDA e : e[3] = lane) IN [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
=============================================================================
