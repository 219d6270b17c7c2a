--------------------------- MODULE Trace_Residency ---------------------------
(* Task residency and event plots (C25) against Residency.                 *)
(* Case of switches: [id, kind = "switches", sw, names, pids, cpus (lanes  *)
(*   of the page), obs = [err, tasks (sequence of [name, ivs]), procs,     *)
(*   domain, warned, page]]; page as of a plot.                            *)
(* Case of a plot: [id, kind = "plot", data (sequence of [name, evs]),     *)
(*   lanes, prefix, num, domain, summary, stride, map (sequence of [name,  *)
(*   color]), obs = [err, page]]                                           *)
(*   page: [lanes (sequence of [id, label]), domain, keys, summary,        *)
(*   stride, map, given, data (sequence of [name, lanes (sequence of       *)
(*   [lane, evs])]), resources]                                            *)
EXTENDS Residency, TV
VARIABLES cx, bad
Of(tasks, name) == IF \E i \in 1..Len(tasks) : tasks[i].name = name
                   THEN tasks[CHOOSE i \in 1..Len(tasks) : tasks[i].name = name] ELSE [name |-> name, ivs |-> <<>>, lanes |-> <<>>]
Present(tasks) == {tasks[i].name : i \in 1..Len(tasks)}
OnLane(task, lane) == IF \E i \in 1..Len(task.lanes) : task.lanes[i].lane = lane
                      THEN task.lanes[CHOOSE i \in 1..Len(task.lanes) : task.lanes[i].lane = lane].evs ELSE <<>>
Lanes(task) == {task.lanes[i].lane : i \in 1..Len(task.lanes)}
\* want: a sequence of [name, evs], by number of lane
PageData(want, page) ==
  /\ \A i \in 1..Len(want) : LET t == Of(page.data, want[i].name) IN
        \A l \in Lanes(t) \cup {want[i].evs[k][3] : k \in 1..Len(want[i].evs)} : OnLane(t, l) = LaneEvents(want[i].evs, l)
  /\ \A n \in Present(page.data) \ {want[i].name : i \in 1..Len(want)} : \A l \in Lanes(Of(page.data, n)) : OnLane(Of(page.data, n), l) = <<>>
KeysFit(want, keys) ==
  LET pos == {want[i].name : i \in {j \in 1..Len(want) : Total(want[j].evs) > 0}}
      evs(n) == want[CHOOSE i \in 1..Len(want) : want[i].name = n].evs
  IN /\ Len(keys) = Cardinality(pos) /\ {keys[i] : i \in 1..Len(keys)} = pos
     /\ \A i, j \in 1..Len(keys) : i < j => ~Longer(evs(keys[j]), evs(keys[i]))
JudgeSwitches(c) ==
  LET o == c.obs
      names == TLCEval(Names(c.sw, c.names, c.pids))
      ivs(n) == IntervalsOf(c.sw, c.names, c.pids, n)
      seen == TLCEval(Seen(c.sw, c.names, c.pids))
      order == TLCEval(LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<[name |-> x, evs |-> ivs(x)]>> \o L(S \ {x}) IN L(names))
      n == Len(c.sw)
      span == <<c.sw[1].t, c.sw[n].t>>
  IN
  IF o.err # "" THEN <<"no-error">>
  ELSE Clause("intervals", /\ \A x \in names : Of(o.tasks, x).ivs = ivs(x)
                           /\ \A x \in Present(o.tasks) \ names : Of(o.tasks, x).ivs = <<>>)
    \o Clause("tasks", /\ seen \subseteq {o.procs[i] : i \in 1..Len(o.procs)} /\ {o.procs[i] : i \in 1..Len(o.procs)} \subseteq names)
    \o Clause("domain", o.domain = span)
    \o Clause("lost-tasks-reported", (o.warned = 0) = (Losses(c.sw, c.names, c.pids) = 0))
    \o Clause("page-data", PageData(order, o.page) /\ KeysFit(order, o.page.keys))
    \o Clause("page-lanes", o.page.lanes = [i \in 1..c.cpus |-> [id |-> i - 1, label |-> "CPU :" \o ToString(i - 1)]])
    \o Clause("page-domain", o.page.domain = span)
    \o Clause("page-served", o.page.resources)
JudgePlot(c) ==
  LET o == c.obs
      p == o.page
      named == c.lanes # <<>>
      lane(x) == IF \E i \in 1..Len(c.lanes) : c.lanes[i] = x THEN (CHOOSE i \in 1..Len(c.lanes) : c.lanes[i] = x) - 1 ELSE -1
      used == UNION {{c.data[i].evs[k][3] : k \in 1..Len(c.data[i].evs)} : i \in 1..Len(c.data)}
      want == IF ~named THEN c.data
              ELSE [i \in 1..Len(c.data) |-> [name |-> c.data[i].name, evs |-> [k \in 1..Len(c.data[i].evs) |->
                      <<c.data[i].evs[k][1], c.data[i].evs[k][2], lane(c.data[i].evs[k][3])>>]]]
  IN
  IF (named /\ \E l \in used : lane(l) < 0) \/ (~named /\ c.num = 0) THEN Clause("lanes-rejected", o.err = "RuntimeError")
  ELSE IF o.err # "" THEN <<"no-error">>
  ELSE Clause("page-data", PageData(want, p) /\ KeysFit(want, p.keys))
    \o Clause("page-lanes", p.lanes = IF named THEN [i \in 1..Len(c.lanes) |-> [id |-> i - 1, label |-> ToString(c.lanes[i])]]
                                      ELSE [i \in 1..c.num |-> [id |-> i - 1, label |-> c.prefix \o ToString(i - 1)]])
    \o Clause("page-options", p.domain = c.domain /\ p.summary = c.summary /\ p.stride = c.stride
                              /\ p.given = (c.map # <<>>) /\ {p.map[i] : i \in 1..Len(p.map)} = {c.map[i] : i \in 1..Len(c.map)})
    \o Clause("data-left-alone", p.intact)
Judge(c) == IF c.kind = "plot" THEN JudgePlot(c) ELSE JudgeSwitches(c)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
