-------------------------- MODULE Trace_BareTrace --------------------------
(* Case: [id, parsed, ops, obs]; parsed: the events of the file the trace   *)
(* was opened from (none for a bare trace), as [name, times, pivot].        *)
EXTENDS BareTrace, TV
VARIABLES cx, kx, bad
tvars == <<cx, kx, bad>>
Case == Cases[cx]
Start == IF Len(Cases) > 0 THEN Cases[1].parsed ELSE <<>>
Init == cx = 1 /\ kx = 1 /\ bad = <<>> /\ events = Start

\* what must be seen of the trace object after every operation
Seen(o) ==
     Clause("names", {o.has[i] : i \in 1..Len(o.has)} = NamesOf(events)')
  \o Clause("tables", \A i \in 1..Len(events') : events'[i].name \in DOMAIN o.times =>
                         o.times[events'[i].name] = events'[i].times)
  \o Clause("pivot", \A i \in 1..Len(events') : events'[i].name \in DOMAIN o.pivots =>
                         o.pivots[events'[i].name] = events'[i].pivot)
  \o Clause("very-table", \A i \in 1..Len(o.same) : o.same[i])
Verdict(op, o) ==
  CASE op.op = "add" -> Clause("refuses-present", (o.err = "ValueError") <=> ~CanAdd(op.name))
                     \o Clause("adds", CanAdd(op.name) => o.err = "") \o Seen(o)
    [] op.op = "duration" -> Clause("duration", o.err = "" /\ o.res = Duration) \o Seen(o)
    [] op.op = "filters" -> Clause("filters", o.err = "" /\ o.res = Filters(op.key)) \o Seen(o)

Step == /\ cx <= Len(Cases) /\ kx <= Len(Case.ops)
        /\ LET op == Case.ops[kx] o == Case.obs[kx] IN
           /\ IF op.op = "add" THEN Add(op.name, op.times, op.pivot) ELSE UNCHANGED events
           /\ bad' = bad \o Tagged(Case.id, Verdict(op, o))
        /\ kx' = kx + 1 /\ UNCHANGED cx
Finish == /\ cx <= Len(Cases) /\ kx > Len(Case.ops)
          /\ cx' = cx + 1 /\ kx' = 1 /\ UNCHANGED bad
          /\ IF cx < Len(Cases) THEN events' = Cases[cx + 1].parsed ELSE WriteVerdict(cx, bad) /\ UNCHANGED events
Spec == Init /\ [][Step \/ Finish]_<<events, tvars>>
=============================================================================
