-------------------------- MODULE Trace_Triggers --------------------------
(* Recorded Trigger.generate() calls (C16) and Topology/aggregate()        *)
(* histories (C17) against Triggers.                                       *)
(* C16: [id, tables, tr, pvs, obs = [err, res (one series per pv)]]        *)
(* C17: [id, tables, trs, adds (name, groups), calls ([level, fn]), obs =  *)
(*       [err, levels (as read back), res (per call, per group: [t, v])]]  *)
EXTENDS Triggers, TV
VARIABLES cx, bad
Prop == IOEnv.TV_PROP

C16(c) ==
  LET o == c.obs due(j) == Generate(c.tables[c.tr.ev], c.tr, c.pvs[j]) IN
  IF o.err # "" THEN <<"no-error">> ELSE
     Clause("rows", \A j \in 1..Len(c.pvs) : [k \in 1..Len(o.res[j]) |-> o.res[j][k].t] = [k \in 1..Len(due(j)) |-> due(j)[k].t])
  \o Clause("values", \A j \in 1..Len(c.pvs) : Len(o.res[j]) = Len(due(j)) =>
        \A k \in 1..Len(due(j)) : o.res[j][k].v = due(j)[k].v)

RECURSIVE LevelsFrom(_, _)
LevelsFrom(adds, ls) == IF adds = <<>> THEN ls ELSE LevelsFrom(Tail(adds), AddTo(ls, Head(adds).name, Head(adds).groups))
FirstIs(gs, g) == CHOOSE i \in 1..Len(gs) : gs[i] = g /\ \A j \in 1..(i - 1) : gs[j] # g
C17(c) ==
  LET o == c.obs
      ls == LevelsFrom(c.adds, <<>>)
      ts == SortedTimes(c.tables, c.trs)
      base == [n \in NodesOf(ls) |-> Base(c.tables, c.trs, n)]
      scalar(fn) == fn = "sum"
      due(j) == LET gs == GroupsOf(ls, c.calls[j].level) IN
                [g \in 1..Len(gs) |-> AddSeqs([k \in 1..Len(gs[g]) |-> Agg(c.calls[j].fn, base[gs[g][k]])])]
  IN
  IF o.err # "" THEN <<"no-error">> ELSE
     Clause("levels", \A i \in 1..Len(ls) : LET n == ls[i].name IN
        /\ n \in DOMAIN o.topo
        /\ o.topo[n].groups = ls[i].groups /\ o.topo[n].span = Len(ls[i].groups) /\ o.topo[n].has
        /\ o.topo[n].nodes = ls[i].groups
        /\ o.topo[n].index = [g \in 1..Len(ls[i].groups) |-> FirstIs(ls[i].groups, ls[i].groups[g]) - 1])
  \o Clause("no-other-levels", DOMAIN o.topo = {ls[i].name : i \in 1..Len(ls)} /\ o.iter = Len(ls) /\ ~o.ghost)
  \o Clause("all-level", Len(o.all) = 1 /\ Len(o.all[1]) = Cardinality(NodesOf(ls)) /\
                         {o.all[1][i] : i \in 1..Len(o.all[1])} = NodesOf(ls))
  \o Clause("one-result-per-group", \A j \in 1..Len(c.calls) : Len(o.res[j]) = Len(GroupsOf(ls, c.calls[j].level)))
  \o Clause("times", \A j \in 1..Len(c.calls) : ~scalar(c.calls[j].fn) => \A g \in 1..Len(o.res[j]) :
        [k \in 1..Len(o.res[j][g]) |-> o.res[j][g][k].t] = ts)
  \o Clause("sums", \A j \in 1..Len(c.calls) : Len(o.res[j]) = Len(due(j)) => \A g \in 1..Len(due(j)) :
        [k \in 1..Len(o.res[j][g]) |-> o.res[j][g][k].v] = due(j)[g])

Verdict(c) == IF Prop = "C16" THEN C16(c) ELSE C17(c)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Verdict(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
