---------------------------- MODULE Trace_Cache ----------------------------
(* Recorded histories of openings, edits, crashes and damage against the    *)
(* transparency of the cache.  Case: [id, versions, params, ops, obs];      *)
(* obs.fresh[v][p]: the trace object without any cache; obs.steps[i]: what  *)
(* the i-th operation gave (an opening) and left behind (debris, input).    *)
(* Model behaviours also carry words: version -> lines as sets of words,    *)
(* and params[p].sel, from which Cache predicts the tables themselves.      *)
EXTENDS TV
VARIABLES cx, kx, file, bad
tvars == <<cx, kx, file, bad>>
Case == Cases[cx]
Prop == IOEnv.TV_PROP

\* all histories of the model share their versions
W == IF Len(Cases) > 0 /\ "words" \in DOMAIN Cases[1] THEN Cases[1].words ELSE <<>>
C == INSTANCE Cache WITH
       Content <- [v \in DOMAIN W |-> [i \in 1..Len(W[v]) |-> {W[v][i][j] : j \in 1..Len(W[v][i])}]],
       Fallback <- {"tracing_mark_write"},
       cache <- [dir |-> FALSE, meta |-> [k |-> "none"], csv |-> <<>>], last <- <<>>

Fields == <<"err", "base", "end", "meta", "names", "tables">>
Same(a, b) == \A i \in 1..Len(Fields) : a[Fields[i]] = b[Fields[i]]

\* rows (line numbers from 1) of event e in a recorded table
RowsOf(t, e) == IF e \in DOMAIN t.lines THEN {t.lines[e][i] + 1 : i \in 1..Len(t.lines[e])} ELSE {}
Predicted(o, s) == \A i \in 1..Len(s) : RowsOf(o, s[i]) = C!Rows(file, s, s[i])

OpVerdict(op, o) ==
  IF op.op # "open" THEN Clause("input-untouched", o.input)
  ELSE LET f == Case.obs.fresh[file][op.p] IN
       Clause("outcome", o.err = f.err)
    \o Clause("basetime", o.base = f.base)
    \o Clause("endtime", o.end = f.end)
    \o Clause("metadata", o.meta = f.meta)
    \o Clause("events", o.names = f.names)
    \o Clause("columns", o.err = "" /\ f.err = "" /\ o.names = f.names =>
                 \A i \in 1..Len(f.names) : o.tables[f.names[i]].cols = f.tables[f.names[i]].cols)
    \o Clause("rows", o.err = "" /\ f.err = "" /\ o.names = f.names =>
                 \A i \in 1..Len(f.names) : o.tables[f.names[i]].rows = f.tables[f.names[i]].rows)
    \o Clause("predicted", "sel" \in DOMAIN Case.params[op.p] => o.err = "" /\ Predicted(o, Case.params[op.p].sel))
    \o Clause("input-untouched", o.input)
    \o Clause("debris", o.debris = <<>>)

Init == cx = 1 /\ kx = 1 /\ bad = <<>> /\ file = IF Len(Cases) > 0 THEN Cases[1].start ELSE ""

Step == /\ cx <= Len(Cases) /\ kx <= Len(Case.ops)
        /\ LET op == Case.ops[kx] IN
             /\ file' = IF op.op = "edit" THEN op.v ELSE file
             /\ bad' = bad \o Tagged(Case.id, OpVerdict(op, Case.obs.steps[kx]))
        /\ kx' = kx + 1 /\ UNCHANGED cx

Finish == /\ cx <= Len(Cases) /\ kx > Len(Case.ops)
          /\ cx' = cx + 1 /\ kx' = 1 /\ UNCHANGED bad
          /\ IF cx < Len(Cases) THEN file' = Cases[cx + 1].start
             ELSE WriteVerdict(cx, bad) /\ UNCHANGED file
Spec == Init /\ [][Step \/ Finish]_tvars
============================================================================
