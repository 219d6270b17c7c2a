-------------------------- MODULE Trace_CacheRace --------------------------
(* Recorded openings of a trace by several processes at the same time (C37) *)
(* against CacheRace.  obs.fresh[v][k]: what opening it alone without any   *)
(* cache gives; obs.procs: [k, killed, seen (versions the trace had         *)
(* meanwhile), res]; obs.later: openings afterwards, of version obs.now.    *)
(* Behaviours of the model carry words: version -> lines as sets of words.  *)
EXTENDS TV
VARIABLES cx, bad
W == IF Len(Cases) > 0 /\ "words" \in DOMAIN Cases[1] THEN Cases[1].words ELSE <<>>
R == INSTANCE CacheRace WITH
       Content <- [v \in DOMAIN W |-> [i \in 1..Len(W[v]) |-> {W[v][i][j] : j \in 1..Len(W[v][i])}]],
       Procs <- {}, Care <- {}, file <- "", dir <- FALSE, meta <- <<>>, csv <- <<>>, pr <- <<>>
Range(s) == {s[i] : i \in 1..Len(s)}
Fields == <<"err", "base", "end", "meta", "names", "tables">>
Same(a, b) == \A i \in 1..Len(Fields) : a[Fields[i]] = b[Fields[i]]
\* the rows (of a version, numbered from 1) of a recorded table
Predicted(c, res, k, vs) ==
  "sel" \in DOMAIN c.params[k] => LET s == c.params[k].sel IN
    \A i \in 1..Len(s) : \E v \in vs : {<<v, res.lines[s[i]][j] + 1>> : j \in 1..Len(res.lines[s[i]])} = R!Rows(v, s, s[i])
Alone(c, p) == LET f == c.obs.fresh[p.seen[1]][p.k] IN
       Clause("opens", p.res.err = f.err)
    \o Clause("opened-alike", p.res.err # f.err \/ Same(p.res, f))
Meanwhile(c, p) ==
  LET fs == {c.obs.fresh[v][p.k] : v \in Range(p.seen)} IN
  IF \E f \in fs : f.err # "" THEN Clause("opens-or-not", p.res.err \in {f.err : f \in fs})
  ELSE IF p.res.err # "" THEN <<"opens">>
  ELSE Clause("events-selected", \A f \in fs : p.res.names = f.names)
    \* (the window is told by the time at which one version begins)
    \o Clause("a-version-it-had", \A i \in 1..Len(p.res.names) : LET n == p.res.names[i] IN
         \E f \in fs : Range(p.res.tables[n].rows) \subseteq Range(f.tables[n].rows))
    \o Clause("a-time-it-had", p.res.base \in {f.base : f \in fs} /\ p.res.end \in {f.end : f \in fs})
Judge(c) ==
  LET o == c.obs
      RECURSIVE Procs(_)
      Procs(i) == IF i > Len(o.procs) THEN <<>> ELSE
        LET p == o.procs[i] IN
        (IF p.killed THEN <<>> ELSE IF Len(p.seen) = 1 THEN Alone(c, p) ELSE Meanwhile(c, p))
        \o (IF p.killed \/ p.res.err # "" THEN <<>> ELSE Clause("predicted", Predicted(c, p.res, p.k, Range(p.seen)))) \o Procs(i + 1)
      RECURSIVE Later(_)
      Later(i) == IF i > Len(o.later) THEN <<>> ELSE
        LET p == o.later[i]  f == o.fresh[o.now][p.k] IN
        Clause("later-opens", p.res.err = f.err) \o Clause("later-alike", p.res.err # f.err \/ Same(p.res, f))
        \o (IF p.res.err # "" THEN <<>> ELSE Clause("later-predicted", Predicted(c, p.res, p.k, {o.now}))) \o Later(i + 1)
  IN Procs(1) \o Later(1) \o Clause("input-untouched", o.input) \o Clause("debris", o.debris = <<>>)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
