----------------------------- MODULE CacheRace -----------------------------
(* Several processes opening one trace at the same time, all with caching,  *)
(* while the trace file may be replaced: the steps of Cache's openings one  *)
(* by one.  A file that is written is torn until its writer closes it; two  *)
(* processes may have the same file open for writing, or write to a file    *)
(* that is not there any more.                                              *)
(*                                                                          *)
(* An opening: sum (of the trace), load the metadata, load tables, parse,   *)
(* check the sum again, then write tables and vouch for them in the         *)
(* metadata.  How careful it is:                                            *)
(*   "own"   a table is vouched for by the sum of what was written, not of  *)
(*           what is in the file by then                                    *)
(*   "kept"  the tables vouched for before are those of the metadata that   *)
(*           was loaded, not of what is in the file by then                 *)
(*   "first" the metadata name the sum of the trace taken before loading,   *)
(*           and there are none if the trace has changed by the end, not    *)
(*           the sum at the end                                             *)
(*   "once"  a table is read once, and what was read compared with its sum  *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Content,     \* version -> sequence of sets of events
          Procs, Care

Elems(s) == {s[i] : i \in 1..Len(s)}
Owner(line, s) == LET f == SelectSeq(s, LAMBDA e : e \in line) IN IF f = <<>> THEN "-" ELSE f[1]
Rows(v, s, e) == {<<v, i>> : i \in {j \in 1..Len(Content[v]) : Owner(Content[v][j], s) = e}}
Contended(v, s, e) == \E i \in 1..Len(Content[v]) : e \in Content[v][i] /\ Cardinality(Content[v][i] \cap Elems(s)) > 1
Events == UNION {UNION {Content[v][i] : i \in 1..Len(Content[v])} : v \in DOMAIN Content}

\* files of the cache: [k: "none" | "torn" | "whole", by: who has it open for writing, is: content]
Absent == [k |-> "none", by |-> {}, is |-> {}]
NoMeta == [v |-> "", tabs |-> <<>>]
AbsentMeta == [k |-> "none", by |-> {}, is |-> NoMeta]
Put(f, e, x) == [d \in DOMAIN f \cup {e} |-> IF d = e THEN x ELSE f[d]]

VARIABLES file, dir, meta, csv, pr
rvars == <<file, dir, meta, csv, pr>>
Idle == [pc |-> "idle", sel |-> <<>>, sum |-> "", rec |-> NoMeta, got |-> <<>>, rows |-> <<>>, cont |-> {}, tabs |-> <<>>, todo |-> <<>>, seen |-> {}, err |-> FALSE]
RInit(v) == file = v /\ dir = FALSE /\ meta = AbsentMeta /\ csv = [e \in Events |-> Absent] /\ pr = [p \in Procs |-> Idle]

Missing(r) == SelectSeq(r.sel, LAMBDA e : e \notin DOMAIN r.got)
Set(p, r) == pr' = [pr EXCEPT ![p] = r]
Keep == UNCHANGED <<file, dir, meta, csv>>

\* ------------------------------------------------------------------ reading
Start(p, s) == /\ pr[p].pc = "idle"
               /\ Set(p, [Idle EXCEPT !.pc = "meta", !.sel = s, !.sum = file, !.seen = {file}]) /\ Keep
\* what is not valid is removed
Load(p) == LET r == pr[p] IN
  /\ r.pc = "meta" /\ Keep
  /\ LET sum == IF "first" \in Care THEN r.sum ELSE file IN
     Set(p, IF ~dir THEN [r EXCEPT !.pc = "parse"]
            ELSE IF meta.k = "whole" /\ meta.is.v = sum THEN [r EXCEPT !.pc = "table", !.rec = meta.is, !.todo = r.sel]
            ELSE [r EXCEPT !.pc = "drop"])
Usable(r, e) == /\ e \in DOMAIN r.rec.tabs
                /\ IF r.rec.tabs[e].cont THEN r.rec.tabs[e].words = r.sel ELSE Elems(r.sel) \subseteq Elems(r.rec.tabs[e].words)
NextTable(r) == IF Len(r.todo) > 1 THEN [r EXCEPT !.todo = Tail(r.todo), !.pc = "table"]
                ELSE IF Missing(r) = <<>> THEN [r EXCEPT !.todo = <<>>, !.pc = "done", !.rows = r.got]
                ELSE [r EXCEPT !.todo = <<>>, !.pc = "parse"]
\* a table is compared with its sum ...
Table(p) == LET r == pr[p]  e == r.todo[1] IN
  /\ r.pc = "table" /\ Keep
  /\ Set(p, IF Usable(r, e) /\ csv[e].k = "whole" /\ csv[e].is = r.rec.tabs[e].sum
            THEN (IF "once" \in Care THEN NextTable([r EXCEPT !.got = Put(r.got, e, csv[e].is)]) ELSE [r EXCEPT !.pc = "reread"])
            ELSE NextTable(r))
\* ... and read again by the careless (what is torn reads as no rows)
Reread(p) == LET r == pr[p]  e == r.todo[1] IN
  /\ r.pc = "reread" /\ Keep
  /\ Set(p, NextTable(IF csv[e].k = "none" THEN r ELSE [r EXCEPT !.got = Put(r.got, e, csv[e].is)]))
Parse(p) == LET r == pr[p] IN
  /\ r.pc = "parse" /\ Keep
  /\ Set(p, [r EXCEPT !.pc = "check", !.rows = [e \in Elems(r.sel) |-> IF e \in DOMAIN r.got THEN r.got[e] ELSE Rows(file, r.sel, e)],
                      !.cont = {e \in Elems(r.sel) : Contended(file, r.sel, e)}])
Write(r) == [r EXCEPT !.pc = "write", !.todo = Missing(r)]
Check(p) == LET r == pr[p] IN
  /\ r.pc = "check" /\ Keep
  /\ Set(p, IF "first" \in Care /\ file # r.sum THEN [r EXCEPT !.pc = "done"]
            ELSE LET q == [r EXCEPT !.tabs = r.rec.tabs] IN
                 IF DOMAIN r.got = {} THEN [q EXCEPT !.pc = IF dir THEN "clear" ELSE "mkdir", !.tabs = <<>>]
                 ELSE IF "kept" \in Care THEN Write(q)
                 \* whatever the metadata are by now
                 ELSE IF meta.k = "whole" THEN Write([q EXCEPT !.tabs = meta.is.tabs])
                 ELSE [q EXCEPT !.pc = "done", !.err = (meta.k = "torn")])

\* ----------------------------------------------------------------- removing
There == {e \in Events : csv[e].k # "none"}
After(r) == IF r.pc = "drop" THEN [r EXCEPT !.pc = "parse"] ELSE [r EXCEPT !.pc = "mkdir"]
Remove(p) == LET r == pr[p] IN
  /\ r.pc \in {"drop", "clear"} /\ UNCHANGED file
  /\ \/ meta.k # "none" /\ meta' = AbsentMeta /\ UNCHANGED <<dir, csv, pr>>
     \/ \E e \in There : csv' = [csv EXCEPT ![e] = Absent] /\ UNCHANGED <<dir, meta, pr>>
     \* the directory goes when it is empty
     \/ meta.k = "none" /\ There = {} /\ dir' = FALSE /\ Set(p, After(r)) /\ UNCHANGED <<meta, csv>>
     \* something came into it meanwhile: the removal fails, and the cache is not written
     \/ dir /\ (meta.k # "none" \/ There # {}) /\ Set(p, IF r.pc = "drop" THEN After(r) ELSE [r EXCEPT !.pc = "done"])
        /\ UNCHANGED <<dir, meta, csv>>

\* ------------------------------------------------------------------ writing
Mkdir(p) == LET r == pr[p] IN
  /\ r.pc = "mkdir" /\ UNCHANGED <<file, meta, csv>>
  /\ dir' = TRUE
  /\ Set(p, IF dir THEN [r EXCEPT !.pc = "done"] ELSE Write(r))   \* it may be there again
OpenTable(p) == LET r == pr[p] IN
  /\ r.pc = "write" /\ UNCHANGED <<file, dir, meta>>
  /\ IF r.todo = <<>> THEN Set(p, [r EXCEPT !.pc = "vouch"]) /\ UNCHANGED csv
     ELSE IF ~dir THEN Set(p, [r EXCEPT !.pc = "done"]) /\ UNCHANGED csv
     ELSE /\ csv' = [csv EXCEPT ![r.todo[1]] = [k |-> "torn", by |-> @.by \cup {p}, is |-> {}]]
          /\ Set(p, [r EXCEPT !.pc = "close"])
\* closing puts what was written in the file, if that is still the one in
\* the directory; if another one wrote to it too, in whatever order, the
\* longer one's end may remain
Closed(f, p, x) == IF p \notin f.by THEN {f}
  ELSE {[k |-> "whole", by |-> f.by \ {p}, is |-> x]} \cup (IF f.k = "whole" THEN {[k |-> "torn", by |-> f.by \ {p}, is |-> f.is]} ELSE {})
CloseTable(p) == LET r == pr[p]  e == r.todo[1] IN
  /\ r.pc = "close" /\ UNCHANGED <<file, dir, meta>>
  /\ \E x \in Closed(csv[e], p, r.rows[e]) : csv' = [csv EXCEPT ![e] = x]
  /\ Set(p, IF "own" \in Care
            THEN [r EXCEPT !.pc = "write", !.todo = Tail(r.todo), !.tabs = Put(r.tabs, e, [sum |-> r.rows[e], words |-> r.sel, cont |-> e \in r.cont])]
            ELSE [r EXCEPT !.pc = "describe"])
Describe(p) == LET r == pr[p]  e == r.todo[1] IN
  /\ r.pc = "describe" /\ Keep
  /\ Set(p, IF csv[e].k = "none" THEN [r EXCEPT !.pc = "done"]
            ELSE [r EXCEPT !.pc = "write", !.todo = Tail(r.todo), !.tabs = Put(r.tabs, e, [sum |-> csv[e].is, words |-> r.sel, cont |-> e \in r.cont])])
OpenMeta(p) == LET r == pr[p] IN
  /\ r.pc = "vouch" /\ UNCHANGED <<file, dir, csv>>
  /\ IF ~dir THEN Set(p, [r EXCEPT !.pc = "done"]) /\ UNCHANGED meta
     ELSE meta' = [k |-> "torn", by |-> meta.by \cup {p}, is |-> NoMeta]
          /\ Set(p, [r EXCEPT !.pc = "vouched", !.sum = IF "first" \in Care THEN @ ELSE file])
CloseMeta(p) == LET r == pr[p] IN
  /\ r.pc = "vouched" /\ UNCHANGED <<file, dir, csv>>
  /\ \E x \in Closed(meta, p, [v |-> r.sum, tabs |-> r.tabs]) : meta' = x
  /\ Set(p, [r EXCEPT !.pc = "done"])

Step(p) == \/ Load(p) \/ Table(p) \/ Reread(p) \/ Parse(p) \/ Check(p) \/ Remove(p) \/ Mkdir(p)
           \/ OpenTable(p) \/ CloseTable(p) \/ Describe(p) \/ OpenMeta(p) \/ CloseMeta(p)
\* the trace is replaced, not back to an earlier version under one opening;
\* who is reading it may see either
Running(p) == pr[p].pc \notin {"idle", "done", "killed"}
Replace(v) == /\ v # file /\ (\A p \in Procs : Running(p) => v \notin pr[p].seen)
              /\ file' = v /\ UNCHANGED <<dir, meta, csv>>
              /\ pr' = [p \in Procs |-> IF ~Running(p) THEN pr[p] ELSE [pr[p] EXCEPT !.seen = @ \cup {v}]]
Kill(p) == /\ Running(p) /\ Set(p, [Idle EXCEPT !.pc = "killed"])
           /\ csv' = [e \in Events |-> [csv[e] EXCEPT !.by = @ \ {p}]] /\ meta' = [meta EXCEPT !.by = @ \ {p}] /\ UNCHANGED <<file, dir>>

\* --------------------------------------------------------------- invariants
\* an opening never fails ...
Sound == \A p \in Procs : ~pr[p].err
\* ... and gives each table as it is in a version the trace had meanwhile
Right == \A p \in Procs : pr[p].pc = "done" =>
           \A e \in Elems(pr[p].sel) : \E v \in pr[p].seen : pr[p].rows[e] = Rows(v, pr[p].sel, e)
\* what the metadata vouch for is the truth about the version they name
Honest == meta.k = "whole" => \A e \in DOMAIN meta.is.tabs : meta.is.tabs[e].sum = Rows(meta.is.v, meta.is.tabs[e].words, e)
\* what an opening that nobody disturbs would give by now
Opened(s, e) ==
  IF dir /\ meta.k = "whole" /\ meta.is.v = file /\ Usable([rec |-> meta.is, sel |-> s], e) /\ csv[e].k = "whole" /\ csv[e].is = meta.is.tabs[e].sum
  THEN csv[e].is ELSE Rows(file, s, e)
Transparent(Sels) == \A s \in Sels : \A e \in Elems(s) : Opened(s, e) = Rows(file, s, e)
===========================================================================
