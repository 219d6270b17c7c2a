----------------------------- MODULE MC_Reader -----------------------------
(* Every file of up to Depth lines built from the line templates, for      *)
(* several selections: checks the reader's invariants and emits each       *)
(* behaviour for replay into the implementation.                           *)
EXTENDS Reader, TLC, Json, IOUtils
VARIABLES hist, which

Depth == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3

Templates == <<
  "version = 6",
  "  sh-1 [000]  5.000001: ev_a: a=1",
  "  my task-2-33 [001] d..2  5.000001: ev_b: b=x y",
  "  sh-1 (  12) [003]  4.900000: ev_a: a=0x10",
  "  sh-1 [000]  7.250000: tracing_mark_write: ev_b hello",
  "  sh-1 [000]  7.250000: tracing_mark_write: see ev_b: c=1",
  "  sh-1 [000]  8.000000: unknown_ev: a=1",
  "CPU:1 [LOST 4 EVENTS]" >>

E(n, kind, fb) == [name |-> n, word |-> n \o ":", kind |-> kind, fb |-> fb]
A == E("ev_a", "kv", FALSE)
B == E("ev_b", "kv", FALSE)
M == E("tracing_mark_write", "text", TRUE)
Sels == << <<A>>, <<A, B>>, <<M, B>>, <<B, M, A>> >>

ASSUME PrintT("@@" \o ToJson([templates |-> Templates, sels |-> Sels]))

Init == /\ which \in 1..Len(Sels) /\ RInit(Sels[which]) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(Templates) : ReadLine(Chars(Templates[i])) /\ hist' = Append(hist, i)
        /\ UNCHANGED which
Spec == Init /\ [][Next]_<<rvars, hist, which>>

Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([sel |-> which, hist |-> hist]))

\* declarative reading of the same file: lines with a header, counted from
\* the first one
HasHdr(i) == ParseHeader(RStrip(Chars(Templates[i]))).ok
FirstHdr == LET S == {k \in 1..Len(hist) : HasHdr(hist[k])} IN
            IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m
Declarative ==
  /\ pos = IF FirstHdr = 0 THEN 0 ELSE Len(hist) - FirstHdr + 1
  /\ {log[i].pos : i \in 1..Len(log)} = {k - FirstHdr : k \in {m \in 1..Len(hist) : HasHdr(hist[m])}}
\* time order of rows is file order; position -> time is injective
Recoverable == \A i, j \in 1..Len(log) : log[i].t = log[j].t => i = j
=============================================================================
