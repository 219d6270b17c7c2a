------------------------------- MODULE TV -------------------------------
(* Plumbing shared by all trace specifications: the recorded executions   *)
(* (one JSON record per line, IOEnv.TV_TRACE) and the verdict file        *)
(* (IOEnv.TV_OUT).  A trace specification is total: every recorded        *)
(* execution is consumed and each failing clause is named.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TV_TRACE)

WriteVerdict(n, bad) == JsonSerialize(IOEnv.TV_OUT, [n |-> n, bad |-> bad])

\* One clause of a verdict: nothing if it holds, its name otherwise
Clause(name, cond) == IF cond THEN <<>> ELSE <<name>>

\* Tag the clauses failing for a case
Tagged(id, clauses) == [i \in 1..Len(clauses) |-> [id |-> id, clause |-> clauses[i]]]
=========================================================================
