------------------------------- MODULE Bulk -------------------------------
(* Traces too long to be written out: every line is given by its number.   *)
(* A trace tr is [n lines, k, j, d, step, ncpu]; times count in            *)
(* microseconds since the first line.                                      *)
EXTENDS Integers, Sequences, TLC

\* what a line holds: another event, the rare event b, or event a
Kind(tr, i) == IF i % tr.j = tr.j - 1 THEN "other"
               ELSE IF i % tr.k = tr.k - 1 THEN "b" ELSE "a"
At(tr, i) == (i \div tr.d) * tr.step
Inside(tr, i) == tr.win = <<>> \/ (At(tr, i) >= tr.win[1] /\ At(tr, i) <= tr.win[2])
\* the lines of an event, in order
LinesOf(tr, e) == SelectSeq([i \in 1..tr.n |-> i - 1], LAMBDA i : Kind(tr, i) = e)
\* rows of an event: [line, comm, pid, cpu, v, w, rare, array]
Width(tr, mine) == IF tr.arr /\ mine # <<>> THEN 5 ELSE 0
Cell(tr, mine, i, x) ==
  LET own == IF i = mine[Len(mine)] THEN 5 ELSE 1 + (i % 3) IN
  IF x <= own THEN i + x ELSE 0
RowDue(tr, mine, i) ==
  <<i, i % 3, 100 + (i % 7), i % tr.ncpu, i, i % 5,
    IF i % 1000 = tr.k \/ i % 1000 = 0 THEN i ELSE 0 - 1>>
  \o [x \in 1..Width(tr, mine) |-> Cell(tr, mine, i, x)]

----------------------------------------------------------------------------
(* The table of an event is made from a stream of its lines by a           *)
(* generator, which looks at the memory left every Batch rows and may warn *)
(* once, but hands over every row.                                         *)
CONSTANTS Total, Batch
VARIABLES taken, given, left, warned, watching
vars == <<taken, given, left, warned, watching>>
GInit == taken = 0 /\ given = <<>> /\ left = 1 /\ warned = 0 /\ watching = TRUE
Step == /\ taken < Total
        /\ taken' = taken + 1
        /\ given' = Append(given, taken)
        /\ IF watching /\ left = 1
           THEN /\ left' = Batch
                /\ \/ warned' = warned + 1 /\ watching' = FALSE
                   \/ UNCHANGED <<warned, watching>>
           ELSE /\ left' = IF watching THEN left - 1 ELSE left
                /\ UNCHANGED <<warned, watching>>
GNext == Step
AllGiven == given = [i \in 1..taken |-> i - 1]
WarnedOnce == warned <= 1
===========================================================================
