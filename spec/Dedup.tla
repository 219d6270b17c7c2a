------------------------------- MODULE Dedup -------------------------------
(* Moving duplicate times apart (handle_duplicate_index).  Times are        *)
(* integers (in a unit of the caller's choice) so that arithmetic is exact. *)
EXTENDS Integers, Sequences, FiniteSets

Sorted(ts) == \A i \in 1..(Len(ts) - 1) : ts[i] <= ts[i + 1]
\* position within the run of equal times, from 0
RankIn(ts, i) == Cardinality({j \in 1..(i - 1) : ts[j] = ts[i]})
RunLen(ts, i) == Cardinality({j \in 1..Len(ts) : ts[j] = ts[i]})
Later(ts, i) == {ts[j] : j \in {k \in 1..Len(ts) : ts[k] > ts[i]}}
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x

\* row order due: by time, rows of equal time by their line number
\* (<<time, line>> pairs are distinct in what lines are given)
Before(ts, ls, j, i) == ts[j] < ts[i] \/ (ts[j] = ts[i] /\ ls[j] < ls[i])
PlaceOf(ts, ls, i) == 1 + Cardinality({j \in 1..Len(ts) : Before(ts, ls, j, i)})
OrderOf(ts, ls) == [k \in 1..Len(ts) |-> CHOOSE i \in 1..Len(ts) : PlaceOf(ts, ls, i) = k]

\* scan, one time at a time: state of the de-duplicating machine
VARIABLES ts, maxd, at, off
dvars == <<ts, maxd, at, off>>
\* each offset in units of 1/RunLen of a time unit: step = min(maxd, gap / n)
StepOf(i) == LET n == RunLen(ts, i) IN
             IF Later(ts, i) = {} THEN maxd * n
             ELSE LET gap == MinOf(Later(ts, i)) - ts[i] IN
                  IF gap < maxd * n THEN gap ELSE maxd * n
DInit(t, m) == ts = t /\ maxd = m /\ at = 0 /\ off = <<>>
DNext == /\ at < Len(ts) /\ at' = at + 1
         /\ off' = Append(off, RankIn(ts, at + 1) * StepOf(at + 1))
         /\ UNCHANGED <<ts, maxd>>
\* strictly increasing, firsts stay, moves below the gap and multiples of at
\* most maxd.  Offsets of a run have the denominator n = RunLen.
FirstsStay == \A i \in 1..Len(off) : RankIn(ts, i) = 0 => off[i] = 0
Increasing == \A i \in 1..(Len(off) - 1) :
   IF ts[i] = ts[i + 1] THEN off[i] < off[i + 1]
   ELSE off[i] < (ts[i + 1] - ts[i]) * RunLen(ts, i)
Bounded == \A i \in 1..Len(off) : off[i] <= RankIn(ts, i) * maxd * RunLen(ts, i)
=============================================================================
