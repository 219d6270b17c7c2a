---------------------------- MODULE Trace_Dedup ----------------------------
(* Case: [id, ts (input times, ns within a few seconds), lines (or <<>>),   *)
(*        maxd (ns), obs]; obs = [err, order (input row shown at each       *)
(*        place), t (times in ns), rank (dense ranks of the exact times),   *)
(*        same (time exactly the input row's), touched (input altered)]     *)
EXTENDS Dedup, TV
VARIABLES cx, bad
tv == <<cx, bad>>
Abs(x) == IF x < 0 THEN -x ELSE x

\* the due order and the sorted times
Order(c) == IF Len(c.lines) > 0 THEN OrderOf(c.ts, c.lines) ELSE [i \in 1..Len(c.ts) |-> i]
Verdict(c) ==
  LET o == c.obs n == Len(c.ts) p == Order(c) st == [i \in 1..n |-> c.ts[p[i]]] IN
  IF o.err # "" THEN <<"no-error">> ELSE
     Clause("same-rows", Len(o.order) = n)
  \o Clause("values-intact", o.intact)
  \o Clause("input-not-altered", ~o.touched)
  \o (IF Len(o.order) # n THEN <<>> ELSE
     Clause("order", \A i \in 1..n : o.order[i] = p[i])
  \o Clause("strictly-increasing", \A i \in 1..(n - 1) : o.rank[i] < o.rank[i + 1])
  \o Clause("firsts-stay", \A i \in 1..n : RankIn(st, i) = 0 => o.same[i])
  \o Clause("moves-forward", \A i \in 1..n : RankIn(st, i) > 0 => o.t[i] - st[i] >= -1)
  \o Clause("below-the-gap", \A i \in 1..n : Later(st, i) # {} => o.t[i] <= MinOf(Later(st, i)))
  \o Clause("small-steps", \A i \in 1..n : o.t[i] - st[i] <= RankIn(st, i) * c.maxd + 1))

Init == cx = 1 /\ bad = <<>> /\ DInit(<<>>, 1)
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Verdict(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
        /\ UNCHANGED dvars
Spec == Init /\ [][Next]_<<dvars, tv>>
============================================================================
