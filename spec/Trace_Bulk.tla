---------------------------- MODULE Trace_Bulk ----------------------------
(* Long traces (C01, C03, C06, C07, C14) against Bulk.                     *)
(* Case: [id, tr, obs]; obs = [err, opens: each [err, rows: event -> rows  *)
(*   [row (as RowDue), t, rank], hash, seen]]; the window is relative.     *)
EXTENDS Bulk, TV
VARIABLES cx, bad
Judge(c) ==
  LET tr == c.tr
      mine == TLCEval([e \in {"a", "b"} |-> LinesOf(tr, e)])
      kept == TLCEval([e \in {"a", "b"} |-> SelectSeq(mine[e], LAMBDA i : Inside(tr, i))])
      all == TLCEval(SelectSeq([i \in 1..tr.n |-> i - 1], LAMBDA i : Inside(tr, i) /\ Kind(tr, i) # "other"))
      One(o) ==
        IF o.err # "" THEN <<"opens">>
        ELSE Clause("number-of-rows", \A e \in {"a", "b"} : Len(o.rows[e]) = Len(kept[e]))
          \o Clause("rows", \A e \in {"a", "b"} : Len(o.rows[e]) = Len(kept[e]) =>
                \A x \in 1..Len(kept[e]) : o.rows[e][x].row = RowDue(tr, mine[e], kept[e][x]))
          \o Clause("times", \A e \in {"a", "b"} : Len(o.rows[e]) = Len(kept[e]) =>
                \A x \in 1..Len(kept[e]) : o.rows[e][x].t = At(tr, kept[e][x]))
          \o Clause("strictly-increasing", \A e \in {"a", "b"} : \A x \in 1..(Len(o.rows[e]) - 1) : o.rows[e][x].rank < o.rows[e][x + 1].rank)
          \o Clause("visited-in-order", o.seen = all)
          \o Clause("span", o.base = tr.base /\ o.last = At(tr, tr.n - 1))
  IN  Clause("opens", c.obs.err = "")
   \o (IF c.obs.err # "" THEN <<>> ELSE
       LET x == TLCEval([i \in 1..Len(c.obs.opens) |-> One(c.obs.opens[i])]) IN
       (IF Len(x) > 0 THEN x[1] ELSE <<>>) \o (IF Len(x) > 1 THEN x[2] ELSE <<>>) \o (IF Len(x) > 2 THEN x[3] ELSE <<>>)
       \o Clause("same-each-time", \A i \in 1..Len(c.obs.opens) : c.obs.opens[i].hash = c.obs.opens[1].hash))
Init == cx = 1 /\ bad = <<>> /\ taken = 0 /\ given = <<>> /\ left = 0 /\ warned = 0 /\ watching = FALSE
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
        /\ UNCHANGED vars
Spec == Init /\ [][Next]_<<cx, bad, vars>>
===========================================================================
