--------------------------- MODULE Trace_Requests ---------------------------
(* Plotters made, or refused, for a request (C22).                          *)
(* Case: [id, r, obs = [err]]                                          *)
EXTENDS Requests, TV
VARIABLES cx, bad
Judge(c) ==
  LET r == c.r o == c.obs IN
  IF Open(r) THEN <<>>
  ELSE IF Accepted(r) THEN Clause("accepted", o.err = "")
  ELSE Clause("refused", o.err # "")
    \o Clause("refused-by-name", (o.err # "" /\ ~(Frames(r) /\ r.signals # "")) => o.err \in {"ValueError", "RuntimeError"})
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
=============================================================================
