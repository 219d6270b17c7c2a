----------------------------- MODULE Trace_Csv -----------------------------
(* Recorded histories of tables and CSV files (C36) against Csv.           *)
(* Case: [id, tables, hist, obs = [err, steps: [err, held: object ->       *)
(*   [cols, times, rows, index], files: file -> its records (<<>> if none)]]]*)
EXTENDS Csv, TV
VARIABLES cx, bad
NoneT == [cols |-> <<>>, times |-> <<>>, rows |-> <<>>]
\* what objects hold and files store after a prefix of the history
RECURSIVE Held(_, _, _), Stored(_, _, _)
Held(c, n, o) ==
  IF n = 0 THEN NoneT
  ELSE LET h == c.hist[n] IN
       IF h.o # o \/ h.op = "write" THEN Held(c, n - 1, o)
       ELSE IF h.op = "load" THEN c.tables[h.n]
       ELSE Back(Stored(c, n - 1, h.f)[1])
Stored(c, n, f) ==
  IF n = 0 THEN <<>>
  ELSE LET h == c.hist[n] IN
       IF h.op = "write" /\ h.f = f THEN <<TLCEval(Held(c, n - 1, h.o))>> ELSE Stored(c, n - 1, f)
Judge(c) ==
  LET S == c.obs.steps
      At(n) ==
        LET s == S[n] IN
        IF s.err # "" THEN <<"no-error">>
        ELSE Clause("tables", \A o \in {1, 2} : LET w == TLCEval(Held(c, n, o)) g == s.held[o] IN
               g.cols = w.cols /\ g.rows = w.rows)
          \o Clause("times", \A o \in {1, 2} : LET w == TLCEval(Held(c, n, o)) g == s.held[o] IN
               g.times = w.times /\ (w.cols # <<>> => g.index = "Time"))
          \o Clause("files", \A f \in {1, 2} : LET w == TLCEval(Stored(c, n, f)) IN
               IF w = <<>> THEN s.files[f] = <<>> ELSE NoTable(w[1]) \/ s.files[f] = Records(w[1]))
      all == TLCEval([n \in 1..Len(S) |-> At(n)])
      firstbad == {n \in 1..Len(S) : all[n] # <<>>}
  IN IF c.obs.err # "" THEN <<"no-error">>
     ELSE IF firstbad = {} THEN <<>> ELSE all[CHOOSE n \in firstbad : \A m \in firstbad : n <= m]
Init == cx = 1 /\ bad = <<>> /\ held = <<>> /\ stored = <<>> /\ hist = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
        /\ UNCHANGED vars
Spec == Init /\ [][Next]_<<cx, bad, vars>>
===========================================================================
