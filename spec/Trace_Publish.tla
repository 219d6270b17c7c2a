--------------------------- MODULE Trace_Publish ---------------------------
(* Published notebooks (C33) against Publish.                              *)
(* Case: [id, obs = [urls (plot/file -> the URL it is downloaded from),    *)
(*   was: the notebooks, each [lines (sequences of words), base (file name)*)
(*   outfile (as asked for)], runs: what became of them, each              *)
(*   [err, lines (of the published notebook), web (those words which are   *)
(*   addresses in the web), rest (everything else is as it was), source    *)
(*   (the source is as it was), signed, target (the file which appeared)]]]     *)
EXTENDS Publish, TV
VARIABLES cx, bad
JudgeRun(c, i) ==
  LET r == c.obs.was[i] o == c.obs.runs[i] web == {o.web[k] : k \in 1..Len(o.web)}
      same == Len(o.lines) = Len(r.lines) /\ \A j \in 1..Len(r.lines) : Len(o.lines[j]) = Len(r.lines[j])
  IN IF o.err # "" THEN <<"no-error">> ELSE
     Clause("lines", same)
  \o Clause("paths", same => \A j \in 1..Len(r.lines) : \A k \in 1..Len(r.lines[j]) :
        LET w == r.lines[j][k] IN IsLocal(w) => Stands(w, o.lines[j][k], c.obs.urls, web))
  \o Clause("others-untouched", same => \A j \in 1..Len(r.lines) : \A k \in 1..Len(r.lines[j]) :
        ~IsLocal(r.lines[j][k]) => o.lines[j][k] = r.lines[j][k])
  \o Clause("rest-untouched", o.rest)
  \o Clause("source-untouched", o.source)
  \o Clause("trusted", o.signed)
  \o Clause("named", o.target = TargetName(r.base, r.outfile))
RECURSIVE Runs(_, _)
Runs(c, i) == IF i > Len(c.obs.runs) THEN <<>> ELSE JudgeRun(c, i) \o Runs(c, i + 1)
Judge(c) == IF c.obs.err # "" THEN <<"no-error">> ELSE Runs(c, 1)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
