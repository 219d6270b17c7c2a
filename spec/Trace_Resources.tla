-------------------------- MODULE Trace_Resources --------------------------
(* Notebooks showing plots while files are downloaded, or fail to be (C32),*)
(* against Resources.  Case: [id, cmds, obs = [files (at first, name ->    *)
(*   class), extra (number of other files), ev: for each command           *)
(*   [c (start, answer, end, put), p, m (kind of plot), o, f (put: the     *)
(*   file), to, k (what p does then: fetch, mid, shown, failed, dead, or   *)
(*   skip: the command did not apply), what (the file it fetches, or the   *)
(*   error), shown (number of pages displayed), missing (files the page    *)
(*   asks for which are not there), files, extra]]]                        *)
EXTENDS Resources, TV
VARIABLES cx, bad
Names == FilesOf("EventPlot") \cup FilesOf("ILinePlot")
\* files before the i-th command; what p was doing before it
Before(o, i) == IF i = 1 THEN o.files ELSE o.ev[i - 1].files
ExtraBefore(o, i) == IF i = 1 THEN o.extra ELSE o.ev[i - 1].extra
Idle == [k |-> "idle", what |-> "", m |-> "", o |-> ""]
RECURSIVE Was(_, _, _)
Was(o, i, p) == IF i = 1 THEN Idle
                ELSE IF o.ev[i - 1].p = p /\ o.ev[i - 1].c # "put" /\ o.ev[i - 1].k # "skip" THEN [k |-> o.ev[i - 1].k, what |-> o.ev[i - 1].what, m |-> o.ev[i - 1].m, o |-> o.ev[i - 1].o]
                ELSE Was(o, i - 1, p)
Busy(o, i, p) == Was(o, i, p).k \in {"fetch", "mid"}
Deaths(o, i) == \E j \in 1..i : o.ev[j].k = "dead"
JudgeEv(o, i) ==
  LET e == o.ev[i]
      b == Before(o, i)
      w == Was(o, i, e.p)
      others == {p \in {1, 2} : p # e.p /\ Busy(o, i, p)}
      \* the file p was downloading
      f == w.what
  IN
  IF e.c = "put" THEN <<>>
  ELSE IF e.k = "skip" THEN Clause("others-kept", e.files = b)
  ELSE Clause("never-incomplete", \A n \in Names : e.files[n] \in {"none", "good", "own"})
    \o Clause("others-kept", \A n \in Names :
          \/ e.files[n] = b[n]
          \/ n \in FilesOf(e.m) /\ e.files[n] = "good" /\ (Local(n) \/ (e.c = "end" /\ e.o = "ok" /\ n = f)))
    \o Clause("downloads-what-is-missing", e.k = "fetch" => e.what \in FilesOf(e.m) /\ ~Local(e.what) /\ b[e.what] = "none" /\ (e.c = "end" => e.what # f))
    \o Clause("installed", e.c = "end" /\ e.o = "ok" => e.files[f] \in {"good", "own"} /\ e.k \in {"fetch", "shown"})
    \o Clause("failure-told", (e.c = "answer" /\ e.o = "no") \/ (e.c = "end" /\ e.o = "cut") => e.k = "failed" /\ e.what = "ImportError" /\ e.shown = 0)
    \o Clause("no-other-failure", e.k = "failed" => (e.c = "answer" /\ e.o = "no") \/ (e.c = "end" /\ e.o = "cut"))
    \o Clause("shown-if-there", e.c = "start" /\ Missing(b, e.m) = {} => e.k = "shown")
    \o Clause("shown-complete", e.k = "shown" => Complete(e.files, e.m) /\ e.missing = <<>> /\ e.shown = 1)
    \o Clause("no-debris", e.k \in {"shown", "failed"} /\ others = {} /\ ~Deaths(o, i) => e.extra <= o.extra)
RECURSIVE All(_, _)
All(o, i) == IF i > Len(o.ev) THEN <<>> ELSE JudgeEv(o, i) \o All(o, i + 1)
Judge(c) == LET r == All(c.obs, 1) IN IF c.obs.err # "" THEN <<"no-error">> ELSE r
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
