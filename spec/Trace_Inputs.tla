--------------------------- MODULE Trace_Inputs ---------------------------
(* Recorded openings through FTrace's path resolution against Inputs.      *)
(* Case: [id, w, lines, raws, obs]; obs = [err, classes, calls (argv of    *)
(*  each trace-cmd run), reads (which file the rows come from), rows,      *)
(*  warned, version, cpus, tmpleft, changed]                               *)
EXTENDS Inputs, TV
VARIABLES cx, bad

World(c) == [path |-> c.w.path, files |-> {c.w.files[i] : i \in 1..Len(c.w.files)}, tool |-> c.w.tool, text |-> c.w.text]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Verdict(c) ==
  LET x == World(c) due == Outcome(x) o == c.obs tool == Source(x) = "dat" IN
     Clause("fails-as-documented",
            IF due.err = "" THEN o.err = ""
            ELSE /\ o.err # "" /\ (due.err # "any" => due.err \in SetOf(o.classes)))
  \o Clause("no-temporary-file-left", o.tmpleft = <<>>)
  \o Clause("inputs-unchanged", o.changed = <<>>)
  \o Clause("tool-only-for-dat", (Len(o.calls) > 0) <=> (tool /\ x.tool # "absent"))
  \o Clause("runs-tool-once", Len(o.calls) <= 1)
  \o Clause("raw-events", \A i \in 1..Len(o.calls) : Asked(o.calls[i]) = BuiltinRaw \cup SetOf(c.raws))
  \o Clause("report-of-the-dat", \A i \in 1..Len(o.calls) :
        LET a == o.calls[i] IN a[1] = "report" /\ a[Len(a)] = Candidates(x).dat)
  \o Clause("warns-txt", Source(x) = "txt" => o.warned)
  \o (IF due.err # "" \/ o.err # "" THEN <<>> ELSE
      Clause("reads-the-right-file", SetOf(o.reads) \subseteq {due.read})
   \o Clause("all-rows", o.rows = c.nrows)
   \o Clause("version", o.version = Meta(c.lines, "version"))
   \o Clause("cpus", o.cpus = Meta(c.lines, "cpus")))

Init == cx = 1 /\ bad = <<>> /\ IInit(IF Len(Cases) > 0 THEN World(Cases[1]) ELSE [path |-> "none", files |-> {}, tool |-> "ok", text |-> "good"])
\* the state machine runs each recorded world to its end before the verdict
Run == cx <= Len(Cases) /\ ~Ended /\ INext /\ UNCHANGED <<cx, bad>>
Judge == /\ cx <= Len(Cases) /\ Ended
         /\ Assert(err = Outcome(w).err, "machine and Outcome disagree")
         /\ bad' = bad \o Tagged(Cases[cx].id, Verdict(Cases[cx]))
         /\ cx' = cx + 1
         /\ IF cx < Len(Cases)
            THEN /\ w' = World(Cases[cx + 1]) /\ phase' = "start" /\ src' = "" /\ tmp' = FALSE /\ warned' = FALSE /\ err' = ""
            ELSE WriteVerdict(cx, bad') /\ UNCHANGED ivars
Spec == Init /\ [][Run \/ Judge]_<<ivars, cx, bad>>
===========================================================================
