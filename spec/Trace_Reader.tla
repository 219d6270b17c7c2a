--------------------------- MODULE Trace_Reader ---------------------------
(* Recorded openings of text traces against Reader + Decoders.             *)
(* Case: [id, sel, lines, norm, win, obs]; obs = [err, msg, warns,         *)
(*        events (name -> rows), base, end].                               *)
EXTENDS Reader, Window, Decoders, TV

VARIABLES cx, kx, bad
tvars == <<cx, kx, bad>>

Prop == IOEnv.TV_PROP
Case == Cases[cx]
\* the lines of the trace: those embedded in the page if it is a systrace
Lines == IF "html" \in DOMAIN Case THEN Region(Case.lines) ELSE Case.lines

\* ------------------------------------------------------------ expectation
SelOf(name) == sel[CHOOSE i \in 1..Len(sel) : sel[i].name = name]
Owned == SelectSeq(log, LAMBDA e : e.own # {})
OwnedBy(n) == SelectSeq(log, LAMBDA e : n \in e.own)
ObsEvents == DOMAIN Case.obs.events
ObsRows(n) == IF n \in ObsEvents THEN Case.obs.events[n] ELSE <<>>
\* all observed rows, as a set of <<event, index>>
AllRows == UNION {{<<n, i>> : i \in 1..Len(ObsRows(n))} : n \in ObsEvents}
RowAt(p) == ObsRows(p[1])[p[2]]
At(pp) == {p \in AllRows : RowAt(p).line = pp}
Positions == {Owned[i].pos : i \in 1..Len(Owned)}

Dec(n) == Rows(SelOf(n).kind, [i \in 1..Len(OwnedBy(n)) |-> OwnedBy(n)[i].data])
DecErr == \E j \in 1..Len(sel) : \E i \in 1..Len(Dec(sel[j].name)) : Dec(sel[j].name)[i].err # ""

\* ------------------------------------------------------------- windowing
InWin(t) == InWindow(t, base, Case.win)
Kept == SelectSeq(Owned, LAMBDA e : InWin(e.t))
KeptBy(n) == SelectSeq(OwnedBy(n), LAMBDA e : InWin(e.t))
KeptPositions == {Kept[i].pos : i \in 1..Len(Kept)}

\* ---------------------------------------------------------------- clauses
NoError == Clause("opens", Case.obs.err = "")
\* opening may only fail on a payload that has no key (C04)
Opens == Clause("opens", DecErr)
C01 ==
  IF Case.obs.err # "" THEN Opens ELSE
     Clause("one-row-per-line", \A i \in 1..Len(Owned) : Cardinality(At(Owned[i].pos)) = 1)
  \o Clause("no-foreign-rows", \A p \in AllRows : RowAt(p).line \in Positions)
  \o Clause("file-order", \A n \in ObsEvents : \A i, j \in 1..Len(ObsRows(n)) :
               i < j => ObsRows(n)[i].line < ObsRows(n)[j].line)
  \o Clause("comm", \A i \in 1..Len(Owned) : \A p \in At(Owned[i].pos) :
               RowAt(p).comm = Owned[i].comm)
  \o Clause("pid", \A i \in 1..Len(Owned) : \A p \in At(Owned[i].pos) :
               RowAt(p).pid = NormalDigits(Owned[i].pid))
  \o Clause("cpu", \A i \in 1..Len(Owned) : \A p \in At(Owned[i].pos) :
               RowAt(p).cpu = NormalDigits(Owned[i].cpu))
C02 ==
  IF Case.obs.err # "" THEN Opens ELSE
     Clause("owner", \A i \in 1..Len(Owned) :
               \E n \in Owned[i].own : {p[1] : p \in At(Owned[i].pos)} = {n})
  \o Clause("once", \A i \in 1..Len(Owned) : Cardinality(At(Owned[i].pos)) = 1)
  \o Clause("unowned", \A p \in AllRows : RowAt(p).line \in Positions)

\* the time a row must show: as handed out, less the base when normalised
\* an observed time within rounding and bumps (below 1 ns each) of the time due
DiffNs(a, b) == IF a[1] = b[1] THEN a[2] - b[2]
                ELSE IF a[1] = b[1] + 1 THEN a[2] + 1000000000 - b[2]
                ELSE IF a[1] + 1 = b[1] THEN a[2] - b[2] - 1000000000
                ELSE 1000000000
Near(o, due, k) == LET d == DiffNs(o, due) IN d >= -1 /\ d <= 1 + k
Shown(t) == IF Case.norm THEN TSub(t, base) ELSE <<t[1], t[2]>>
C03 ==
  IF Case.obs.err # "" THEN Opens ELSE
     Clause("rows", \A i \in 1..Len(Owned) : Cardinality(At(Owned[i].pos)) = 1)
  \o Clause("time", \A i \in 1..Len(Owned) : \A p \in At(Owned[i].pos) :
               Near(RowAt(p).t, Shown(Owned[i].t), Owned[i].t[3]))
  \o Clause("strictly-increasing", \A p, q \in AllRows :
               RowAt(p).line < RowAt(q).line => RowAt(p).rank < RowAt(q).rank)
  \o Clause("index-sorted", \A n \in ObsEvents : \A i \in 1..(Len(ObsRows(n)) - 1) :
               ObsRows(n)[i].rank < ObsRows(n)[i + 1].rank)
  \o Clause("basetime", Case.obs.base = <<base[1], base[2]>>)
  \o Clause("endtime", Near(Case.obs.end, last, last[3]))
Payloads ==
  LET D == [j \in 1..Len(sel) |-> Dec(sel[j].name)]
      bads == \E j \in 1..Len(D) : \E i \in 1..Len(D[j]) : D[j][i].err # ""
      warn == \E j \in 1..Len(D) : \E i \in 1..Len(D[j]) : D[j][i].warn
  IN IF bads THEN Clause("malformed-payload-raises", Case.obs.err # "")
                 \o Clause("error-names-line", Case.obs.err # "" => Case.obs.named)
  ELSE IF Case.obs.err # "" THEN NoError ELSE
     Clause("rows", \A j \in 1..Len(sel) : Len(ObsRows(sel[j].name)) = Len(OwnedBy(sel[j].name)))
  \o Clause("cells", \A j \in 1..Len(sel) : LET n == sel[j].name d == D[j] IN
               Len(ObsRows(n)) = Len(d) =>
                  \A i \in 1..Len(d) : RowIs(ObsRows(n)[i].cols, d[i].d))
  \o Clause("parse-warning", (Case.obs.fwarn > 0) <=> warn)
\* the tasks of sched_load_avg_task whose name contains a key, once each, in
\* order of appearance
CellText(v) == IF v.k = "s" THEN v.v ELSE (IF v.lit.neg THEN "-" ELSE "") \o v.lit.digits
Task(d) == <<CellText(Get(d, "comm")), CellText(Get(d, "pid"))>>
RECURSIVE TasksDue(_, _, _, _)
TasksDue(rows, i, key, out) ==
  IF i > Len(rows) THEN out
  ELSE LET t == Task(rows[i].d) IN
       TasksDue(rows, i + 1, key,
                IF (key = "" \/ Contains(Chars(t[1]), Chars(key))) /\ \A k \in 1..Len(out) : out[k] # t THEN Append(out, t) ELSE out)
Pids ==
  IF Case.obs.err # "" \/ Case.obs.pids = <<>> THEN <<>> ELSE
  LET rows == Dec("sched_load_avg_task") IN
  Clause("get_pids", \A i \in 1..Len(Case.obs.pids) : LET g == Case.obs.pids[i] IN
            g.err = "" /\ g.pids = TasksDue(rows, 1, g.key, <<>>))
C06 ==
  IF Case.obs.err # "" THEN Opens ELSE
     Clause("kept", \A i \in 1..Len(Kept) : Cardinality(At(Kept[i].pos)) = 1)
  \o Clause("dropped", \A p \in AllRows : RowAt(p).line \in KeptPositions)
  \o Clause("order", \A n \in ObsEvents : \A i, j \in 1..Len(ObsRows(n)) :
               i < j => ObsRows(n)[i].line < ObsRows(n)[j].line)
  \o Clause("time", \A i \in 1..Len(Kept) : \A p \in At(Kept[i].pos) :
               Near(RowAt(p).t, Shown(Kept[i].t), Kept[i].t[3]))
  \o Clause("values", \A j \in 1..Len(sel) : LET n == sel[j].name d == Dec(n) IN
               Len(ObsRows(n)) = Len(KeptBy(n)) =>
                 \A i \in 1..Len(KeptBy(n)) :
                   LET m == CHOOSE x \in 1..Len(d) : OwnedBy(n)[x] = KeptBy(n)[i] IN
                   RowIs(ObsRows(n)[i].cols, d[m].d))
  \o Clause("basetime", Case.obs.base = <<base[1], base[2]>>)
  \o Clause("endtime", Near(Case.obs.end, last, last[3]))

\* C11: the rows of the embedded region, decoded, and the number of CPUs
SwitchCpus == {ToNat(OwnedBy("sched_switch")[i].cpu) : i \in 1..Len(OwnedBy("sched_switch"))}
CpusDue == IF SwitchCpus = {} THEN -1 ELSE 1 + CHOOSE m \in SwitchCpus : \A x \in SwitchCpus : x <= m
C11 == C01 \o Payloads
  \o (IF Case.obs.err # "" THEN <<>> ELSE
       Clause("cpus", Case.obs.cpus = CpusDue)
    \o Clause("basetime", Case.obs.base = <<base[1], base[2]>>)
    \o Clause("endtime", Near(Case.obs.end, last, last[3])))

\* C14: obs.calls are the calls made: [ev, idx (time), keys, line, comm, pid, cpu, cols]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Requested == SetOf(Case.req)
CallsDue == SelectSeq(Kept, LAMBDA e : e.own \cap Requested # {})
\* the decoded payload of a kept line of event n
DecOf(n, e) == LET own == OwnedBy(n) IN Dec(n)[CHOOSE x \in 1..Len(own) : own[x] = e].d
C14 ==
  LET o == Case.obs.calls IN
  IF Case.obs.err # "" THEN Opens ELSE
     Clause("once-per-row", Len(o) = Len(CallsDue))
  \o Clause("finishes", Case.obs.cberr = "")
  \o Clause("requested-only", \A i \in 1..Len(o) : o[i].ev \in Requested)
  \o (IF Len(o) # Len(CallsDue) THEN <<>> ELSE
     Clause("trace-order", \A i \in 1..Len(o) : o[i].line = CallsDue[i].pos)
  \o Clause("event", \A i \in 1..Len(o) : o[i].ev \in CallsDue[i].own)
  \o Clause("index-is-time", \A i \in 1..Len(o) : Near(o[i].t, Shown(CallsDue[i].t), CallsDue[i].t[3]))
  \o Clause("index-is-rows-time", \A i \in 1..Len(o) : o[i].rowtime)
  \o Clause("underscore-columns", \A i \in 1..Len(o) :
        /\ o[i].comm = CallsDue[i].comm
        /\ o[i].pid = NormalDigits(CallsDue[i].pid) /\ o[i].cpu = NormalDigits(CallsDue[i].cpu))
  \o Clause("all-columns", \A i \in 1..Len(o) : SetOf(o[i].keys) = {"Index"} \cup SetOf(Case.obs.columns[o[i].ev]))
  \o Clause("values", \A i \in 1..Len(o) : o[i].ev \in CallsDue[i].own =>
        RowIs(o[i].cols, DecOf(o[i].ev, CallsDue[i]))))

Verdict == CASE Prop = "C01" -> C01 [] Prop = "C02" -> C02 [] Prop = "C03" -> C03
             [] Prop \in {"C04", "C05"} -> Payloads [] Prop = "C10" -> Payloads \o Pids [] Prop = "C06" -> C06
             [] Prop = "C11" -> C11
             [] Prop = "C14" -> C14

\* -------------------------------------------------------------- behaviour
Init == /\ cx = 1 /\ kx = 1 /\ bad = <<>>
        /\ RInit(IF Len(Cases) > 0 THEN Cases[1].sel ELSE <<>>)

Step == /\ cx <= Len(Cases) /\ kx <= Len(Lines)
        /\ ReadLine(Chars(Lines[kx]))
        /\ kx' = kx + 1 /\ UNCHANGED <<cx, bad>>

Finish == /\ cx <= Len(Cases) /\ kx > Len(Lines)
          /\ bad' = bad \o Tagged(Case.id, Verdict)
          /\ cx' = cx + 1 /\ kx' = 1
          /\ IF cx < Len(Cases)
             THEN /\ sel' = Cases[cx + 1].sel /\ started' = FALSE /\ pos' = 0
                  /\ last' = Zero /\ base' = Zero /\ log' = <<>>
             ELSE /\ WriteVerdict(cx, bad')
                  /\ UNCHANGED rvars

Next == Step \/ Finish
Spec == Init /\ [][Next]_<<rvars, tvars>>
===========================================================================
