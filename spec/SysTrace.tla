----------------------------- MODULE SysTrace -----------------------------
(* Systrace HTML: where the embedded trace begins and ends, and what       *)
(* userspace marker lines mean.                                            *)
(*                                                                         *)
(* zone: "head" -> "marked" -> "data" -> "trace" -> "after".               *)
(*   head    nothing seen yet                                              *)
(*   marked  the line announcing the trace (new or legacy format) was seen *)
(*   data    the script holding the trace data has been opened             *)
(*   trace   from the first line that carries the ftrace fields            *)
(*   after   the script was closed: the rest of the file is not looked at  *)
EXTENDS Header

Marks   == {"<!-- BEGIN TRACE -->", "<title>Android System Trace</title>"}
Openers == {"  <script class=\"trace-data\"", "  var linuxPerfData"}
Closer  == "</script>"

StartsWithAny(line, S) == \E s \in S : StartsWith(line, Chars(s))
IsTraceLine(line) == ParseHeader(RStrip(line)).ok

ZoneStep(zone, line) ==
  CASE zone = "head"   -> IF StartsWithAny(line, Marks) THEN "marked" ELSE "head"
    [] zone = "marked" -> IF StartsWithAny(line, Openers) THEN "data" ELSE "marked"
    [] zone = "data"   -> IF IsTraceLine(line) THEN "trace" ELSE "data"
    [] zone = "trace"  -> IF EndsWith(line, Chars(Closer)) THEN "after" ELSE "trace"
    [] OTHER           -> "after"

\* the lines of the embedded trace, from a given line and zone on
RECURSIVE RegionFrom(_, _, _)
RegionFrom(lines, i, zone) ==
  IF i > Len(lines) THEN <<>>
  ELSE LET z == ZoneStep(zone, Chars(lines[i])) IN
       (IF z = "trace" THEN <<lines[i]>> ELSE <<>>) \o RegionFrom(lines, i + 1, z)
Region(lines) == RegionFrom(lines, 1, "head")

\* ---------------------------------------------------------------- markers
\* "E", "B|pid", "B|pid|func", "C|pid|func|data": [ok, event, parts]
Marker(cs) ==
  IF Len(cs) = 0 \/ cs[1] \notin Upper THEN [ok |-> FALSE]
  ELSE IF Len(cs) = 1 THEN [ok |-> TRUE, event |-> cs[1], parts |-> <<>>]
  ELSE IF cs[2] # "|" THEN [ok |-> FALSE]
  ELSE LET p == SkipUntil(cs, 3, {"|"})
           pid == SubSeq(cs, 3, p - 1)
           f == SkipUntil(cs, p + 1, {"|"})
           func == SubSeq(cs, p + 1, f - 1)
       IN IF pid = <<>> \/ \E i \in 1..Len(pid) : pid[i] \notin Digits THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, event |-> cs[1],
                parts |-> <<pid>> \o (IF p > Len(cs) THEN <<>> ELSE <<func>> \o
                          (IF f > Len(cs) THEN <<>> ELSE <<SubSeq(cs, f + 1, Len(cs))>>))]
===========================================================================
