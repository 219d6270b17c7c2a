---------------------------- MODULE MC_SysTrace ----------------------------
(* Every HTML file of up to Depth lines built from the templates.          *)
EXTENDS SysTrace, Json, IOUtils
VARIABLES zone, hist, taken

Depth == IF IOEnv.TV_TIER = "thorough" THEN 6 ELSE 5
T == <<
  "<title>Android System Trace</title>",
  "<!-- BEGIN TRACE -->",
  "  <script class=\"trace-data\" type=\"application/text\">",
  "  var linuxPerfData = \"",
  "  sh-1 [002] 5.000001: ev_a: a=1",
  "  sh-1 [000] 6.000001: tracing_mark_write: B|12|f",
  "  </script>",
  "# tracer: nop" >>
Init == zone = "head" /\ hist = <<>> /\ taken = <<>>
Read(i) == /\ zone' = ZoneStep(zone, Chars(T[i]))
           /\ hist' = Append(hist, i)
           /\ taken' = IF zone' = "trace" THEN Append(taken, Len(hist) + 1) ELSE taken
Next == Len(hist) < Depth /\ \E i \in 1..Len(T) : Read(i)
Spec == Init /\ [][Next]_<<zone, hist, taken>>

\* declaratively: with m the first mark, o the first opener after m, s the
\* first trace line after o and c the first closer after s, the lines s..c-1
First(S, from) == LET X == {k \in from..Len(hist) : hist[k] \in S} IN
                  IF X = {} THEN 0 ELSE CHOOSE k \in X : \A x \in X : k <= x
m == First({1, 2}, 1)
o == IF m = 0 THEN 0 ELSE First({3, 4}, m + 1)
s == IF o = 0 THEN 0 ELSE First({5, 6}, o + 1)
c == IF s = 0 THEN 0 ELSE First({7}, s + 1)
Declarative == taken = IF s = 0 THEN <<>>
                       ELSE [k \in 1..((IF c = 0 THEN Len(hist) + 1 ELSE c) - s) |-> s + k - 1]
RegionAgrees == Region([k \in 1..Len(hist) |-> T[hist[k]]]) = [k \in 1..Len(taken) |-> T[hist[taken[k]]]]
\* only the files that get as far as opening the data script are replayed
Emit == (Len(hist) = Depth /\ o # 0) => PrintT("@@" \o ToJson([hist |-> hist]))
ASSUME PrintT("@@" \o ToJson([templates |-> T]))
ASSUME Marker(Chars("E")).ok /\ ~Marker(Chars("e|1")).ok /\ ~Marker(Chars("E|")).ok
ASSUME LET x == Marker(Chars("C|12||4|5")) IN x.parts = <<<<"1","2">>, <<>>, <<"4","|","5">>>>
=============================================================================
