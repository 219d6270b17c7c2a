---------------------------- MODULE MC_NbExport ----------------------------
(* Exporting notebooks line by line; a cut ends an output, and a notebook. *)
EXTENDS NbExport, Json, IOUtils
VARIABLES lines, out, removing, done, page
vars == <<lines, out, removing, done, page>>
Big == IOEnv.TV_TIER = "thorough"
Kinds == {[k |-> "text", arg |-> ""], [k |-> "start", arg |-> ""], [k |-> "stop", arg |-> ""], [k |-> "line", arg |-> ""],
          [k |-> "import", arg |-> "A"], [k |-> "lib", arg |-> "u"]} \cup (IF Big THEN {[k |-> "import", arg |-> "B"], [k |-> "lib", arg |-> "v"]} ELSE {})
N == IF Big THEN 6 ELSE 5
Init == lines = <<>> /\ out = 1 /\ removing = FALSE /\ done = {} /\ page = <<>>
Txt == "t" \o ToString(Len(lines) + 1)
\* page: sequence of [out, text]
Put(x) == page' = Append(page, [out |-> out, text |-> x])
Line(q) ==
  /\ Len(lines) < N
  /\ lines' = Append(lines, [out |-> out, k |-> q.k, arg |-> q.arg, text |-> Txt])
  /\ UNCHANGED out
  /\ CASE q.k = "start" -> removing' = TRUE /\ UNCHANGED <<done, page>>
       [] q.k = "stop" -> removing' = FALSE /\ UNCHANGED <<done, page>>
       [] q.k = "line" \/ removing -> UNCHANGED <<removing, done, page>>
       [] q.k = "text" -> Put(Txt) /\ UNCHANGED <<removing, done>>
       [] q \in done -> UNCHANGED <<removing, done, page>>
       [] OTHER -> Put(IF q.k = "import" THEN "@" \o q.arg ELSE LibTag(q.arg)) /\ done' = done \cup {q} /\ UNCHANGED removing
Cut == /\ lines # <<>> /\ lines[Len(lines)].out = out /\ Len(lines) < N
       /\ out' = out + 1 /\ removing' = FALSE /\ UNCHANGED <<lines, done, page>>
Spec == Init /\ [][(\E q \in Kinds : Line(q)) \/ Cut]_vars
Of(o) == LET s == SelectSeq(page, LAMBDA x : x.out = o) IN [i \in 1..Len(s) |-> s[i].text]
Agrees == \A o \in 1..out : Of(o) = Exported(lines, o)
\* an output without marks is as it was, whatever came before it
Untouched == \A o \in 1..out : (\A i \in 1..Len(lines) : lines[i].out = o => lines[i].k = "text") =>
   LET s == SelectSeq(lines, LAMBDA l : l.out = o) IN Of(o) = [i \in 1..Len(s) |-> s[i].text]
Once == \A i, j \in 1..Len(page) : (i # j /\ page[i].text = page[j].text) => FALSE
\* whatever is needed outside of removed blocks is there, not after its first use
Supplied == \A i \in 1..Len(lines) : (lines[i].k = "import" /\ ~Hidden(lines, i)) => \E j \in 1..Len(page) : page[j].text = "@" \o lines[i].arg /\ page[j].out <= lines[i].out
ASSUME Kind("  /* TRAPPY_PUBLISH_IMPORT = \"a/b.js\" */").arg = "a/b.js" /\ Kind("x /* TRAPPY_PUBLISH_REMOVE_LINE */").k = "line" /\ Kind("plain").k = "text"
ASSUME Kind("<!-- TRAPPY_PUBLISH_SOURCE_LIB = \"http://x/y\" -->") = [k |-> "lib", arg |-> "http://x/y"] /\ Kind("/* TRAPPY_PUBLISH_IMPORT = \"\" */").k = "text"
Emit == lines # <<>> => PrintT("@@" \o ToJson([lines |-> [i \in 1..Len(lines) |-> [out |-> lines[i].out, k |-> lines[i].k, arg |-> lines[i].arg]]]))
=============================================================================
