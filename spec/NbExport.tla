------------------------------ MODULE NbExport ------------------------------
(* What exporting a notebook makes of the HTML its cells display.  Marked  *)
(* lines go, or are replaced by a file's contents or by a tag that loads a *)
(* library, each once in a notebook; everything else stays.                *)
(* A line is text; an imported file is written @name here.                 *)
EXTENDS Text, TLC
CStart == Chars("/* TRAPPY_PUBLISH_REMOVE_START */")
CStop == Chars("/* TRAPPY_PUBLISH_REMOVE_STOP */")
CLine == Chars("/* TRAPPY_PUBLISH_REMOVE_LINE */")
CImport == Chars("/* TRAPPY_PUBLISH_IMPORT = \"")
CLib == Chars("<!-- TRAPPY_PUBLISH_SOURCE_LIB = \"")
CMark == Chars("TRAPPY_PUBLISH_")
\* what stands between pre and the next quote, if post follows it
Quoted(cs, pre, post) ==
  LET i == FindFrom(cs, pre, 1) IN
  IF i = 0 THEN ""
  ELSE LET b == i + Len(pre)  e == SkipUntil(cs, b, {"\""}) IN
       IF e > b /\ MatchesAt(cs, post, e) THEN Join(SubSeq(cs, b, e - 1)) ELSE ""
Plain == [k |-> "text", arg |-> ""]
\* [k: text, start, stop, line, import, lib; arg]
Kind(line) ==
  LET cs == Chars(line) IN
  IF FindFrom(cs, CMark, 1) = 0 THEN Plain
  ELSE IF Contains(cs, CStart) THEN [k |-> "start", arg |-> ""]
  ELSE IF Contains(cs, CStop) THEN [k |-> "stop", arg |-> ""]
  ELSE IF Contains(cs, CLine) THEN [k |-> "line", arg |-> ""]
  ELSE LET f == Quoted(cs, CImport, Chars("\" */")) l == Quoted(cs, CLib, Chars("\" -->")) IN
       IF f # "" THEN [k |-> "import", arg |-> f]
       ELSE IF l # "" THEN [k |-> "lib", arg |-> l] ELSE Plain
LibTag(u) == "<script src=\"" \o u \o "\" type=\"text/javascript\" charset=\"utf-8\"></script>"
\* A notebook is a sequence of lines [out, k, arg, text], out the number of
\* the output they are in.  Is line i in a removed block?
Hidden(L, i) == \E s \in 1..(i - 1) : L[s].k = "start" /\ L[s].out = L[i].out /\ \A j \in (s + 1)..(i - 1) : ~(L[j].k = "stop" /\ L[j].out = L[i].out)
FirstOf(L, i) == \A j \in 1..(i - 1) : (L[j].k = L[i].k /\ L[j].arg = L[i].arg) => Hidden(L, j)
Written(L, i) ==
  CASE L[i].k \in {"start", "stop", "line"} -> <<>>
    [] Hidden(L, i) -> <<>>
    [] L[i].k = "text" -> <<L[i].text>>
    [] ~FirstOf(L, i) -> <<>>
    [] L[i].k = "import" -> <<"@" \o L[i].arg>>
    [] OTHER -> <<LibTag(L[i].arg)>>
RECURSIVE OutFrom(_, _, _)
OutFrom(L, o, i) == IF i > Len(L) THEN <<>> ELSE (IF L[i].out = o THEN Written(L, i) ELSE <<>>) \o OutFrom(L, o, i + 1)
Exported(L, o) == OutFrom(L, o, 1)
=============================================================================
