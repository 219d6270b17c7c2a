------------------------------ MODULE Inputs ------------------------------
(* From the path given to FTrace to the text that is parsed: which file is *)
(* read, what trace-cmd is asked for, what is left behind.                 *)
(*                                                                         *)
(* A world w = [path, files, tool, text]                                   *)
(*   path   "dir" a directory, "none" nothing there, or the suffix of an   *)
(*          existing file: ".dat" ".txt" ".raw.txt" ".other" ""            *)
(*   files  the set of files beside it sharing its name                    *)
(*   tool   what trace-cmd does: "ok" "fails" "absent"                     *)
(*   text   the text to parse: "good" "nokey" (a payload that cannot be    *)
(*          parsed) "binary" (not text at all)                             *)
EXTENDS Header, FiniteSets

VARIABLES w, phase, src, tmp, warned, err
ivars == <<w, phase, src, tmp, warned, err>>

\* the name the three candidate files are formed from: everything up to the
\* last dot of a file, "trace" in a directory.  The file x.raw.txt has the
\* name x.raw, so that it is itself the .txt candidate.
Candidates(world) ==
  IF world.path = ".raw.txt"
  THEN [dat |-> ".raw.dat", txt |-> ".raw.txt", raw |-> ".raw.raw.txt"]
  ELSE [dat |-> ".dat", txt |-> ".txt", raw |-> ".raw.txt"]

Source(world) ==
  LET c == Candidates(world) IN
  IF c.dat \in world.files THEN "dat"
  ELSE IF c.txt \in world.files THEN "txt"
  ELSE IF c.raw \in world.files THEN "unsupported" ELSE "nothing"

\* ---------------------------------------------------------------- opening
IInit(world) == /\ w = world /\ phase = "start" /\ src = "" /\ tmp = FALSE
                /\ warned = FALSE /\ err = ""
Fail(e) == phase' = "failed" /\ err' = e

Resolve == /\ phase = "start"
           /\ src' = Source(w)
           /\ warned' = (src' = "txt")
           /\ CASE src' = "unsupported" -> Fail("RuntimeError")
                [] src' = "nothing"     -> Fail("OSError")
                [] OTHER -> phase' = "resolved" /\ err' = ""
           /\ UNCHANGED <<w, tmp>>
\* only a .dat needs trace-cmd; its text goes to a temporary file
Report == /\ phase = "resolved" /\ src = "dat"
          /\ CASE w.tool = "absent" -> Fail("OSError") /\ tmp' = FALSE
               [] w.tool = "fails"  -> Fail("any") /\ tmp' = FALSE
               [] OTHER -> phase' = "text" /\ err' = "" /\ tmp' = TRUE
          /\ UNCHANGED <<w, src, warned>>
Plain == /\ phase = "resolved" /\ src = "txt"
         /\ phase' = "text" /\ UNCHANGED <<w, src, tmp, warned, err>>
Parse == /\ phase = "text"
         /\ CASE w.text = "nokey"  -> Fail("any")
              [] w.text = "binary" -> Fail("any")
              [] OTHER -> phase' = "open" /\ err' = ""
         /\ tmp' = FALSE                 \* removed whatever happened
         /\ UNCHANGED <<w, src, warned>>
INext == Resolve \/ Report \/ Plain \/ Parse

Ended == phase \in {"open", "failed"}
\* what opening a world comes to, as one function
Outcome(world) ==
  LET s == Source(world) IN
  CASE s = "unsupported" -> [err |-> "RuntimeError", read |-> ""]
    [] s = "nothing"     -> [err |-> "OSError", read |-> ""]
    [] s = "dat" /\ world.tool = "absent" -> [err |-> "OSError", read |-> ""]
    [] s = "dat" /\ world.tool = "fails"  -> [err |-> "any", read |-> ""]
    [] world.text = "nokey"  -> [err |-> "any", read |-> ""]
    [] world.text = "binary" -> [err |-> "any", read |-> ""]
    [] s = "dat" -> [err |-> "", read |-> Candidates(world).dat]
    [] OTHER     -> [err |-> "", read |-> Candidates(world).txt]

\* --------------------------------------------------------------- metadata
\* "version = 6", "cpus=8": [key, val] of a header line, key "" if neither
MetaOf(line) ==
  LET try(k) == IF ~StartsWith(line, Chars(k)) THEN ""
                ELSE LET a == SkipWhile(line, Len(k) + 1, Blank) IN
                     IF a > Len(line) THEN "" ELSE IF line[a] # "=" THEN ""
                     ELSE LET b == SkipWhile(line, a + 1, Blank)
                              e == SkipWhile(line, b, Digits)
                          IN Join(SubSeq(line, b, e - 1))
  IN IF try("version") # "" THEN [key |-> "version", val |-> try("version")]
     ELSE IF try("cpus") # "" THEN [key |-> "cpus", val |-> try("cpus")]
     ELSE [key |-> "", val |-> ""]

\* the first value of a key before (the end of) the first trace line; "" if none
RECURSIVE MetaFrom(_, _, _)
MetaFrom(lines, i, key) ==
  IF i > Len(lines) THEN "None"
  ELSE LET cs == Chars(lines[i]) m == MetaOf(cs) IN
       IF m.key = key THEN m.val
       ELSE IF ParseHeader(RStrip(cs)).ok THEN "None"
       ELSE MetaFrom(lines, i + 1, key)
Meta(lines, key) == MetaFrom(lines, 1, key)

\* --------------------------------------------------------------- trace-cmd
\* events whose parsers take the unformatted output, out of the box
BuiltinRaw == {"sched_wakeup", "sched_wakeup_new", "sched_switch",
               "funcgraph_entry", "funcgraph_exit", "function"}
Asked(argv) == {argv[i + 1] : i \in {k \in 1..(Len(argv) - 1) : argv[k] = "-r"}}
===========================================================================
