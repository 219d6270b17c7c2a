------------------------------- MODULE Sysfs -------------------------------
(* The parameters in the sysfs dump of a run: the files of thermal zone 0, *)
(* after the run, which configure it.  What a file holds is its parameter, *)
(* but for one newline at its end, a number where it is one.               *)
EXTENDS Text, TLC
Fixed == {"integral_cutoff", "k_d", "k_i", "k_po", "k_pu", "policy", "sustainable_power"}
\* prefix, a number, suffix, all there is of the name or somewhere in it
NumberedAt(cs, pre, suf, i) == /\ MatchesAt(cs, pre, i)
  /\ LET b == i + Len(pre)  e == SkipWhile(cs, b, Digits) IN e > b /\ MatchesAt(cs, suf, e)
Numbered(cs, pre, suf) == NumberedAt(cs, pre, suf, 1) /\ EndsWith(cs, suf) /\
  SkipWhile(cs, Len(pre) + 1, Digits) = Len(cs) - Len(suf) + 1
Holds(cs, pre, suf) == \E i \in 1..Len(cs) : NumberedAt(cs, pre, suf, i)
W == <<Chars("cdev"), Chars("_weight")>>
P == <<Chars("trip_point_"), Chars("_temp")>>
Asked(name) == name \in Fixed \/ LET cs == Chars(name) IN Numbered(cs, W[1], W[2]) \/ Numbered(cs, P[1], P[2])
\* names which merely hold such a name (cdev0_weight_old) are left open
Open(name) == ~Asked(name) /\ LET cs == Chars(name) IN Holds(cs, W[1], W[2]) \/ Holds(cs, P[1], P[2])
Trimmed(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) = "\n" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
IsInt(s) == LET cs == Chars(s)
                t == IF cs # <<>> /\ cs[1] \in {"-", "+"} THEN Tail(cs) ELSE cs
            IN t # <<>> /\ \A i \in 1..Len(t) : t[i] \in Digits
RECURSIVE Plain(_)       \* without leading zeros
Plain(cs) == IF Len(cs) > 1 /\ cs[1] = "0" THEN Plain(Tail(cs)) ELSE cs
Canon(s) == LET cs == Chars(s)
                neg == cs[1] = "-"
                t == Plain(IF cs[1] \in {"-", "+"} THEN Tail(cs) ELSE cs)
            IN (IF neg /\ t # <<"0">> THEN "-" ELSE "") \o Join(t)
\* the parameter of a file with these contents: [num, text]
Space == {" ", "\t", "\n", "\r"}
RECURSIVE LStrip(_)
LStrip(cs) == IF cs # <<>> /\ cs[1] \in Space THEN LStrip(Tail(cs)) ELSE cs
Bare(s) == Join(RStrip(LStrip(Chars(s))))
ValueOf(contents) == LET s == Trimmed(contents) IN
  IF IsInt(Bare(s)) THEN [num |-> TRUE, text |-> Canon(Bare(s))] ELSE [num |-> FALSE, text |-> s]
\* files: sequence of [name, text, kind, dir]
Params(files) == {[name |-> files[i].name, v |-> ValueOf(files[i].text)] :
                    i \in {j \in 1..Len(files) : files[j].kind = "file" /\ files[j].dir = "zone" /\ Asked(files[j].name)}}
=============================================================================
