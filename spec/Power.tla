------------------------------- MODULE Power -------------------------------
(* What the power allocator's events tell about each cluster.  A row is    *)
(* [t, who, v]: at t, v was reported for who.  A table has a column for    *)
(* each that reported: at every time its last report, none before.         *)
EXTENDS Text
None == -1
Reports(rows, who) == {i \in 1..Len(rows) : rows[i].who = who}
Before(rows, who, t) == {i \in Reports(rows, who) : rows[i].t <= t}
At(rows, who, t) == LET S == Before(rows, who, t) IN
  IF S = {} THEN None ELSE rows[CHOOSE i \in S : \A j \in S : rows[j].t <= rows[i].t].v
Times(rows) == {rows[i].t : i \in 1..Len(rows)}
\* the CPUs of a mask such as 00000000,0000000f
Ones == [h \in HexDig |-> CASE h \in {"0"} -> 0 [] h \in {"1", "2", "4", "8"} -> 1
                            [] h \in {"3", "5", "6", "9", "a", "c", "A", "C"} -> 2
                            [] h \in {"7", "b", "d", "e", "B", "D", "E"} -> 3 [] OTHER -> 4]
RECURSIVE OnesFrom(_, _)
OnesFrom(cs, i) == IF i > Len(cs) THEN 0 ELSE (IF cs[i] \in HexDig THEN Ones[cs[i]] ELSE 0) + OnesFrom(cs, i + 1)
CpusOf(mask) == OnesFrom(Chars(mask), 1)
Highest(S) == CHOOSE x \in S : \A y \in S : y <= x
\* a/b in millionths, rounded down, for b < 2^31/100
Millionths(a, b) ==
  LET r0 == a % b   d1 == (r0 * 100) \div b
      r1 == (r0 * 100) % b   d2 == (r1 * 100) \div b
      r2 == (r1 * 100) % b   d3 == (r2 * 100) \div b
  IN (a \div b) * 1000000 + d1 * 10000 + d2 * 100 + d3
\* how much of the highest frequency seen in use, over all its CPUs
Normalized(load, freq, maxfreq, cpus) == Millionths(load * freq, maxfreq * cpus)
=============================================================================
