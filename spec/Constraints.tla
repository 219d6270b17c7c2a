---------------------------- MODULE Constraints ----------------------------
(* What a plotter draws: the data of a constraint (trace, event, column)   *)
(* split by pivot value, filtered and limited to a window, and how traces, *)
(* events and columns expand into constraints.                             *)
(* Tables are sequences of rows [t, c] in time order (Triggers).           *)
EXTENDS Triggers, Text
LOCAL INSTANCE TLC
NoPivot == ""

\* ------------------------------------------------------------- one series
\* the window reaches from the last row at or before its start to the first
\* row at or after its end; where there is none it is as wide as the data
InWindow(rows, w, t) ==
  LET B == {i \in 1..Len(rows) : rows[i].t <= w[1]}
      A == {i \in 1..Len(rows) : rows[i].t >= w[2]}
      MaxT(X) == CHOOSE x \in {rows[i].t : i \in X} : \A i \in X : rows[i].t <= x
      MinT(X) == CHOOSE x \in {rows[i].t : i \in X} : \A i \in X : x <= rows[i].t
  IN /\ (B # {} => t >= MaxT(B))
     /\ (A # {} => t <= MinT(A))
Windowed(rows, w) == IF w = <<>> THEN rows ELSE SelectSeq(rows, LAMBDA r : InWindow(rows, w, r.t))
HasColumn(cols, col) == \E i \in 1..Len(cols) : cols[i] = col
\* filters: a sequence of [col, vals]; one that names a column the event
\* does not have is ignored
Accepts(cols, f, row) == HasColumn(cols, f.col) => \E j \in 1..Len(f.vals) : f.vals[j] = CellOf(row, f.col)
Accepted(cols, fs, row) == \A j \in 1..Len(fs) : Accepts(cols, fs[j], row)
Kept(tab, fs, w) == SelectSeq(Windowed(tab.rows, w), LAMBDA r : Accepted(tab.cols, fs, r))
Points(rows, col) == [k \in 1..Len(rows) |-> [t |-> rows[k].t, v |-> CellOf(rows[k], col)]]
\* the pivot values of a table under filters, as a set
Pivots(tab, col, pivot, fs, w) ==
  IF ~HasColumn(tab.cols, col) THEN {}
  ELSE IF pivot = NoPivot THEN IF Kept(tab, fs, w) = <<>> THEN {} ELSE {Missing}
  ELSE IF ~HasColumn(tab.cols, pivot) THEN {}
  ELSE LET k == Kept(tab, fs, w) IN {CellOf(k[i], pivot) : i \in 1..Len(k)} \ {Missing}
SeriesOf(tab, col, pivot, fs, w, pv) ==
  LET k == Kept(tab, fs, w) IN
  Points(IF pivot = NoPivot THEN k ELSE SelectSeq(k, LAMBDA r : CellOf(r, pivot) = pv), col)

\* -------------------------------------------------------- order of pivots
Alphabet == <<"#", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":",
  "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_",
  "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Ord(c) == CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = c
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] = b[1] THEN LexLess(Tail(a), Tail(b)) ELSE Ord(a[1]) < Ord(b[1])
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
ValOf(c) == (CHOOSE i \in 1..16 : HexDigits[i] = LowerOf(c)) - 1
RECURSIVE NatOf(_, _)
NatOf(cs, base) == IF cs = <<>> THEN 0 ELSE NatOf(SubSeq(cs, 1, Len(cs) - 1), base) * base + ValOf(cs[Len(cs)])
All(cs, X) == cs # <<>> /\ \A i \in 1..Len(cs) : cs[i] \in X
HexBody(cs) == IF Len(cs) > 2 /\ cs[1] = "0" /\ cs[2] = "x" THEN SubSeq(cs, 3, Len(cs)) ELSE cs
IsDec(p) == p.k = "i" \/ All(Chars(p.s), Digits)
IsHex(p) == p.k = "s" /\ All(HexBody(Chars(p.s)), HexDig)
\* numbers are counted in units of 1/unit (so that fractions have an order)
DecVal(p, unit) == IF p.k = "i" THEN p.i ELSE unit * NatOf(Chars(p.s), 10)
HexVal(p) == NatOf(HexBody(Chars(p.s)), 16)
TextOf(p) == Chars(IF p.k = "i" THEN ToString(p.i) ELSE p.s)
\* by number if all are, else by hex number if all are, else as text
Before(P, unit, p, q) ==
  IF \A x \in P : IsDec(x) THEN DecVal(p, unit) < DecVal(q, unit)
  ELSE IF \A x \in P : IsHex(x) THEN HexVal(p) < HexVal(q)
  ELSE LexLess(TextOf(p), TextOf(q))
RECURSIVE SortFrom(_, _, _)
SortFrom(P, X, unit) ==
  IF X = {} THEN <<>>
  ELSE LET m == CHOOSE x \in X : \A y \in X \ {x} : Before(P, unit, x, y) IN <<m>> \o SortFrom(P, X \ {m}, unit)
SortPivots(P, unit) == IF Cardinality(P) <= 1 THEN [i \in 1..Cardinality(P) |-> CHOOSE x \in P : TRUE] ELSE SortFrom(P, P, unit)

\* -------------------------------------------------------------- expansion
\* Given n traces, columns and templates (events), the constraints are
\* [tr, col, tmpl, ix]: trace, column and event by position, and the number
\* by which a nameless trace is called.
Rejected == <<>>
Spread(n, len) == IF len = n THEN [i \in 1..n |-> i] ELSE [i \in 1..n |-> 1]
Fits(lens, m) == \A i \in 1..Len(lens) : lens[i] = m \/ lens[i] = 1
MaxLen(lens) == CHOOSE m \in {lens[i] : i \in 1..Len(lens)} : \A i \in 1..Len(lens) : lens[i] <= m
Zipped(nt, nc, np) ==
  LET m == MaxLen(<<nt, nc, np>>) IN
  IF nt = 0 \/ nc = 0 \/ np = 0 \/ ~Fits(<<nt, nc, np>>, m) THEN Rejected
  ELSE [i \in 1..m |-> [tr |-> Spread(m, nt)[i], col |-> Spread(m, nc)[i], tmpl |-> Spread(m, np)[i],
                        ix |-> IF nt = m THEN i - 1 ELSE 0]]
\* every trace with every pair of column and event
Permuted(nt, nc, np) ==
  LET m == MaxLen(<<nc, np>>) IN
  IF nt = 0 \/ nc = 0 \/ np = 0 \/ ~Fits(<<nc, np>>, m) THEN Rejected
  ELSE [k \in 1..(nt * m) |-> LET t == (k - 1) \div m + 1 i == ((k - 1) % m) + 1 IN
          [tr |-> t, col |-> Spread(m, nc)[i], tmpl |-> Spread(m, np)[i], ix |-> t - 1]]
Expand(nt, nc, np, zip) == IF zip THEN Zipped(nt, nc, np) ELSE Permuted(nt, nc, np)

\* names: a trace by its name or number, data without events by number
DataName(trace, frame, ix) == IF frame THEN "DataFrame " \o ToString(ix)
                              ELSE IF trace # "" THEN trace ELSE "Trace " \o ToString(ix)
Label(trace, frame, ix, tmpl, col) == DataName(trace, frame, ix) \o ":" \o (IF frame THEN "" ELSE tmpl \o ":") \o col
=============================================================================
