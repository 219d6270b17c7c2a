-------------------------------- MODULE Csv --------------------------------
(* An event's table as a CSV file and back (write_csv, read_csv).          *)
(* A table is [cols: sequence of names, times, rows: sequences of cells];  *)
(* a cell is [k: "i" number | "s" word | "n" missing, v: its text].        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---- the file: a header and one record per row, of fields as text
Quote(cell) == cell.v
Records(t) == <<<<"Time">> \o t.cols>>
              \o [i \in 1..Len(t.rows) |-> <<t.times[i]>> \o [c \in 1..Len(t.cols) |-> Quote(t.rows[i][c])]]
NoTable(t) == t.cols = <<>>

\* ---- reading it: a column of numbers only (missing cells apart) holds
\* numbers, any other holds words
Numbers(t, c) == \A i \in 1..Len(t.rows) : t.rows[i][c].k # "s"
Whole(t, c) == \A i \in 1..Len(t.rows) : t.rows[i][c].k = "i"
Missing(t, c) == \A i \in 1..Len(t.rows) : t.rows[i][c].k = "n"
BackCell(t, i, c) ==
  LET x == t.rows[i][c] IN
  IF x.k = "n" THEN x ELSE [k |-> IF Numbers(t, c) THEN "i" ELSE "s", v |-> x.v]
Back(t) == [cols |-> t.cols, times |-> t.times,
            rows |-> [i \in 1..Len(t.rows) |-> [c \in 1..Len(t.cols) |-> BackCell(t, i, c)]]]

\* ---- histories of objects and files
CONSTANTS Objects, Files, Tables
VARIABLES held, stored, hist
vars == <<held, stored, hist>>
None == [cols |-> <<>>, times |-> <<>>, rows |-> <<>>]
Absent == "absent"
CInit == held = [o \in Objects |-> None] /\ stored = [f \in Files |-> <<>>] /\ hist = <<>>
Load(o, n) == held' = [held EXCEPT ![o] = Tables[n]] /\ hist' = Append(hist, [op |-> "load", o |-> o, f |-> 0, n |-> n]) /\ UNCHANGED stored
Write(o, f) == stored' = [stored EXCEPT ![f] = <<held[o]>>] /\ hist' = Append(hist, [op |-> "write", o |-> o, f |-> f, n |-> 0]) /\ UNCHANGED held
Read(o, f) == stored[f] # <<>> /\ held' = [held EXCEPT ![o] = Back(stored[f][1])]
              /\ hist' = Append(hist, [op |-> "read", o |-> o, f |-> f, n |-> 0]) /\ UNCHANGED stored
===========================================================================
