------------------------------- MODULE Plots -------------------------------
(* What a static plot shows: which axes there are, their titles, the       *)
(* series on each of them and the legend.                                  *)
(* A request is [data, cols, tmpls, zip, pivot, filters, w, unit, concat,  *)
(* per_line, map (labels of pivot values)] (Constraints).                  *)
EXTENDS Constraints, TLC

\* ----------------------------------------------------------------- layout
NCols(n, perLine) == IF n < perLine THEN n ELSE perLine
NRows(n, perLine) == LET k == NCols(n, perLine) IN (n + k - 1) \div k
\* row and column of the i-th axis, counted from 0
CellAt(i, n, perLine) == <<(i - 1) \div NCols(n, perLine), (i - 1) % NCols(n, perLine)>>

\* ------------------------------------------------------------------- axes
\* World: ex (constraints), pvs (their pivot values), all (sorted union)
\* mode: "concat" one axis for each constraint, "permute" one for each trace
\* and pivot value, "pivot" one for each pivot value
AxisKeys(mode, ex, all, nt) ==
  CASE mode = "concat"  -> [k \in 1..Len(ex) |-> [c |-> k, pv |-> Missing]]
    [] mode = "permute" -> [k \in 1..(nt * Len(all)) |-> [c |-> (k - 1) \div Len(all) + 1, pv |-> all[((k - 1) % Len(all)) + 1]]]
    [] mode = "pivot"   -> [k \in 1..Len(all) |-> [c |-> 0, pv |-> all[k]]]
\* <<constraint, pivot value>> pairs on an axis
OnAxis(mode, key, ex, pvs) ==
  CASE mode = "concat"  -> {<<key.c, p>> : p \in pvs[key.c]}
    [] mode = "permute" -> {<<k, key.pv>> : k \in {j \in 1..Len(ex) : ex[j].tr = key.c /\ key.pv \in pvs[j]}}
    [] mode = "pivot"   -> {<<k, key.pv>> : k \in {j \in 1..Len(ex) : key.pv \in pvs[j]}}
\* what distinguishes the entries of the legend
LegendKey(mode, pivoted, ex, k, p) ==
  CASE mode = "pivot"                -> [k |-> k, col |-> 0, tmpl |-> 0, pv |-> Missing]
    [] mode = "concat" /\ pivoted    -> [k |-> 0, col |-> 0, tmpl |-> 0, pv |-> p]
    [] OTHER                         -> [k |-> 0, col |-> ex[k].col, tmpl |-> ex[k].tmpl, pv |-> Missing]
\* -------------------------------------------- arguments left to matplotlib
\* those of these names, as registered and unregistered since
Usual == {"marker", "markersize", "markevery", "linestyle", "linewidth", "drawstyle"}
RECURSIVE Forwarded(_, _)
Forwarded(ops, set) ==
  IF ops = <<>> THEN set
  ELSE Forwarded(Tail(ops), IF Head(ops).op = "register" THEN set \cup {Head(ops).arg} ELSE set \ {Head(ops).arg})
=============================================================================
