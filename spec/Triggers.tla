----------------------------- MODULE Triggers -----------------------------
(* Triggers over event tables, topologies and their aggregation.           *)
(* A cell is [k, i, s]: k = "i" the integer i, "s" the text s, "n" missing *)
(* A table is a sequence of rows [t, c]: a time and cells by column (a     *)
(* column a row lacks reads missing).                                      *)
(* A trigger is [ev, pivot, filters, val]: filters a sequence of           *)
(* [col, kind, vals, fn]; val is [kind, cell, col].                        *)
EXTENDS Integers, Sequences, FiniteSets

I(n) == [k |-> "i", i |-> n, s |-> ""]
S(x) == [k |-> "s", i |-> 0, s |-> x]
Missing == [k |-> "n", i |-> 0, s |-> ""]
CellOf(row, col) == IF col \in DOMAIN row.c THEN row.c[col] ELSE Missing

\* ---------------------------------------------------------------- filters
Pred(fn, c) == CASE fn = "ge2"  -> c.k = "i" /\ c.i >= 2
                 [] fn = "even" -> c.k = "i" /\ c.i % 2 = 0
                 [] fn = "isa"  -> c.k = "s" /\ c.s = "a"
                 [] fn = "none" -> FALSE
\* rows of the pivot value, then each filter: a predicate with a memory (fn =
\* "after1": the value seen before this one was 1) sees every row of the
\* pivot value once, in order
OfPivot(table, pivot, pv) == SelectSeq(table, LAMBDA r : CellOf(r, pivot) = pv)
Passes(rows, i, f) ==
  LET c == CellOf(rows[i], f.col) IN
  CASE f.kind = "fn" /\ f.fn = "after1" -> i > 1 /\ CellOf(rows[i - 1], f.col) = I(1)
    [] f.kind = "fn" -> Pred(f.fn, c)
    [] OTHER -> \E j \in 1..Len(f.vals) : f.vals[j] = c       \* a value, or any of a list
RECURSIVE Firing(_, _, _)
Firing(rows, i, fs) ==
  IF i > Len(rows) THEN <<>>
  ELSE (IF \A j \in 1..Len(fs) : Passes(rows, i, fs[j]) THEN <<i>> ELSE <<>>) \o Firing(rows, i + 1, fs)
\* the series: a sequence of [t, v]
Generate(table, tr, pv) ==
  LET rows == OfPivot(table, tr.pivot, pv)
      hit == Firing(rows, 1, tr.filters)
  IN [k \in 1..Len(hit) |->
       [t |-> rows[hit[k]].t,
        v |-> IF tr.val.kind = "const" THEN tr.val.cell ELSE CellOf(rows[hit[k]], tr.val.col)]]

\* --------------------------------------------------------------- topology
\* a topology is a sequence of levels [name, groups]; groups are sequences of
\* nodes; adding to a level that exists appends
AddTo(levels, name, groups) ==
  IF \E i \in 1..Len(levels) : levels[i].name = name
  THEN [i \in 1..Len(levels) |-> IF levels[i].name = name THEN [levels[i] EXCEPT !.groups = @ \o groups] ELSE levels[i]]
  ELSE Append(levels, [name |-> name, groups |-> groups])
NodesOf(levels) == UNION {UNION {{levels[i].groups[g][n] : n \in 1..Len(levels[i].groups[g])} :
                                 g \in 1..Len(levels[i].groups)} : i \in 1..Len(levels)}
\* only nodes that are integers have an order of their own
RECURSIVE SortInts(_)
SortInts(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y
                                       IN <<m>> \o SortInts(X \ {m})
GroupsOf(levels, name) ==
  IF name = "all" THEN <<SortInts(NodesOf(levels))>>
  ELSE levels[CHOOSE i \in 1..Len(levels) : levels[i].name = name].groups

\* ------------------------------------------------------------ aggregation
\* common times: those of every row of every triggering event
SortedTimes(tables, trs) == SortInts(UNION {{tables[trs[i].ev][r].t : r \in 1..Len(tables[trs[i].ev])} : i \in 1..Len(trs)})
At(series, t) == LET H == {k \in 1..Len(series) : series[k].t = t} IN
                 IF H = {} THEN <<>> ELSE <<series[CHOOSE k \in H : TRUE].v.i>>
\* value of a node at a time: of the last of the triggers that fires then
RECURSIVE LastAt(_, _, _)
LastAt(gens, i, t) == IF i = 0 THEN 0
                      ELSE LET a == At(gens[i], t) IN IF a # <<>> THEN a[1] ELSE LastAt(gens, i - 1, t)
Base(tables, trs, node) ==
  LET ts == SortedTimes(tables, trs)
      gens == [i \in 1..Len(trs) |-> Generate(tables[trs[i].ev], trs[i], I(node))]
  IN [k \in 1..Len(ts) |-> LastAt(gens, Len(trs), ts[k])]

RECURSIVE Total(_)
Total(x) == IF x = <<>> THEN 0 ELSE Head(x) + Total(Tail(x))
Agg(fn, x) ==
  CASE fn = "none"   -> x
    [] fn = "double" -> [i \in 1..Len(x) |-> 2 * x[i]]
    [] fn = "cumsum" -> [i \in 1..Len(x) |-> Total(SubSeq(x, 1, i))]
    [] fn = "clip"   -> [i \in 1..Len(x) |-> IF x[i] > 1 THEN 1 ELSE IF x[i] < 0 THEN 0 ELSE x[i]]
    [] fn = "sum"    -> <<Total(x)>>
    [] fn = "scaled" -> [i \in 1..Len(x) |-> 3 * x[i]]
RECURSIVE AddSeqs(_)
AddSeqs(xs) == IF Len(xs) = 1 THEN xs[1]
               ELSE LET r == AddSeqs(Tail(xs)) IN [i \in 1..Len(xs[1]) |-> xs[1][i] + r[i]]
\* one result per group: sum over its members of the aggregate of their base
Result(base(_), fn, group) == AddSeqs([n \in 1..Len(group) |-> Agg(fn, base(group[n]))])
===========================================================================
