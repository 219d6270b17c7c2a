------------------------------- MODULE Super -------------------------------
(* Super-indexing: the data accessors event:column of expressions, aligned *)
(* on the times of everything a parser has accessed.                       *)
(* A world is [rows, cols, pivot, lo, hi, ended, filters]: rows by event,  *)
(* each [t, c] (cells by column, missing ones left out), the columns and   *)
(* the pivot ("" none) of each event, the window lo..hi (ended = FALSE: to *)
(* the end), filters a sequence of [col, vals].                            *)
EXTENDS Grammar

Has(row, col) == col \in DOMAIN row.c
InWindow(w, t) == t >= w.lo /\ (w.ended => t <= w.hi)
Kept(w, ev, row) ==
  /\ InWindow(w, row.t)
  /\ \A i \in 1..Len(w.filters) : LET f == w.filters[i] IN
       (\E j \in 1..Len(w.cols[ev]) : w.cols[ev][j] = f.col) => \E j \in 1..Len(f.vals) : f.vals[j] = row.c[f.col]
RowsOf(w, ev) == SelectSeq(w.rows[ev], LAMBDA r : Kept(w, ev, r))
Times(w, evs) == UNION {{RowsOf(w, ev)[i].t : i \in 1..Len(RowsOf(w, ev))} : ev \in evs}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
NoPivot == "NO_PIVOT"
LabelOf(w, ev, row) == IF w.pivot[ev] = "" THEN NoPivot ELSE ToString(row.c[w.pivot[ev]])
Labels(w, ev) == LET rs == RowsOf(w, ev) IN {LabelOf(w, ev, rs[i]) : i \in 1..Len(rs)}
\* the value of ev:col for a pivot value at a time: the last one known
ValueAt(w, ev, col, lab, t) ==
  LET rs == RowsOf(w, ev)
      K == {i \in 1..Len(rs) : rs[i].t <= t /\ LabelOf(w, ev, rs[i]) = lab /\ Has(rs[i], col)}
  IN IF K = {} THEN Nan ELSE Rat("i", rs[CHOOSE i \in K : \A j \in K : j <= i].c[col], 1)
Column(w, ev, col, times) == [lab \in Labels(w, ev) |-> [k \in 1..Len(times) |-> ValueAt(w, ev, col, lab, times[k])]]

\* ------------------------------------------- reindexing otherwise than by default
\* o = [method, limit (0: none), fill]: padding is the default, however far
\* the reindexing reaches, as long as what it leaves is filled
Usual(o) == o.fill /\ o.method = "pad"
\* the cells a time without a row may show: the neighbouring rows' (or none)
Neighbours(w, ev, col, lab, t) ==
  LET rs == RowsOf(w, ev)
      mine == {i \in 1..Len(rs) : LabelOf(w, ev, rs[i]) = lab /\ Has(rs[i], col)}
      B == {i \in mine : rs[i].t <= t}
      A == {i \in mine : rs[i].t >= t}
  IN (IF B = {} THEN {} ELSE {CHOOSE i \in B : \A j \in B : j <= i})
     \cup (IF A = {} THEN {} ELSE {CHOOSE i \in A : \A j \in A : j >= i})
\* may ev:col show value v for lab at time t
MayShow(w, ev, col, lab, t, v, o) ==
  LET rs == RowsOf(w, ev)
      near == Neighbours(w, ev, col, lab, t)
      own == {i \in near : rs[i].t = t}
      is(i) == v.t \notin {"?", "-"} /\ v.d = 1 /\ v.n = rs[i].c[col]
      before == {i \in near : rs[i].t < t}
      rows == \E i \in 1..Len(rs) : rs[i].t = t /\ LabelOf(w, ev, rs[i]) = lab
  IN IF own # {} THEN \E i \in own : is(i)
     ELSE IF v.t = "-" THEN o.fill => before = {}
     ELSE \E i \in IF o.method = "pad" THEN before ELSE near : is(i)

\* ------------------------------------------------------------------ values
\* [k, v]: k = "t" a table (numbers by label and time), "v" a vector (numbers
\* by label), "n" a number
Tab(v) == [k |-> "t", v |-> TLCEval(v)]
Vec(v) == [k |-> "v", v |-> TLCEval(v)]
Num1(v) == [k |-> "n", v |-> v]
ErrV == Num1(Err)
UndV == Num1(Und)                 \* whatever pandas makes of it
Compare == {"<", ">", "<=", ">=", "==", "!="}
\* one element
Elem(op, a, b) ==
  IF "?" \in {a.t, b.t} \/ "e" \in {a.t, b.t} THEN Und
  ELSE IF "-" \in {a.t, b.t} THEN (IF op \in Compare THEN Bool(op = "!=") ELSE IF op \in {"**", "&", "|"} THEN Und ELSE Nan)
  ELSE IF op \in {"&", "|"} THEN (IF a.t = "b" /\ b.t = "b" THEN Op(op, a, b) ELSE Und)
  ELSE IF op \notin Compare /\ "b" \in {a.t, b.t} THEN Und
  ELSE IF op \in {"/", "//", "%"} /\ b.n = 0 THEN Und
  ELSE IF op = "**" /\ (b.n < 0 \/ b.d # 1) THEN Und
  ELSE Op(op, a, b)
Map(f(_), x) == IF x.k = "t" THEN Tab([l \in DOMAIN x.v |-> [i \in 1..Len(x.v[l]) |-> f(x.v[l][i])]])
                ELSE IF x.k = "v" THEN Vec([l \in DOMAIN x.v |-> f(x.v[l])]) ELSE Num1(f(x.v))
OpV(op, x, y) ==
  IF UndV \in {x, y} THEN UndV
  ELSE IF x.k = "n" /\ y.k = "n" THEN Num1(Op(op, x.v, y.v))
  ELSE IF "n" \in {x.k, y.k} /\ (IF x.k = "n" THEN x.v.t ELSE y.v.t) = "e" THEN ErrV
  ELSE IF op \in {"&&", "||"} THEN ErrV
  ELSE IF x.k = "n" THEN Map(LAMBDA c : Elem(op, x.v, c), y)
  ELSE IF y.k = "n" THEN Map(LAMBDA c : Elem(op, c, y.v), x)
  ELSE LET D == DOMAIN x.v \cup DOMAIN y.v
           B == DOMAIN x.v \cap DOMAIN y.v
       IN IF op \notin {"+", "-", "*", "/", "//", "%"} /\ D # B THEN UndV
          ELSE IF x.k = "t" /\ y.k = "t" THEN
             LET n == IF D = {} THEN 0 ELSE LET l == CHOOSE l \in D : TRUE IN Len(IF l \in DOMAIN x.v THEN x.v[l] ELSE y.v[l]) IN
             Tab([l \in D |-> [i \in 1..n |-> IF l \in B THEN Elem(op, x.v[l][i], y.v[l][i]) ELSE Nan]])
          ELSE IF x.k = "v" /\ y.k = "v" THEN Vec([l \in D |-> IF l \in B THEN Elem(op, x.v[l], y.v[l]) ELSE Nan])
          ELSE IF D # B THEN UndV
          ELSE IF x.k = "t" THEN Tab([l \in D |-> [i \in 1..Len(x.v[l]) |-> Elem(op, x.v[l][i], y.v[l])]])
          ELSE Tab([l \in D |-> [i \in 1..Len(y.v[l]) |-> Elem(op, x.v[l], y.v[l][i])]])
\* reductions of a table's columns; missing values do not count
Known(s) == SelectSeq(s, LAMBDA c : c.t # "-")
RECURSIVE Reduce(_, _)
Reduce(f, s) ==
  IF Len(s) = 1 THEN s[1]
  ELSE LET r == Reduce(f, Tail(s)) a == s[1] IN
       IF "?" \in {a.t, r.t} \/ "b" \in {a.t, r.t} THEN Und
       ELSE IF f = "numpy.sum" THEN Op("+", a, r)
       ELSE IF f = "numpy.max" THEN (IF Less(a, r) THEN r ELSE a) ELSE (IF Less(a, r) THEN a ELSE r)
Reducer(f, s) == LET k == Known(s) IN
  IF k = <<>> THEN (IF f = "numpy.sum" THEN Rat("i", 0, 1) ELSE Nan)
  ELSE IF k[1].t = "b" THEN Und ELSE Reduce(f, k)
FnV(f, a) ==
  IF \E i \in 1..Len(a) : a[i] = UndV THEN UndV
  ELSE IF \E i \in 1..Len(a) : a[i].k = "n" /\ a[i].v.t = "e" THEN ErrV
  ELSE IF f \in {"numpy.sum", "numpy.max", "numpy.min"} THEN Vec([l \in DOMAIN a[1].v |-> Reducer(f, a[1].v[l])])
  ELSE IF f = "dbl" THEN OpV("*", a[1], Num1(Rat("i", 2, 1)))
  ELSE OpV("-", a[1], a[2])                                   \* "sub"
SignV(op, x) == IF op = "+" \/ x = UndV THEN x ELSE IF x.k = "n" THEN Num1(Sign("-", x.v))
                ELSE Map(LAMBDA c : IF c.t = "b" THEN Und ELSE Sign("-", c), x)
RECURSIVE EvalV(_, _)
\* acc: what each accessor stands for
EvalV(e, acc) ==
  CASE e.k = "num" -> Num1(Rat("f", e.n, e.d))
    [] e.k = "acc" -> acc[e.s]
    [] e.k = "un" -> SignV(e.s, EvalV(e.a[1], acc))
    [] e.k = "bin" -> OpV(e.s, EvalV(e.a[1], acc), EvalV(e.a[2], acc))
    [] e.k = "fn" -> FnV(e.s, [i \in 1..Len(e.a) |-> EvalV(e.a[i], acc)])
============================================================================
