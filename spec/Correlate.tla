----------------------------- MODULE Correlate -----------------------------
(* The correlator: two aggregations sampled on the uniform grid of their   *)
(* common times, aligned by their first or their last activity, compared   *)
(* group by group.  Times are in units of half the grid's delta; the first *)
(* event is at an even unit (0) and all others at odd ones, so that no     *)
(* sample is taken at the very time of a later event.                      *)
EXTENDS Triggers, SequencesExt

NaN == -9999
Abs(n) == IF n < 0 THEN -n ELSE n
UnionTimes(xs) == SortInts(UNION {{xs[i][k] : k \in 1..Len(xs[i])} : i \in 1..Len(xs)})
Grid(ts) == IF ts = <<>> THEN <<>> ELSE
            [k \in 1..((ts[Len(ts)] - ts[1] + 1) \div 2) |-> ts[1] + 2 * (k - 1)]
\* value of a series (times ts, values vs) at t: the last one known
PadAt(ts, vs, t) == LET K == {k \in 1..Len(ts) : ts[k] <= t} IN
                    IF K = {} THEN NaN ELSE vs[CHOOSE k \in K : \A j \in K : j <= k]
Sample(ts, vs, grid) == [g \in 1..Len(grid) |-> PadAt(ts, vs, grid[g])]

Active(x) == {i \in 1..Len(x) : x[i] # NaN /\ x[i] # 0}
MinOf(X) == CHOOSE i \in X : \A j \in X : i <= j
MaxOf(X) == CHOOSE i \in X : \A j \in X : j <= i
Delay(x, s) == [i \in 1..Len(x) |-> IF i <= s THEN NaN ELSE x[i - s]]
ShiftOf(x, y, mode) ==
  IF Active(x) = {} \/ Active(y) = {} THEN 0
  ELSE IF mode = "front" THEN MinOf(Active(x)) - MinOf(Active(y)) ELSE MaxOf(Active(x)) - MaxOf(Active(y))
Aligned(x, y, s) == IF s > 0 THEN <<x, Delay(y, s)>> ELSE <<Delay(x, -s), y>>

SumOver(n, f(_)) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..n |-> i])
Both(x, y) == {i \in 1..Len(x) : x[i] # NaN /\ y[i] # NaN}
\* number of samples that agree / everything there is to see
Agree(x, y) == Cardinality({i \in Both(x, y) : x[i] = y[i]})
Trail(x, y) == SumOver(Len(x), LAMBDA i : i * (3 * (IF x[i] = NaN THEN 7 ELSE x[i]) + 5 * (IF y[i] = NaN THEN 7 ELSE y[i])))
\* Pearson's r: numerator and the two variances (times n squared)
Pearson(x, y) ==
  LET B == Both(x, y)
      S1(f(_)) == SumOver(Len(x), LAMBDA i : IF i \in B THEN f(i) ELSE 0)
      n == Cardinality(B)
      sx == S1(LAMBDA i : x[i])
      sy == S1(LAMBDA i : y[i])
  IN [n |-> n, num |-> n * S1(LAMBDA i : x[i] * y[i]) - sx * sy,
      dx |-> n * S1(LAMBDA i : x[i] * x[i]) - sx * sx, dy |-> n * S1(LAMBDA i : y[i] * y[i]) - sy * sy]
Undefined(p) == p.n < 2 \/ p.dx = 0 \/ p.dy = 0
\* q tenths of r, rounded towards zero: q^2 D <= 100 num^2 < (q+1)^2 D
IsTenths(p, q) == LET d == p.dx * p.dy IN
  /\ (Abs(q) - 1) * (IF q = 0 THEN 0 ELSE Abs(q) - 1) * d <= 100 * p.num * p.num
  /\ 100 * p.num * p.num <= (Abs(q) + 1) * (Abs(q) + 1) * d
  /\ (q > 0 => p.num > 0) /\ (q < 0 => p.num < 0)
Tenths(p) == LET q == MaxOf({k \in 0..10 : k * k * p.dx * p.dy <= 100 * p.num * p.num}) IN IF p.num < 0 THEN -q ELSE q
Perfect(p) == ~Undefined(p) /\ p.num > 0 /\ p.num * p.num = p.dx * p.dy

Weight(x, y) == Cardinality(Active(x)) + Cardinality(Active(y))
\* the alignments a correlator may choose: by the activity of everything
Score(how, x, y) == IF how = "agree" THEN Agree(x, y) ELSE Trail(x, y)
Alignments(how, x, y) ==
  LET f == ShiftOf(x, y, "front") b == ShiftOf(x, y, "back")
      fa == Aligned(x, y, f) ba == Aligned(x, y, b) IN
  IF how # "pearson" THEN {IF Score(how, fa[1], fa[2]) >= Score(how, ba[1], ba[2]) THEN f ELSE b}
  ELSE LET t(a) == LET p == Pearson(a[1], a[2]) IN IF Undefined(p) THEN 0 ELSE Tenths(p) IN
       IF t(fa) > t(ba) + 1 THEN {f} ELSE IF t(ba) > t(fa) + 1 THEN {b} ELSE {f, b}
============================================================================
