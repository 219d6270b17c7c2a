------------------------------ MODULE Grammar ------------------------------
(* The stats expressions: tokens, the documented grammar (precedence and   *)
(* left associativity), and evaluation over numbers and over the tables of *)
(* a trace's data accessors (super-indexing).                              *)
(* Token: [k, s, n, d]  k = "num" (n/d), "id" (variable s), "acc" (s the   *)
(* accessor), "fn" (function s, followed by "lp"), "op" (s), "lp", "rp",   *)
(* "comma".                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Tok(k, s) == [k |-> k, s |-> s, n |-> 0, d |-> 1]
IsOp(ts, i, S) == i <= Len(ts) /\ ts[i].k = "op" /\ ts[i].s \in S
\* levels, from the loosest: 6 logical, 5 comparison, 4 sum, 3 product, 2 sign, 1 power
Ops(l) == CASE l = 6 -> {"&&", "||", "&", "|"}
            [] l = 5 -> {">", "<", ">=", "<=", "==", "!="}
            [] l = 4 -> {"+", "-"}
            [] l = 3 -> {"*", "/", "//", "%"}
            [] l = 1 -> {"**"}
            [] OTHER -> {}
Leaf(t) == [k |-> t.k, s |-> t.s, n |-> t.n, d |-> t.d, a |-> <<>>]
Node(k, s, a) == [k |-> k, s |-> s, n |-> 0, d |-> 1, a |-> a]

RECURSIVE Parse(_, _, _), Chain(_, _, _), Power(_, _), Args(_, _, _)
Parse(ts, i, l) ==
  CASE l = 0 -> (CASE ts[i].k = "lp" -> LET r == Parse(ts, i + 1, 6) IN [e |-> r.e, i |-> r.i + 1]
                  [] ts[i].k = "fn" -> IF ts[i + 2].k = "rp" THEN [e |-> Node("fn", ts[i].s, <<>>), i |-> i + 3]
                                       ELSE LET r == Args(ts, i + 2, <<>>) IN [e |-> Node("fn", ts[i].s, r.e), i |-> r.i]
                  [] OTHER -> [e |-> Leaf(ts[i]), i |-> i + 1])
    [] l = 1 -> Power(ts, Parse(ts, i, 0))
    [] l = 2 -> IF IsOp(ts, i, {"+", "-"})
                THEN LET r == Parse(ts, i + 1, 2) IN [e |-> Node("un", ts[i].s, <<r.e>>), i |-> r.i]
                ELSE Parse(ts, i, 1)
    [] OTHER -> Chain(ts, Parse(ts, i, l - 1), l)
\* left associative: a op b op c is (a op b) op c
Chain(ts, x, l) ==
  IF ~IsOp(ts, x.i, Ops(l)) THEN x
  ELSE LET r == Parse(ts, x.i + 1, l - 1) IN Chain(ts, [e |-> Node("bin", ts[x.i].s, <<x.e, r.e>>), i |-> r.i], l)
\* an exponent may have a sign of its own
Power(ts, x) ==
  IF ~IsOp(ts, x.i, {"**"}) THEN x
  ELSE IF IsOp(ts, x.i + 1, {"+", "-"})
       THEN LET r == Parse(ts, x.i + 2, 0) IN
            Power(ts, [e |-> Node("bin", "**", <<x.e, Node("un", ts[x.i + 1].s, <<r.e>>)>>), i |-> r.i])
       ELSE LET r == Parse(ts, x.i + 1, 0) IN Power(ts, [e |-> Node("bin", "**", <<x.e, r.e>>), i |-> r.i])
Args(ts, i, acc) == LET r == Parse(ts, i, 6) IN
  IF ts[r.i].k = "comma" THEN Args(ts, r.i + 1, Append(acc, r.e)) ELSE [e |-> Append(acc, r.e), i |-> r.i + 1]
AST(ts) == Parse(ts, 1, 6).e
WellFormed(ts) == Parse(ts, 1, 6).i = Len(ts) + 1

\* ------------------------------------------------------------ writing down
LevelOf(e) == CASE e.k = "bin" -> CHOOSE l \in {1, 3, 4, 5, 6} : e.s \in Ops(l)
                [] e.k = "un" -> 2
                [] OTHER -> 0
RECURSIVE Unparse(_, _), UnparseArgs(_)
\* tokens of e where an expression of level at most l is wanted
Unparse(e, l) ==
  IF LevelOf(e) > l THEN <<Tok("lp", "(")>> \o Unparse(e, 6) \o <<Tok("rp", ")")>>
  ELSE CASE e.k = "bin" -> LET m == LevelOf(e) IN
              Unparse(e.a[1], m) \o <<Tok("op", e.s)>> \o
              (IF m = 1 /\ e.a[2].k = "un" THEN <<Tok("op", e.a[2].s)>> \o Unparse(e.a[2].a[1], 0) ELSE Unparse(e.a[2], m - 1))
         [] e.k = "un" -> <<Tok("op", e.s)>> \o Unparse(e.a[1], 2)
         [] e.k = "fn" -> <<Tok("fn", e.s), Tok("lp", "(")>> \o UnparseArgs(e.a) \o <<Tok("rp", ")")>>
         [] OTHER -> <<[k |-> e.k, s |-> e.s, n |-> e.n, d |-> e.d]>>
UnparseArgs(a) == IF a = <<>> THEN <<>>
                  ELSE Unparse(a[1], 6) \o (IF Len(a) = 1 THEN <<>> ELSE <<Tok("comma", ",")>> \o UnparseArgs(Tail(a)))

\* ----------------------------------------------------------------- numbers
\* a number is [t, n, d]: t = "f" float, "i" integer, "b" boolean; n/d in
\* lowest terms, d a power of two (what floats hold exactly); "?" is a number
\* this specification does not determine, "e" an error, "-" a missing value
Abs(x) == IF x < 0 THEN -x ELSE x
Und == [t |-> "?", n |-> 0, d |-> 1]
Err == [t |-> "e", n |-> 0, d |-> 1]
Nan == [t |-> "-", n |-> 0, d |-> 1]
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
\* the exact rational n/d (d # 0) as a number of type t
Rat(t, n, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == GCD(Abs(n), Abs(d))
      N == (s * n) \div g
      D == (s * d) \div g
  IN IF D \in {1, 2, 4, 8, 16, 32, 64} /\ Abs(N) <= 10000 THEN [t |-> t, n |-> N, d |-> D] ELSE Und
Bool(c) == [t |-> "b", n |-> IF c THEN 1 ELSE 0, d |-> 1]
Truth(a) == a.n # 0
NumType(a, b) == IF "f" \in {a.t, b.t} THEN "f" ELSE "i"
FloorDiv(a, b) == LET n == a.n * b.d  d == a.d * b.n IN IF d < 0 THEN (-n) \div (-d) ELSE n \div d
RECURSIVE IntPow(_, _)
IntPow(n, k) == IF k = 0 THEN 1 ELSE LET r == IntPow(n, k - 1) IN IF Abs(r) > 10000 THEN 20000 ELSE n * r
RECURSIVE Bits(_, _, _)
Bits(op, a, b) == IF a = 0 /\ b = 0 THEN 0
  ELSE (IF op = "&" THEN (a % 2) * (b % 2) ELSE IF (a % 2) + (b % 2) > 0 THEN 1 ELSE 0) + 2 * Bits(op, a \div 2, b \div 2)
Less(a, b) == a.n * b.d < b.n * a.d
Op(op, a, b) ==
  IF "e" \in {a.t, b.t} THEN Err
  ELSE IF "?" \in {a.t, b.t} THEN Und
  ELSE CASE op = "+" -> Rat(NumType(a, b), a.n * b.d + b.n * a.d, a.d * b.d)
         [] op = "-" -> Rat(NumType(a, b), a.n * b.d - b.n * a.d, a.d * b.d)
         [] op = "*" -> Rat(NumType(a, b), a.n * b.n, a.d * b.d)
         [] op = "/" -> IF b.n = 0 THEN Err ELSE Rat("f", a.n * b.d, a.d * b.n)
         [] op = "//" -> IF b.n = 0 THEN Err ELSE Rat(NumType(a, b), FloorDiv(a, b), 1)
         [] op = "%" -> IF b.n = 0 THEN Err
                        ELSE Rat(NumType(a, b), a.n * b.d - FloorDiv(a, b) * b.n * a.d, a.d * b.d)
         [] op = "**" -> IF b.d # 1 \/ Abs(b.n) > 8 THEN Und
                         ELSE IF b.n >= 0
                              THEN LET n == IntPow(a.n, b.n) d == IntPow(a.d, b.n) IN
                                   IF Abs(n) > 10000 \/ d > 64 THEN Und ELSE Rat(NumType(a, b), n, d)
                              ELSE IF a.n = 0 THEN Err
                              ELSE LET n == IntPow(a.d, -b.n) d == IntPow(a.n, -b.n) IN
                                   IF Abs(n) > 10000 \/ Abs(d) > 10000 THEN Und ELSE Rat("f", n, d)
         [] op = "<" -> Bool(Less(a, b))
         [] op = ">" -> Bool(Less(b, a))
         [] op = "<=" -> Bool(~Less(b, a))
         [] op = ">=" -> Bool(~Less(a, b))
         [] op = "==" -> Bool(a.n = b.n /\ a.d = b.d)
         [] op = "!=" -> Bool(~(a.n = b.n /\ a.d = b.d))
         [] op = "&&" -> IF Truth(a) THEN b ELSE a
         [] op = "||" -> IF Truth(a) THEN a ELSE b
         [] op \in {"&", "|"} -> IF "f" \in {a.t, b.t} THEN Err
                                 ELSE IF a.n < 0 \/ b.n < 0 THEN Und
                                 ELSE IF a.t = "b" /\ b.t = "b" THEN Bool(Bits(op, a.n, b.n) = 1)
                                 ELSE Rat("i", Bits(op, a.n, b.n), 1)
Sign(op, a) == IF a.t \in {"e", "?", "-"} THEN a ELSE IF op = "+" THEN a ELSE Rat(IF a.t = "f" THEN "f" ELSE "i", -a.n, a.d)

\* the functions the checks hand to the parser
Fn(f, a) ==
  IF \E i \in 1..Len(a) : a[i].t = "e" THEN Err ELSE
  CASE f = "five" -> Rat("i", 5, 1)
    [] f \in {"dbl", "dbl2"} -> Op("*", a[1], Rat("i", 2, 1))
    [] f \in {"sub", "operator.sub"} -> Op("-", a[1], a[2])
    [] f = "third" -> a[3]
    [] f = "max" -> IF "?" \in {a[1].t, a[2].t} THEN Und ELSE IF Less(a[1], a[2]) THEN a[2] ELSE a[1]
    [] f = "operator.neg" -> Sign("-", a[1])
    [] f = "count" -> Rat("i", Len(a), 1)

RECURSIVE Eval(_, _)
\* vars: values of the variables by name
Eval(e, vars) ==
  CASE e.k = "num" -> Rat("f", e.n, e.d)
    [] e.k = "id" -> vars[e.s]
    [] e.k = "un" -> Sign(e.s, Eval(e.a[1], vars))
    [] e.k = "bin" -> Op(e.s, Eval(e.a[1], vars), Eval(e.a[2], vars))
    [] e.k = "fn" -> Fn(e.s, [i \in 1..Len(e.a) |-> Eval(e.a[i], vars)])
=============================================================================
