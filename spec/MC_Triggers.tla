---------------------------- MODULE MC_Triggers ----------------------------
(* Every small table, filter, kind of value and pivot value.               *)
EXTENDS Triggers, TLC, Json, IOUtils
VARIABLES table, tr, pv, seen, out
N == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3
Row(t, p, v) == [t |-> t, c |-> [p |-> I(p), v |-> I(v)]]
F(kind, vals, fn) == [col |-> "v", kind |-> kind, vals |-> vals, fn |-> fn]
Filters == { <<>>, <<F("value", <<I(1)>>, "")>>, <<F("list", <<I(1), I(2)>>, "")>>, <<F("list", <<>>, "")>>,
             <<F("fn", <<>>, "even")>>, <<F("fn", <<>>, "after1")>>,
             <<F("fn", <<>>, "ge2"), F("value", <<I(2)>>, "")>>, <<F("value", <<I(1)>>, ""), [F("value", <<I(1)>>, "") EXCEPT !.col = "p"]>> }
Vals == { [kind |-> "const", cell |-> I(7), col |-> ""], [kind |-> "col", cell |-> Missing, col |-> "v"] }
Init == /\ \E n \in 0..N : \E ps \in [1..n -> {0, 1}] : \E vs \in [1..n -> {1, 2, 3}] :
             table = [i \in 1..n |-> Row(i, ps[i], vs[i])]
        /\ \E f \in Filters : \E v \in Vals : tr = [ev |-> "ev_a", pivot |-> "p", filters |-> f, val |-> v]
        /\ pv \in {0, 1, 2} /\ seen = 0 /\ out = <<>>
\* operational: scan the table row by row
Prev(i) == LET X == {j \in 1..(i - 1) : table[j].c.p = I(pv)} IN
           IF X = {} THEN Missing ELSE table[CHOOSE j \in X : \A x \in X : x <= j].c.v
Ok(i, f) == CASE f.kind = "fn" /\ f.fn = "after1" -> Prev(i) = I(1)
              [] f.kind = "fn" -> Pred(f.fn, table[i].c[f.col])
              [] OTHER -> \E j \in 1..Len(f.vals) : f.vals[j] = table[i].c[f.col]
Scan == /\ seen < Len(table) /\ seen' = seen + 1
        /\ LET i == seen + 1 r == table[i] IN
           out' = IF r.c.p = I(pv) /\ \A j \in 1..Len(tr.filters) : Ok(i, tr.filters[j])
                  THEN Append(out, [t |-> r.t, v |-> IF tr.val.kind = "const" THEN tr.val.cell ELSE r.c.v])
                  ELSE out
        /\ UNCHANGED <<table, tr, pv>>
Spec == Init /\ [][Scan]_<<table, tr, pv, seen, out>>
Agrees == seen = Len(table) => out = Generate(table, tr, I(pv))
OwnPivotOnly == \A k \in 1..Len(out) : table[out[k].t].c.p = I(pv)
Emit == seen = Len(table) => PrintT("@@" \o ToJson([table |-> table, tr |-> tr, pv |-> pv]))
============================================================================
