---------------------------- MODULE MC_Correlate ----------------------------
(* Every pair of small series: switches of one node on (+1) and off (-1),  *)
(* sampled, aligned and compared.                                          *)
EXTENDS Correlate, TLC, Json, IOUtils
VARIABLES a, b, X, Y
D == IF IOEnv.TV_TIER = "thorough" THEN 5 ELSE 4
Times == {2 * k - 1 : k \in 1..D}
\* an event is at unit 0 always (of another node); deltas of node 0
Series == UNION {[S0 -> {1, 2}] : S0 \in SUBSET Times}
TimesOf(f) == <<0>> \o SortInts(DOMAIN f)
ValsOf(f) == LET ts == TimesOf(f) IN [k \in 1..Len(ts) |-> IF k = 1 THEN 0 ELSE f[ts[k]] - 1]
G == Grid(UnionTimes(<<TimesOf(a), TimesOf(b)>>))
Init == /\ a \in Series /\ b \in Series
        /\ LET g == G IN X = Sample(TimesOf(a), ValsOf(a), g) /\ Y = Sample(TimesOf(b), ValsOf(b), g)
Next == UNCHANGED <<a, b, X, Y>>
Spec == Init /\ [][Next]_<<a, b, X, Y>>
\* sampling is the grid's length, in order, and values are known ones
Sampled == Len(X) = Len(G) /\ \A i \in 1..Len(X) : X[i] \in {0, 1} /\ (\A j \in 1..i : G[j] <= G[i])
Swap(P) == <<P[2], P[1]>>
\* the choice of an alignment and the scores do not depend on who is first
Symmetric == \A how \in {"agree", "pearson"} :
   /\ Alignments(how, Y, X) = {-s : s \in Alignments(how, X, Y)}
   /\ \A s \in Alignments(how, X, Y) : s # 0 =>
        Aligned(Y, X, -s) = Swap(Aligned(X, Y, s))
\* identical inputs agree in full
Identical == a = b => /\ Alignments("agree", X, Y) = {0} /\ Agree(X, Y) = Len(X)
                      /\ Alignments("pearson", X, Y) = {0}
                      /\ (~Undefined(Pearson(X, Y)) => Perfect(Pearson(X, Y)))
\* a copy shifted by whole samples that keeps all its activity agrees in full
Shifted == \A s \in 0..2 : LET Z == [i \in 1..(Len(X) + s) |-> IF i <= s THEN 0 ELSE X[i - s]]
                               X2 == [i \in 1..(Len(X) + s) |-> IF i <= Len(X) THEN X[i] ELSE 0] IN
   (Len(X) > 0 /\ X[1] = 0 /\ X[Len(X)] = 0) =>
   LET al == Aligned(X2, Z, ShiftOf(X2, Z, "front")) p == Pearson(al[1], al[2]) IN
     (~Undefined(p) => Perfect(p))
\* moved weight: the pair is weighted by its activity only
Weighted == Weight(X, Y) = Cardinality(Active(X)) + Cardinality(Active(Y)) /\ Weight(X, Y) = Weight(Y, X)
TenthsOK == LET p == Pearson(X, Y) IN ~Undefined(p) => IsTenths(p, Tenths(p)) /\ Tenths(p) \in -10..10
Emit == PrintT("@@" \o ToJson([at |-> TimesOf(a), av |-> ValsOf(a), bt |-> TimesOf(b), bv |-> ValsOf(b)]))
=============================================================================
