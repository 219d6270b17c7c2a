------------------------------ MODULE Signals ------------------------------
(* What a signal asks for: "event:column" or "event:column:colour", the    *)
(* colour as three numbers separated by commas, decimal or with 0x.        *)
EXTENDS Constraints
Bad == [ok |-> FALSE, event |-> "", column |-> "", color |-> <<>>]
\* pieces of cs between separators
Cuts(cs, sep) == {0, Len(cs) + 1} \cup {i \in 1..Len(cs) : cs[i] = sep}
NextCut(C, i) == CHOOSE j \in C : j > i /\ \A k \in C : k > i => j <= k
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(cs, C, i) == IF i = Len(cs) + 1 THEN <<>> ELSE LET j == NextCut(C, i) IN <<SubSeq(cs, i + 1, j - 1)>> \o PiecesFrom(cs, C, j)
Pieces(cs, sep) == PiecesFrom(cs, Cuts(cs, sep), 0)
IsHexNum(w) == Len(w) > 2 /\ w[1] = "0" /\ w[2] = "x" /\ \A i \in 3..Len(w) : w[i] \in HexDig
IsNumber(w) == All(w, Digits) \/ IsHexNum(w)
Number(w) == IF IsHexNum(w) THEN NatOf(SubSeq(w, 3, Len(w)), 16) ELSE NatOf(w, 10)
Parsed(cs) ==
  LET p == Pieces(cs, ":") IN
  IF Len(p) < 2 THEN Bad
  ELSE IF p[1] = <<>> \/ p[2] = <<>> THEN Bad
  ELSE LET plain == [ok |-> TRUE, event |-> Join(p[1]), column |-> Join(p[2]), color |-> <<>>] IN
       IF Len(p) = 2 \/ (Len(p) = 3 /\ p[3] = <<>>) THEN plain
       ELSE IF Len(p) > 3 THEN Bad
       ELSE LET w == Pieces(p[3], ",") IN
            IF Len(w) > 3 \/ \E i \in 1..Len(w) : ~IsNumber(w[i]) THEN Bad
            ELSE [plain EXCEPT !.color = [i \in 1..Len(w) |-> Number(w[i])]]
\* the colour as it is meant to be: three values of at most 255
IsRgb(c) == Len(c) = 3 /\ \A i \in 1..3 : c[i] <= 255
=============================================================================
