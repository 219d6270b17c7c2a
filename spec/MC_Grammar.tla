----------------------------- MODULE MC_Grammar -----------------------------
(* Every expression tree of bounded depth: written down with as few        *)
(* parentheses as the documented precedence allows it reads back as the    *)
(* very tree, and chains of one level group to the left.                   *)
EXTENDS Grammar, TLC, Json, IOUtils
VARIABLES tree
Num(n) == Leaf([k |-> "num", s |-> "", n |-> n, d |-> 1])
BinOps == IF IOEnv.TV_TIER = "thorough" THEN {"||", "&&", "|", "&", "<", "==", "+", "-", "*", "//", "%", "**"}
          ELSE {"&&", "|", "<", "-", "//", "*", "**"}
T0 == {Num(2), Num(3), Leaf(Tok("id", "x"))}
Grow(T, U) == {Node("bin", o, <<a, b>>) : o \in BinOps, a \in T, b \in U} \cup {Node("un", "-", <<a>>) : a \in T}
T1 == T0 \cup Grow({Num(2), Leaf(Tok("id", "x"))}, {Num(3)})
T2 == Grow(T1, T1) \cup {Node("fn", "sub", <<a, b>>) : a \in T1, b \in {Num(2)}} \cup {Node("fn", "five", <<>>)}
Init == tree \in T2
Next == UNCHANGED tree
Spec == Init /\ [][Next]_tree
Text == Unparse(tree, 6)
ReadsBack == WellFormed(Text) /\ AST(Text) = tree
\* parentheses around everything change nothing
Wrapped == AST(<<Tok("lp", "(")>> \o Text \o <<Tok("rp", ")")>>) = tree
RECURSIVE Paren(_)
Paren(e) == IF e.a = <<>> /\ e.k # "fn" THEN Unparse(e, 0)
            ELSE CASE e.k = "bin" -> <<Tok("lp", "(")>> \o Paren(e.a[1]) \o <<Tok("op", e.s)>> \o Paren(e.a[2]) \o <<Tok("rp", ")")>>
                   [] e.k = "un" -> <<Tok("lp", "("), Tok("op", e.s)>> \o Paren(e.a[1]) \o <<Tok("rp", ")")>>
                   [] OTHER -> Unparse(e, 6)
FullyParenthesised == AST(Paren(tree)) = tree
\* a op b op c of one level is (a op b) op c, whatever the operators
LeftAssociative == \A l \in {3, 4, 5, 6} : (tree.k = "bin" /\ tree.s \in Ops(l)) =>
  \A o \in Ops(l) : LET ts == Text \o <<Tok("op", o)>> \o Unparse(Num(3), 0) IN AST(ts) = Node("bin", o, <<tree, Num(3)>>)
Emit == PrintT("@@" \o ToJson([tree |-> Text]))
=============================================================================
