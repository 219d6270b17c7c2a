------------------------------- MODULE MC_Csv -------------------------------
(* All histories of two objects and a file, and what they settle: reading   *)
(* gives the times and columns written; a table of one kind of cell per     *)
(* column is read as it was; reading twice is reading once.                 *)
EXTENDS Csv, Json, TLCExt, IOUtils
I(v) == [k |-> "i", v |-> v]
S(v) == [k |-> "s", v |-> v]
N == [k |-> "n", v |-> ""]
MCTables == << [cols |-> <<"a", "w">>, times |-> <<"1.5", "2.25">>, rows |-> <<<<I("3"), S("x y")>>, <<I("-4"), S("q")>>>>],
               [cols |-> <<"m", "e">>, times |-> <<"0.1", "0.2", "7.0">>, rows |-> <<<<I("5"), N>>, <<S("mix"), I("8")>>, <<N, N>>>>] >>
Deep == IF IOEnv.TV_TIER = "thorough" THEN 5 ELSE 4
Init == CInit
Next == /\ Len(hist) < Deep
        /\ \/ \E o \in Objects, n \in DOMAIN Tables : Load(o, n)
           \/ \E o \in Objects, f \in Files : Write(o, f) \/ Read(o, f)
Spec == Init /\ [][Next]_vars
Same(t) == \A c \in 1..Len(t.cols) : Numbers(t, c) \/ \A i \in 1..Len(t.rows) : t.rows[i][c].k # "i"
Kept == \A f \in Files : stored[f] # <<>> =>
          LET t == stored[f][1] b == Back(t) IN
          /\ b.cols = t.cols /\ b.times = t.times /\ Len(b.rows) = Len(t.rows)
          /\ (Same(t) => b = t)
          /\ Back(b) = b
          /\ Len(Records(t)) = Len(t.rows) + 1
          /\ \A r \in 1..Len(Records(t)) : Len(Records(t)[r]) = Len(t.cols) + 1
\* what is read comes from what was written last
Fresh == Len(hist) > 0 /\ hist[Len(hist)].op = "read" =>
           \E i \in 1..Len(hist) : hist[i].op = "write" /\ hist[i].f = hist[Len(hist)].f
Emit == Len(hist) = Deep => PrintT("@@" \o ToJson([hist |-> hist, tables |-> Tables]))
=============================================================================
