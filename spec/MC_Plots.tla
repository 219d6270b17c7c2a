------------------------------ MODULE MC_Plots ------------------------------
(* Placing the series of every small set of constraints one by one on the  *)
(* axes of every layout.                                                   *)
EXTENDS Plots, Json, IOUtils
VARIABLES nt, nc, has, mode, perLine, todo, placed, world
Big == IOEnv.TV_TIER = "thorough"
PV == {I(0), I(1), I(2)}
vars == <<nt, nc, has, mode, perLine, todo, placed, world>>
Shapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>} \cup (IF Big THEN {<<3, 2>>} ELSE {})
\* pivot mode and concatenation use the zipped constraints of equal lists or
\* one of them single
ZipOk(t, k) == t = k \/ t = 1 \/ k = 1
\* what follows from the request, evaluated once
Ex == world.ex
Pvs == world.pvs
AllP == world.all
Keys == world.keys
World == LET ex == TLCEval(Expand(nt, nc, nc, mode = "pivot" \/ mode = "concat"))
             pvs == TLCEval([k \in 1..Len(ex) |-> has[ex[k].tr, ex[k].tmpl]])
             all == TLCEval(SortPivots(UNION {pvs[k] : k \in 1..Len(ex)}, 1))
         IN [ex |-> ex, pvs |-> pvs, all |-> all, keys |-> AxisKeys(mode, ex, all, nt)]
Init == /\ \E s \in Shapes : nt = s[1] /\ nc = s[2]
        /\ has \in [(1..nt) \X (1..nc) -> SUBSET (IF nt * nc > 3 /\ ~Big THEN {I(0), I(1)} ELSE PV)]
        /\ mode \in {"pivot", "permute", "concat"}
        /\ perLine \in 1..4 /\ placed = <<>>
        /\ (mode # "permute" => ZipOk(nt, nc))
        /\ world = TLCEval(World)
        /\ todo = UNION {{<<k, p>> : p \in Pvs[k]} : k \in 1..Len(Ex)}
\* the axis a series goes to, found by what it is
Home(k, p) == CASE mode = "concat" -> k
                [] mode = "permute" -> (Ex[k].tr - 1) * Len(AllP) + (CHOOSE i \in 1..Len(AllP) : AllP[i] = p)
                [] mode = "pivot" -> CHOOSE i \in 1..Len(AllP) : AllP[i] = p
\* (any order would do: take the first constraint, the smallest value)
PlaceFirst == \E x \in todo : /\ \A y \in todo : y[1] > x[1] \/ (y[1] = x[1] /\ y[2].i >= x[2].i)
                              /\ todo' = todo \ {x}
                              /\ placed' = Append(placed, [axis |-> Home(x[1], x[2]), c |-> x[1], pv |-> x[2]])
                              /\ UNCHANGED <<nt, nc, has, mode, perLine, world>>
Spec == Init /\ [][PlaceFirst]_vars
Done == todo = {}
N == Len(Keys)
Agrees == Done => \A a \in 1..N : {<<placed[i].c, placed[i].pv>> : i \in {j \in 1..Len(placed) : placed[j].axis = a}} = OnAxis(mode, Keys[a], Ex, Pvs)
Once == Done => \A i, j \in 1..Len(placed) : i # j => placed[i] # placed[j]
Everything == Done => {<<placed[i].c, placed[i].pv>> : i \in 1..Len(placed)} = UNION {{<<k, p>> : p \in Pvs[k]} : k \in 1..Len(Ex)}
Inside == \A i \in 1..Len(placed) : placed[i].axis \in 1..N
OwnCell == N > 0 => /\ \A i, j \in 1..N : i # j => CellAt(i, N, perLine) # CellAt(j, N, perLine)
                    /\ \A i \in 1..N : CellAt(i, N, perLine)[1] < NRows(N, perLine) /\ CellAt(i, N, perLine)[2] < NCols(N, perLine)
                    /\ NRows(N, perLine) * NCols(N, perLine) - N < NCols(N, perLine)
                    /\ NCols(N, perLine) <= perLine
Emit == Done => PrintT("@@" \o ToJson([nt |-> nt, nc |-> nc, mode |-> mode, perLine |-> perLine,
           has |-> [t \in 1..nt |-> [k \in 1..nc |-> has[t, k]]]]))
============================================================================
