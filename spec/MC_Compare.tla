----------------------------- MODULE MC_Compare -----------------------------
(* Runs whose events are recorded one at a time; a page of plots is kept   *)
(* up to date with each: the lines of every run by zone, and the runs that *)
(* have a histogram.                                                       *)
EXTENDS Compare, Json, IOUtils
VARIABLES runs, th, cur, ctl, n
vars == <<runs, th, cur, ctl, n>>
Big == IOEnv.TV_TIER = "thorough"
R == 1..2
Z == 0..1
N == IF Big THEN 6 ELSE 5
Empty(r) == [name |-> IF r = 1 THEN "a" ELSE "b", temps |-> <<>>, gov |-> <<>>, pid |-> <<>>, weights |-> <<>>, ev |-> <<>>]
Init == runs = [r \in R |-> Empty(r)] /\ th = [r \in R |-> [z \in Z \cup {-1} |-> <<>>]] /\ cur = th /\ ctl = th /\ n = 0
Put(page, r, z, p) == [page EXCEPT ![r][z] = Append(@, p), ![r][-1] = Append(@, p)]
Temp(r, z) == /\ runs' = [runs EXCEPT ![r].temps = Append(@, [t |-> n, zone |-> z, v |-> 40000 + n])]
              /\ th' = Put(th, r, z, <<n, 40000 + n>>) /\ UNCHANGED <<cur, ctl>>
Gov(r, z) == /\ runs' = [runs EXCEPT ![r].gov = Append(@, [t |-> n, zone |-> z, cur |-> 50000 + n, delta |-> 7 * n - 10, req |-> <<n + 1, 2>>, granted |-> <<n>>])]
             /\ cur' = Put(cur, r, z, <<n, 50000 + n>>) /\ ctl' = Put(ctl, r, z, <<n, 50000 + n + 7 * n - 10>>) /\ UNCHANGED th
Next == n < N /\ n' = n + 1 /\ \E r \in R, z \in Z : Temp(r, z) \/ Gov(r, z)
Spec == Init /\ [][Next]_vars
\* the page of a run, as kept
Drawn(r, z) == IF th[r][z] # <<>> THEN <<th[r][z]>> \o (IF ctl[r][z] # <<>> THEN <<ctl[r][z]>> ELSE <<>>)
               ELSE IF cur[r][z] # <<>> THEN <<cur[r][z], ctl[r][z]>> ELSE <<>>
Agrees == \A r \in R, z \in Z \cup {-1} : [i \in 1..Len(TempLines(runs[r], z)) |-> TempLines(runs[r], z)[i].pts] = Drawn(r, z)
\* every point was told in that run, for that zone
Own == \A z \in Z : LET L == LinesOf(runs, z, 1) IN \A i \in 1..Len(L) : \A k \in 1..Len(L[i].pts) :
  \E r \in R : (L[i].name = "control temperature" \/ L[i].name \in {Title(runs[r].name, "Temperature"), Title(runs[r].name, "Control")}) /\
    (\/ \E j \in 1..Len(runs[r].temps) : runs[r].temps[j].zone = z /\ runs[r].temps[j].t = L[i].pts[k][1]
     \/ \E j \in 1..Len(runs[r].gov) : runs[r].gov[j].zone = z /\ runs[r].gov[j].t = L[i].pts[k][1])
\* what other runs hold changes nothing
Apart == \A z \in Z \cup {-1} : LinesOf(runs, z, 1) = TempLines(runs[1], z) \o TempLines(runs[2], z)
\* a zone's lines are all there are where there is no other zone
OneZone == \A r \in R, z \in Z : ((\A i \in 1..Len(runs[r].temps) : runs[r].temps[i].zone = z) /\ (\A i \in 1..Len(runs[r].gov) : runs[r].gov[i].zone = z)) =>
  TempLines(runs[r], z) = TempLines(runs[r], -1)
\* histograms: one for each run with temperatures, in order
Hists == LET H == WithTemps(runs) IN /\ \A r \in R : (r \in {H[i] : i \in 1..Len(H)}) <=> th[r][-1] # <<>>
                                     /\ \A i \in 1..(Len(H) - 1) : H[i] < H[i + 1]
Emit == (n >= 2) => PrintT("@@" \o ToJson([runs |-> [r \in R |-> [temps |-> runs[r].temps, gov |-> runs[r].gov]]]))
W == [name |-> "w", temps |-> <<>>, gov |-> <<[t |-> 1, zone |-> 0, cur |-> 1, delta |-> 2, req |-> <<512, 1000, 30>>, granted |-> <<>>]>>, pid |-> <<>>,
      weights |-> <<[cdev |-> 10, w |-> 1], [cdev |-> 2, w |-> 512], [cdev |-> 0, w |-> 1024]>>, ev |-> <<>>]
ASSUME [k \in 1..3 |-> WeightedLines(W, <<"x", "y", "z">>)[k].pts] = << <<<<1, 512000>>>>, <<<<1, 500000>>>>, <<<<1, 29>>>> >>
ASSUME Size(0, 0, 2) = <<10000, 12000>> /\ Size(0, 5, 1) = <<8090, 5000>> /\ Size(20, 0, 1) = <<20000, 12000>> /\ Size(20, 5, 2) = <<20000, 10000>>
=============================================================================
