---------------------------- MODULE MC_Residency ----------------------------
(* Following every short history of switches, sound or with switches lost, *)
(* with a table of running tasks.                                          *)
EXTENDS Residency, Json, IOUtils
VARIABLES sw, run, open, data, sound
vars == <<sw, run, open, data, sound>>
Big == IOEnv.TV_TIER = "thorough"
Cpus == {0, 1}
Pids == 0..2
Comms(p) == IF p = 2 THEN {"a", "b"} ELSE IF p = 1 THEN {"a"} ELSE {"swapper"}
\* run: what is on each CPU, -1 not known yet; open: of each pid the number
\* of its unfinished interval (0 none); data: intervals [name, s, e, cpu, live]
Init == sw = <<>> /\ run = [c \in Cpus |-> -1] /\ open = [p \in Pids |-> 0] /\ data = <<>> /\ sound \in BOOLEAN
Now == Len(sw) + 1
Elsewhere(c, p) == p # 0 /\ \E d \in Cpus \ {c} : run[d] = p
Possible(c, p, n) == sound => /\ run[c] \in {-1, p} /\ ~Elsewhere(c, p) /\ ~Elsewhere(c, n) /\ p # n
Closed(d, k, t) == IF k = 0 THEN d ELSE [d EXCEPT ![k].e = t, ![k].live = FALSE]
Switch(c, p, n, comm) ==
  /\ Possible(c, p, n)
  /\ sw' = Append(sw, [t |-> Now, cpu |-> c, prev |-> p, next |-> n, comm |-> comm])
  /\ run' = [run EXCEPT ![c] = n]
  /\ LET d1 == Closed(data, open[p], Now)
         o1 == [open EXCEPT ![p] = 0]
         \* running already: give up on that interval
         d2 == IF o1[n] = 0 THEN d1 ELSE [d1 EXCEPT ![o1[n]].name = "?"]
     IN IF n = 0 THEN data' = d2 /\ open' = o1
        ELSE /\ data' = Append(d2, [name |-> comm \o "-" \o ToString(n), s |-> Now, e |-> 0, cpu |-> c, live |-> TRUE])
             /\ open' = [o1 EXCEPT ![n] = Len(d2) + 1]
  /\ UNCHANGED sound
N == IF sound THEN (IF Big THEN 6 ELSE 5) ELSE (IF Big THEN 4 ELSE 3)
Next == Len(sw) < N /\ \E c \in Cpus, p, n \in Pids : \E comm \in Comms(n) : Switch(c, p, n, comm)
Spec == Init /\ [][Next]_vars
Result0(name) == LET s == SelectSeq(data, LAMBDA x : x.name = name) IN
                 [i \in 1..Len(s) |-> <<s[i].s, IF s[i].live THEN Len(sw) ELSE s[i].e, s[i].cpu>>]
Agrees == \A name \in {"a-1", "a-2", "b-2"} : Result0(name) = IntervalsOf(sw, <<>>, <<>>, name)
\* of a sound history nothing is lost, and neither tasks nor CPUs overlap
Apart(x, y) == x[2] <= y[1] \/ y[2] <= x[1]
Sound == sound => /\ Losses(sw, <<>>, <<>>) = 0
                  /\ \A i, j \in Stays(sw, <<>>, <<>>) : (i # j /\ (sw[i].cpu = sw[j].cpu \/ sw[i].next = sw[j].next)) =>
                         Apart(Interval(sw, i), Interval(sw, j))
\* and the CPU is never idle but when the idle task runs
Covered == sound => \A i \in 1..Len(sw) : sw[i].next # 0 =>
   LET later == {j \in (i + 1)..Len(sw) : sw[j].cpu = sw[i].cpu} IN
   EndOf(sw, i) = IF later = {} THEN sw[Len(sw)].t ELSE sw[Least(later)].t
InDomain == \A i \in Stays(sw, <<>>, <<>>) : Interval(sw, i)[1] <= Interval(sw, i)[2] /\ Interval(sw, i)[2] <= Len(sw)
Emit == (Len(sw) > 0) => PrintT("@@" \o ToJson([sw |-> sw, sound |-> sound]))
=============================================================================
