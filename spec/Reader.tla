------------------------------ MODULE Reader ------------------------------
(* The trace reader: a state machine consuming a text trace line by line.  *)
(*                                                                         *)
(* Every line that carries the ftrace fields gets a position (counted from *)
(* the first such line), a time, and the set of selected events that may   *)
(* own it.                                                                 *)
EXTENDS Header, Payload, Times

VARIABLES
  sel,      \* selected events: sequence of [name, word, fb]
  started,  \* has a trace line been seen
  pos,      \* number of lines consumed since the first trace line
  last,     \* time handed out last: <<sec, nsec, bump>>
  base,     \* time of the first trace line
  log       \* all trace lines: sequence of [pos, own, comm, pid, cpu, t, data]

rvars == <<sel, started, pos, last, base, log>>

\* ------------------------------------------------------------------- time
RECURSIVE PadRight(_, _)
PadRight(cs, n) == IF Len(cs) >= n THEN SubSeq(cs, 1, n) ELSE PadRight(Append(cs, "0"), n)

\* seconds.fraction, or integer nanoseconds
RawTime(h) ==
  IF h.isfrac THEN <<ToNat(h.int), ToNat(PadRight(h.frac, 9)), 0>>
  ELSE LET n == Len(h.int) IN
       IF n <= 9 THEN <<0, ToNat(h.int), 0>>
       ELSE <<ToNat(SubSeq(h.int, 1, n - 9)), ToNat(SubSeq(h.int, n - 8, n)), 0>>

\* strictly after the previous line: the written time, or the smallest step
NextTime(prev, raw) ==
  IF TLess(prev, raw) THEN raw ELSE <<prev[1], prev[2], prev[3] + 1>>

\* -------------------------------------------------------------- ownership
\* the events that may own a line: specific ones whose word occurs in it, a
\* fallback only if there is none
Owners(s, cs) ==
  LET hit(fb) == {s[i].name : i \in {j \in 1..Len(s) : s[j].fb = fb /\ Contains(cs, Chars(s[j].word))}}
  IN IF hit(FALSE) # {} THEN hit(FALSE) ELSE hit(TRUE)

\* ---------------------------------------------------------------- actions
RInit(s) ==
  /\ sel = s /\ started = FALSE /\ pos = 0 /\ last = Zero /\ base = Zero /\ log = <<>>

\* the effect of one line on (started, pos, last, base, log), as a record
LineEffect(s, st, line) ==
  LET cs == RStrip(line)
      h == ParseHeader(cs)
  IN IF ~h.ok
     THEN [st EXCEPT !.pos = IF st.started THEN @ + 1 ELSE @]
     ELSE LET t == NextTime(st.last, RawTime(h)) IN
          [started |-> TRUE, pos |-> st.pos + 1, last |-> t,
           base |-> IF st.started THEN st.base ELSE t,
           log |-> Append(st.log,
              [pos |-> st.pos, own |-> Owners(s, line), comm |-> Join(h.comm),
               pid |-> h.pid, cpu |-> h.cpu, t |-> t, data |-> DropEmpty(h.data)])]

ReadLine(line) ==
  LET e == LineEffect(sel, [started |-> started, pos |-> pos, last |-> last,
                            base |-> base, log |-> log], line)
  IN /\ started' = e.started /\ pos' = e.pos /\ last' = e.last /\ base' = e.base
     /\ log' = e.log /\ UNCHANGED sel

\* ------------------------------------------------------------- invariants
\* times are strictly increasing, positions strictly increasing
LogOrdered == \A i, j \in 1..Len(log) :
                 i < j => TLess(log[i].t, log[j].t) /\ log[i].pos < log[j].pos
\* a bumped time stays at the time it had to be bumped from
BumpSmall == \A i \in 2..Len(log) :
                log[i].t[3] > 0 => /\ log[i].t[1] = log[i - 1].t[1]
                                   /\ log[i].t[2] = log[i - 1].t[2]
BaseIsFirst == started => log # <<>> /\ base = log[1].t /\ last = log[Len(log)].t
NothingBefore == ~started => pos = 0 /\ log = <<>>
OwnersOk == \A i \in 1..Len(log) :
              \/ \A n \in log[i].own : \E j \in 1..Len(sel) : sel[j].name = n /\ ~sel[j].fb
              \/ \A n \in log[i].own : \E j \in 1..Len(sel) : sel[j].name = n /\ sel[j].fb
===========================================================================
