--------------------------- MODULE Trace_Registry ---------------------------
(* Recorded registrations and openings.  Case: [id, lines, ops, obs];       *)
(* obs[i] for an opening: [err, words (name -> unique word), has (names),   *)
(* rows (name -> rows)]; "again" re-observes the trace of an earlier step.  *)
EXTENDS Registry, Builtins, TV
VARIABLES cx, kx, opened, bad
tvars == <<cx, kx, opened, bad>>
Case == Cases[cx]

Builtin(t) == [i \in 1..Len(t) |-> Parser(t[i][1], t[i][2], -1)]
Reg0 == [thermal |-> Builtin(Thermal0), sched |-> Builtin(Sched0), dynamic |-> Builtin(Dynamic0)]

Due(op) == LET d == Selected(op.scope, op.events) IN
  IF Conflict(d) THEN [err |-> TRUE, words |-> {}] ELSE [err |-> FALSE, words |-> NameWords(d)]
RowsDue(w) == Cardinality({i \in 1..Len(Case.lines) : Contains(Chars(Case.lines[i]), Chars(w))})
Sees(due, o) ==
  IF due.err THEN Clause("nested-words-rejected", o.err = "RuntimeError")
  ELSE IF o.err # "" THEN <<"opens">>
  ELSE LET names == {w[1] : w \in due.words} IN
       Clause("selected", DOMAIN o.words = names)
    \o Clause("parser", \A w \in due.words : w[1] \in DOMAIN o.words => o.words[w[1]] = w[2])
    \o Clause("attributes", {o.has[i] : i \in 1..Len(o.has)} = names)
    \o Clause("filters", {o.filters[i] : i \in 1..Len(o.filters)} = names /\ Len(o.filters) = Cardinality(names))
    \o Clause("rows", \A w \in due.words : w[1] \in DOMAIN o.rows => o.rows[w[1]] = RowsDue(w[2]))

NameFor(op) == IF op.how = "dynamic" THEN SnakeName(op.cls) ELSE IF op.name # "" THEN op.name ELSE WordName(op.word)
Init == cx = 1 /\ kx = 1 /\ bad = <<>> /\ opened = <<>> /\ reg = Reg0

Step == /\ cx <= Len(Cases) /\ kx <= Len(Case.ops)
        /\ LET op == Case.ops[kx] o == Case.obs[kx] IN
           CASE op.op = "register" ->
                  /\ Register(Parser(NameFor(op), op.word, op.id), op.scope)
                  /\ opened' = Append(opened, [err |-> TRUE, words |-> {}])
                  /\ bad' = bad \o Tagged(Case.id, Clause("registers", o.err = ""))
             [] op.op = "unregister" ->
                  /\ Unregister(op.id)
                  /\ opened' = Append(opened, [err |-> TRUE, words |-> {}])
                  /\ bad' = bad \o Tagged(Case.id, Clause("unregisters", o.err = ""))
             [] op.op = "open" ->
                  /\ UNCHANGED reg
                  /\ opened' = Append(opened, Due(op))
                  /\ bad' = bad \o Tagged(Case.id, Sees(Due(op), o))
             [] op.op = "again" ->
                  /\ UNCHANGED reg
                  /\ opened' = Append(opened, [err |-> TRUE, words |-> {}])
                  /\ bad' = bad \o Tagged(Case.id, IF opened[op.of].err THEN <<>> ELSE Sees(opened[op.of], o))
        /\ kx' = kx + 1 /\ UNCHANGED cx
Finish == /\ cx <= Len(Cases) /\ kx > Len(Case.ops)
          /\ cx' = cx + 1 /\ kx' = 1 /\ opened' = <<>> /\ reg' = Reg0 /\ UNCHANGED bad
          /\ IF cx < Len(Cases) THEN TRUE ELSE WriteVerdict(cx, bad)
Spec == Init /\ [][Step \/ Finish]_<<reg, tvars>>
=============================================================================
