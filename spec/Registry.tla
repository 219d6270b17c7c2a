------------------------------ MODULE Registry ------------------------------
(* The registry of parsers (three tables by name), and what opening a trace *)
(* with a scope and a list of events selects (C09).                         *)
EXTENDS Text

VARIABLES reg      \* [thermal, sched, dynamic] -> sequence of [name, word, id]

Scopes == {"thermal", "sched", "dynamic"}
Parser(n, w, i) == [name |-> n, word |-> w, id |-> i]

\* registering replaces the parser of that name in that table
Insert(t, p) == IF \E i \in 1..Len(t) : t[i].name = p.name
                THEN [i \in 1..Len(t) |-> IF t[i].name = p.name THEN p ELSE t[i]]
                ELSE Append(t, p)
TableOf(scope) == IF scope = "all" THEN "dynamic" ELSE scope
Register(p, scope) == reg' = [reg EXCEPT ![TableOf(scope)] = Insert(@, p)]
Unregister(id) == reg' = [s \in Scopes |-> SelectSeq(reg[s], LAMBDA p : p.id # id)]

\* CamelCase to snake_case; and the name a parser without one gets
UpperOrd == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerOrd == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Down(c) == IF c \in Upper THEN LowerOrd[CHOOSE i \in 1..26 : UpperOrd[i] = c] ELSE c
RECURSIVE Snake(_, _)
Snake(cs, i) == IF i > Len(cs) THEN ""
  ELSE (IF i >= 2 /\ cs[i] \in Upper /\ (i = 2 \/ cs[i - 1] \notin Upper) THEN "_" ELSE "") \o Down(cs[i]) \o Snake(cs, i + 1)
SnakeName(class) == Snake(Chars(class), 1)
WordName(word) == LET cs == Chars(word) IN Join(SubSeq(cs, 1, SkipUntil(cs, 1, {":"}) - 1))

\* ----------------------------------------------------------------- opening
RECURSIVE Merge(_, _)
Merge(d, t) == IF t = <<>> THEN d ELSE Merge(Insert(d, Head(t)), Tail(t))
Known == Merge(Merge(reg.thermal, reg.sched), reg.dynamic)
Answers(p, ev) == ev = p.word \/ ev \o ":" = p.word \/ ev = p.name
Resolve(ev) == IF \E i \in 1..Len(Known) : Answers(Known[i], ev)
               THEN Known[CHOOSE i \in 1..Len(Known) : Answers(Known[i], ev) /\ \A j \in 1..(i - 1) : ~Answers(Known[j], ev)]
               ELSE Parser(ev, ev \o ":", 0)
RECURSIVE Named(_, _)
Named(d, evs) == IF evs = <<>> THEN d ELSE Named(Insert(d, Resolve(Head(evs))), Tail(evs))
ScopeTables(scope) ==
  CASE scope = "thermal" -> Merge(reg.thermal, reg.dynamic)
    [] scope = "sched" -> Merge(reg.sched, reg.dynamic)
    [] scope = "custom" -> <<>>
    [] OTHER -> Known
Selected(scope, evs) == Merge(Named(<<>>, evs), ScopeTables(scope))

Nested(u, w) == Contains(Chars(u), Chars(w)) \/ Contains(Chars(w), Chars(u))
Conflict(d) == \E i, j \in 1..Len(d) : i < j /\ Nested(d[i].word, d[j].word)
NameWords(d) == {<<d[i].name, d[i].word>> : i \in 1..Len(d)}

\* ------------------------------------------------ what selection is to mean
Registered(p, t) == \E i \in 1..Len(reg[t]) : reg[t][i] = p
NamesUnique(d) == \A i, j \in 1..Len(d) : d[i].name = d[j].name => i = j
TablesUnique == \A s \in Scopes : NamesUnique(reg[s])
\* a parser's name is there iff a table of the scope or the events ask for it
ExactlyAsked(scope, evs) ==
  LET d == Selected(scope, evs) names == {d[i].name : i \in 1..Len(d)} IN
  /\ NamesUnique(d)
  /\ \A s \in Scopes : \A i \in 1..Len(reg[s]) :
       (scope = s \/ (s = "dynamic" /\ scope # "custom") \/ scope = "all") => reg[s][i].name \in names
  /\ \A i \in 1..Len(evs) : \E j \in 1..Len(d) : d[j].name = Resolve(evs[i]).name
  /\ \A n \in names : \/ \E i \in 1..Len(evs) : Resolve(evs[i]).name = n
                      \/ scope # "custom" /\ \E i \in 1..Len(reg.dynamic) : reg.dynamic[i].name = n
                      \/ scope \notin {"custom", "sched"} /\ \E i \in 1..Len(reg.thermal) : reg.thermal[i].name = n
                      \/ scope \notin {"custom", "thermal"} /\ \E i \in 1..Len(reg.sched) : reg.sched[i].name = n
=============================================================================
