----------------------------- MODULE MC_Signals -----------------------------
(* Reading signals letter by letter.                                       *)
EXTENDS Signals, Json, IOUtils, TLC
VARIABLES text, at, part, ev, col, num, color, dead, want
vars == <<text, at, part, ev, col, num, color, dead, want>>
Big == IOEnv.TV_TIER = "thorough"
Tokens == {"e", "v", ":", ",", "7", "0x", "0x1F,200,0"} \cup (IF Big THEN {"ff"} ELSE {})
RECURSIVE Cat(_)
Cat(ts) == IF ts = <<>> THEN "" ELSE ts[1] \o Cat(Tail(ts))
N == IF Big THEN 6 ELSE 5
Init == /\ \E n \in 0..N : \E ts \in [1..n -> Tokens] : text = Chars(Cat(ts))
        /\ at = 0 /\ part = "event" /\ ev = <<>> /\ col = <<>> /\ num = <<>> /\ color = <<>> /\ dead = FALSE
        /\ want = TLCEval(Parsed(text))
C == text[at + 1]
Step == /\ at < Len(text) /\ ~dead /\ at' = at + 1 /\ UNCHANGED <<text, want>>
        /\ \/ /\ part = "event" /\ C # ":" /\ ev' = Append(ev, C) /\ UNCHANGED <<part, col, num, color, dead>>
           \/ /\ part = "event" /\ C = ":" /\ part' = "column" /\ dead' = (ev = <<>>) /\ UNCHANGED <<ev, col, num, color>>
           \/ /\ part = "column" /\ C # ":" /\ col' = Append(col, C) /\ UNCHANGED <<part, ev, num, color, dead>>
           \/ /\ part = "column" /\ C = ":" /\ part' = "color" /\ dead' = (col = <<>>) /\ UNCHANGED <<ev, col, num, color>>
           \/ /\ part = "color" /\ C \notin {",", ":"} /\ num' = Append(num, C) /\ UNCHANGED <<part, ev, col, color, dead>>
           \/ /\ part = "color" /\ C = "," /\ num' = <<>>
              /\ dead' = (~IsNumber(num) \/ Len(color) = 2) /\ color' = (IF IsNumber(num) THEN Append(color, Number(num)) ELSE color)
              /\ UNCHANGED <<part, ev, col>>
           \/ /\ part = "color" /\ C = ":" /\ dead' = TRUE /\ UNCHANGED <<part, ev, col, num, color>>
End == at = Len(text) \/ dead
\* a trailing ":" names no colour
Outcome == IF dead \/ part = "event" \/ col = <<>> THEN Bad
          ELSE IF part = "color" /\ ~(num = <<>> /\ color = <<>>)
               THEN IF ~IsNumber(num) \/ text[Len(text)] = "," THEN Bad
                    ELSE [ok |-> TRUE, event |-> Join(ev), column |-> Join(col), color |-> Append(color, Number(num))]
               ELSE IF part = "color" /\ text[Len(text)] # ":" THEN Bad
               ELSE [ok |-> TRUE, event |-> Join(ev), column |-> Join(col), color |-> <<>>]
Spec == Init /\ [][Step]_vars
Agrees == End => Outcome = want
NoColons == want.ok => (\A i \in 1..Len(Chars(want.event)) : Chars(want.event)[i] # ":") /\ (\A i \in 1..Len(Chars(want.column)) : Chars(want.column)[i] # ":")
AtMostThree == Len(want.color) <= 3
Emit == at = 0 => PrintT("@@" \o ToJson([sig |-> Join(text)]))
=============================================================================
