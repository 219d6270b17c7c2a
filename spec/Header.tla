------------------------------ MODULE Header ------------------------------
(* The ftrace fields in front of a payload:                                *)
(*    COMM-PID [(TGID)] [CPU] [flags] TIMESTAMP: EVENT: [WORD: ...] PAYLOAD *)
EXTENDS Text, TLC

NoHeader == [ok |-> FALSE]

\* positions after a run of characters of S of length >= 1 starting at i, or 0
Run1(cs, i, S) == IF i <= Len(cs) /\ cs[i] \in S THEN SkipWhile(cs, i, S) ELSE 0

\* skip (word: blanks)+ greedily; 0 if there is not at least one
RECURSIVE SkipNames(_, _)
SkipNames(cs, i) ==
  LET w == Run1(cs, i, Word) IN
  IF w = 0 \/ w > Len(cs) THEN 0
  ELSE IF cs[w] # ":" THEN 0
  ELSE LET b == Run1(cs, w + 1, Blank) IN
       IF b = 0 THEN 0
       ELSE LET more == SkipNames(cs, b) IN IF more = 0 THEN b ELSE more

\* TIMESTAMP: EVENT: PAYLOAD at position i
Stamp(cs, i) ==
  LET e1 == Run1(cs, i, Digits) IN
  IF e1 = 0 THEN NoHeader ELSE
  LET frac == IF e1 + 1 <= Len(cs) /\ cs[e1] = "." /\ cs[e1 + 1] \in Digits
              THEN SkipWhile(cs, e1 + 1, Digits) ELSE e1
  IN IF ~(frac + 1 <= Len(cs) /\ cs[frac] = ":" /\ cs[frac + 1] = " ") THEN NoHeader
     ELSE LET p == SkipNames(cs, frac + 2) IN
          IF p = 0 \/ p > Len(cs) THEN NoHeader
          ELSE [ok |-> TRUE, int |-> SubSeq(cs, i, e1 - 1),
                frac |-> SubSeq(cs, e1 + 1, frac - 1), isfrac |-> frac # e1,
                data |-> SubSeq(cs, p, Len(cs))]

\* blanks, optional four flag characters and blanks, then Stamp
RECURSIVE WithFlags(_, _, _)
WithFlags(cs, b, i) ==      \* flags start at i, at least one blank before (b < i)
  IF i <= b THEN NoHeader ELSE
  LET s == Run1(cs, i + 4, Blank)
      m == IF i + 3 > Len(cs) \/ s = 0 THEN NoHeader ELSE Stamp(cs, s)
  IN IF m.ok THEN m ELSE WithFlags(cs, b, i - 1)

AfterCpu(cs, i) ==
  LET s == Run1(cs, i, Blank) IN
  IF s = 0 THEN NoHeader
  ELSE LET f == WithFlags(cs, i, s) IN IF f.ok THEN f ELSE Stamp(cs, s)

\* blanks [CPU] ... at position i
Cpu(cs, i) ==
  LET s == Run1(cs, i, Blank) IN
  IF s = 0 \/ s > Len(cs) THEN NoHeader
  ELSE IF cs[s] # "[" THEN NoHeader
  ELSE LET d == Run1(cs, s + 1, Digits) IN
       IF d = 0 \/ d > Len(cs) THEN NoHeader
       ELSE IF cs[d] # "]" THEN NoHeader
       ELSE LET r == AfterCpu(cs, d + 1) IN
            IF r.ok THEN r @@ [cpu |-> SubSeq(cs, s + 1, d - 1)] ELSE NoHeader

\* optional (TGID) group first, the longest one that leaves a valid rest
RECURSIVE TgidFrom(_, _, _)
TgidFrom(cs, lo, q) ==
  IF q < lo THEN NoHeader
  ELSE IF cs[q] = ")" THEN LET r == Cpu(cs, q + 1) IN
                           IF r.ok THEN r ELSE TgidFrom(cs, lo, q - 1)
  ELSE TgidFrom(cs, lo, q - 1)

AfterPid(cs, i) ==
  LET s == Run1(cs, i, Blank)
      withT == IF s = 0 \/ s > Len(cs) THEN NoHeader
               ELSE IF cs[s] # "(" THEN NoHeader ELSE TgidFrom(cs, s + 1, Len(cs))
  IN IF withT.ok THEN withT ELSE Cpu(cs, i)

\* the task name is the longest text before a -PID that leaves a valid rest
RECURSIVE AtDash(_, _, _)
AtDash(cs, lo, p) ==
  IF p < lo THEN NoHeader
  ELSE IF cs[p] = "-" THEN
         LET d == Run1(cs, p + 1, Digits)
             r == IF d = 0 THEN NoHeader ELSE AfterPid(cs, d)
         IN IF r.ok THEN r @@ [comm |-> SubSeq(cs, lo, p - 1), pid |-> SubSeq(cs, p + 1, d - 1)]
            ELSE AtDash(cs, lo, p - 1)
  ELSE AtDash(cs, lo, p - 1)

\* [ok, comm, pid, cpu, int, frac, isfrac, data] of a line without its end
ParseHeader(cs) == AtDash(cs, SkipWhile(cs, 1, Blank), Len(cs))
===========================================================================
