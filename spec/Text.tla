------------------------------ MODULE Text ------------------------------
(* Text as sequences of one-character strings, and the literal forms used *)
(* in trace payloads.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

RECURSIVE JoinFrom(_, _)
JoinFrom(cs, i) == IF i > Len(cs) THEN "" ELSE cs[i] \o JoinFrom(cs, i + 1)
Join(cs) == JoinFrom(cs, 1)              \* characters back to a string

Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Lower   == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
            "q","r","s","t","u","v","w","x","y","z"}
Upper   == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
            "Q","R","S","T","U","V","W","X","Y","Z"}
Word    == Digits \cup Lower \cup Upper \cup {"_"}
Blank   == {" ", "\t"}
HexDig  == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}

\* first position >= i whose character is not in set S (Len+1 if none)
RECURSIVE SkipWhile(_, _, _)
SkipWhile(cs, i, S) == IF i > Len(cs) THEN i
                       ELSE IF cs[i] \in S THEN SkipWhile(cs, i + 1, S) ELSE i
\* first position >= i whose character is in set S (Len+1 if none)
RECURSIVE SkipUntil(_, _, _)
SkipUntil(cs, i, S) == IF i > Len(cs) THEN i
                       ELSE IF cs[i] \in S THEN i ELSE SkipUntil(cs, i + 1, S)

RECURSIVE RStripTo(_, _)
RStripTo(cs, n) == IF n = 0 THEN 0
                   ELSE IF cs[n] \in (Blank \cup {"\n", "\r"}) THEN RStripTo(cs, n - 1) ELSE n
RStrip(cs) == SubSeq(cs, 1, RStripTo(cs, Len(cs)))

\* does character sequence n occur in h at position i / anywhere
MatchesAt(h, n, i) == /\ i + Len(n) - 1 <= Len(h)
                      /\ \A j \in 1..Len(n) : h[i + j - 1] = n[j]
Contains(h, n) == \E i \in 1..(Len(h) - Len(n) + 1) : MatchesAt(h, n, i)
StartsWith(h, n) == MatchesAt(h, n, 1)
EndsWith(h, n) == Len(n) <= Len(h) /\ MatchesAt(h, n, Len(h) - Len(n) + 1)
\* first occurrence at or after i, 0 if none
FindFrom(h, n, i) ==
  LET S == {k \in i..(Len(h) - Len(n) + 1) : MatchesAt(h, n, k)}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m

\* replace the first / every occurrence of a by b
ReplaceFirst(h, a, b) ==
  LET i == FindFrom(h, a, 1) IN
  IF i = 0 THEN h ELSE SubSeq(h, 1, i - 1) \o b \o SubSeq(h, i + Len(a), Len(h))
RECURSIVE ReplaceAllFrom(_, _, _, _)
ReplaceAllFrom(h, a, b, from) ==
  LET i == FindFrom(h, a, from) IN
  IF i = 0 THEN h
  ELSE ReplaceAllFrom(SubSeq(h, 1, i - 1) \o b \o SubSeq(h, i + Len(a), Len(h)),
                      a, b, i + Len(b))
ReplaceAll(h, a, b) == ReplaceAllFrom(h, a, b, 1)

\* split on runs of blanks into words
RECURSIVE WordsFrom(_, _)
WordsFrom(cs, i) ==
  LET b == SkipWhile(cs, i, Blank) IN
  IF b > Len(cs) THEN <<>>
  ELSE LET e == SkipUntil(cs, b, Blank)
       IN <<SubSeq(cs, b, e - 1)>> \o WordsFrom(cs, e)
Words(cs) == WordsFrom(cs, 1)

\* split on every single occurrence of character c (like str.split(c))
RECURSIVE SplitFrom(_, _, _)
SplitFrom(cs, c, i) ==
  LET e == SkipUntil(cs, i, {c}) IN
  IF e > Len(cs) THEN <<SubSeq(cs, i, Len(cs))>>
  ELSE <<SubSeq(cs, i, e - 1)>> \o SplitFrom(cs, c, e + 1)
Split(cs, c) == SplitFrom(cs, c, 1)

\* ------------------------------------------------------------ integers
\* digits with single underscores between them (Python integer literals)
RECURSIVE GoodRun(_, _, _, _)
GoodRun(cs, i, S, prevDigit) ==
  IF i > Len(cs) THEN prevDigit
  ELSE IF cs[i] \in S THEN GoodRun(cs, i + 1, S, TRUE)
  ELSE IF cs[i] = "_" /\ prevDigit THEN GoodRun(cs, i + 1, S, FALSE)
  ELSE FALSE

LowerOf(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c"
                [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] OTHER -> c
RECURSIVE Normal(_, _)     \* drop underscores and leading zeros, lower case
Normal(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF cs[i] = "_" THEN Normal(cs, i + 1) ELSE <<LowerOf(cs[i])>> \o Normal(cs, i + 1)
StripZeros(cs) == LET b == SkipWhile(cs, 1, {"0"})
                  IN IF b > Len(cs) THEN <<"0">> ELSE SubSeq(cs, b, Len(cs))
NormalDigits(cs) == Join(StripZeros(Normal(cs, 1)))

NoInt == [ok |-> FALSE]
\* An integer literal: [ok, base, neg, digits].  Prefixed forms may have one
\* underscore right after the prefix; unprefixed ones must not start with 0
\* unless they are zero.
IntLit(cs) ==
  IF cs = <<>> THEN NoInt ELSE
  LET sign == cs[1] \in {"+", "-"}
      b == IF sign THEN SubSeq(cs, 2, Len(cs)) ELSE cs
      neg == cs[1] = "-"
      pre == IF Len(b) >= 2 /\ b[1] = "0" THEN b[2] ELSE ""
      base == IF pre \in {"x", "X"} THEN 16 ELSE IF pre \in {"o", "O"} THEN 8
              ELSE IF pre \in {"b", "B"} THEN 2 ELSE 10
      body == IF base = 10 THEN b ELSE SubSeq(b, 3, Len(b))
      digs == IF base = 16 THEN HexDig ELSE IF base = 8 THEN {"0","1","2","3","4","5","6","7"}
              ELSE IF base = 2 THEN {"0", "1"} ELSE Digits
      good == body # <<>> /\ GoodRun(body, 1, digs, base # 10)
      lead == base = 10 /\ good /\ body[1] = "0" /\ NormalDigits(body) # "0"
  IN IF good /\ ~lead
     THEN LET d == NormalDigits(body)
          IN [ok |-> TRUE, base |-> base, neg |-> neg /\ d # "0", digits |-> d]
     ELSE NoInt

\* Does an observed integer (all renderings logged) equal a literal?
ObsIsInt(o, lit) ==
  /\ o.k = "i"
  /\ o.neg = lit.neg
  /\ lit.digits = (CASE lit.base = 16 -> o.x [] lit.base = 8 -> o.o
                     [] lit.base = 2 -> o.b [] OTHER -> o.d)

\* small non-negative decimal to Int
RECURSIVE ToNatAcc(_, _, _)
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
                 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
                 [] c = "8" -> 8 [] c = "9" -> 9
ToNatAcc(cs, i, acc) == IF i > Len(cs) THEN acc
                        ELSE ToNatAcc(cs, i + 1, acc * 10 + DigitVal(cs[i]))
ToNat(cs) == ToNatAcc(cs, 1, 0)
=========================================================================
