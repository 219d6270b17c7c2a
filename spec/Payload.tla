----------------------------- MODULE Payload -----------------------------
(* The payload of a trace line: key=value fields, free words, arrays.     *)
EXTENDS Text

\* ----------------------------------------------------------- dictionaries
\* an ordered dictionary is a sequence of [key, val]; a later binding of the
\* same key replaces the value in place
Keys(d) == {d[i].key : i \in 1..Len(d)}
Has(d, key) == \E i \in 1..Len(d) : d[i].key = key
Get(d, key) == d[CHOOSE i \in 1..Len(d) : d[i].key = key].val
Put(d, key, val) ==
  IF Has(d, key) THEN [i \in 1..Len(d) |-> IF d[i].key = key THEN [key |-> key, val |-> val] ELSE d[i]]
  ELSE Append(d, [key |-> key, val |-> val])

\* a value is an integer literal or a string (as text)
Cast(cs) == LET lit == IntLit(cs) IN
            IF lit.ok THEN [k |-> "i", lit |-> lit] ELSE [k |-> "s", v |-> Join(cs)]
StrVal(cs) == [k |-> "s", v |-> Join(cs)]

\* -------------------------------------------------------- key=value payload
FailedToParse == Chars("FAILED TO PARSE")

\* st = [d, prev, err]; prev = "" before the first key
RECURSIVE KVFold(_, _, _, _)
KVFold(ws, i, st, marked) ==
  IF i > Len(ws) \/ st.err # "" THEN st ELSE
  LET w == ws[i]
      eq == SkipUntil(w, 1, {"="})
  IN IF eq > Len(w)
     THEN IF st.prev = ""
          THEN IF marked THEN KVFold(ws, i + 1, [st EXCEPT !.warn = TRUE], marked)
               ELSE [st EXCEPT !.err = "nokey"]
          ELSE LET old == Get(st.d, st.prev) IN
               KVFold(ws, i + 1,
                 IF old.k = "s"
                 THEN [st EXCEPT !.d = Put(@, st.prev, [k |-> "s", v |-> old.v \o " " \o Join(w)])]
                 ELSE st, marked)
     ELSE LET key == Join(SubSeq(w, 1, eq - 1))
          IN KVFold(ws, i + 1,
                [st EXCEPT !.d = Put(@, key, Cast(SubSeq(w, eq + 1, Len(w)))), !.prev = key],
                marked)

\* [d |-> dictionary, err |-> "" or "nokey", warn |-> a warning is due]
ParseKV(cs) == KVFold(Words(cs), 1, [d |-> <<>>, prev |-> "", err |-> "", warn |-> FALSE],
                      Contains(cs, FailedToParse))

\* ------------------------------------------------------------------ arrays
\* the first array name={...} at or after position i: [ok, b, e, name, els]
NoArray == [ok |-> FALSE]
RECURSIVE NameStart(_, _)
NameStart(cs, i) == IF i > 1 /\ cs[i - 1] \in Word THEN NameStart(cs, i - 1) ELSE i
FirstArray(cs, from) ==
  LET cand == {i \in from..(Len(cs) - 3) :
                 /\ cs[i] = "=" /\ cs[i + 1] = "{"
                 /\ i > from /\ cs[i - 1] \in Word
                 /\ LET c == SkipUntil(cs, i + 2, {"}"}) IN c <= Len(cs) /\ c > i + 2}
  IN IF cand = {} THEN NoArray ELSE
     LET i == CHOOSE x \in cand : \A y \in cand : x <= y
         b == NameStart(cs, i)
         c == SkipUntil(cs, i + 2, {"}"})
     IN [ok |-> TRUE, b |-> b, e |-> c, name |-> Join(SubSeq(cs, b, i - 1)),
         els |-> Split(SubSeq(cs, i + 2, c - 1), " ")]

RECURSIVE ArraysFrom(_, _)
ArraysFrom(cs, from) == LET a == FirstArray(cs, from) IN
                        IF ~a.ok THEN <<>> ELSE <<a>> \o ArraysFrom(cs, a.e + 1)

\* the longest length of each array name over all payloads of an event
ArrayLens(payloads) ==
  LET all == UNION {{<<a.name, Len(a.els)>> :
                      a \in LET as == ArraysFrom(payloads[i], 1) IN {as[j] : j \in 1..Len(as)}}
                    : i \in 1..Len(payloads)}
      names == {p[1] : p \in all}
  IN [n \in names |-> LET ls == {p[2] : p \in {q \in all : q[1] = n}}
                      IN CHOOSE m \in ls : \A x \in ls : x <= m]

NatStr(n) == LET RECURSIVE N(_)
                 N(m) == IF m < 10 THEN <<CHOOSE c \in Digits : DigitVal(c) = m>>
                         ELSE N(m \div 10) \o <<CHOOSE c \in Digits : DigitVal(c) = m % 10>>
             IN N(n)

RECURSIVE ElemFields(_, _, _, _)
ElemFields(name, els, i, upto) ==
  IF i > upto THEN <<>>
  ELSE (IF i > 1 THEN <<" ">> ELSE <<>>)
       \o Chars(name) \o NatStr(i - 1) \o <<"=">>
       \o (IF i <= Len(els) THEN els[i] ELSE <<"0">>)
       \o ElemFields(name, els, i + 1, upto)

RECURSIVE ExplodeFrom(_, _, _)
ExplodeFrom(cs, lens, from) ==
  LET a == FirstArray(cs, from) IN
  IF ~a.ok THEN SubSeq(cs, from, Len(cs))
  ELSE SubSeq(cs, from, a.b - 1)
       \o ElemFields(a.name, a.els, 1, IF Len(a.els) > lens[a.name] THEN Len(a.els) ELSE lens[a.name])
       \o ExplodeFrom(cs, lens, a.e + 1)
Explode(cs, lens) == ExplodeFrom(cs, lens, 1)

\* Empty arrays are dropped together with the blank that follows them
RECURSIVE DropEmptyFrom(_, _)
DropEmptyFrom(cs, from) ==
  LET cand == {i \in from..(Len(cs) - 2) :
                 /\ cs[i] = "=" /\ cs[i + 1] = "{" /\ cs[i + 2] = "}"
                 /\ i > from /\ cs[i - 1] \in Word
                 /\ i + 3 <= Len(cs) => cs[i + 3] = " "}
  IN IF cand = {} THEN SubSeq(cs, from, Len(cs)) ELSE
     LET i == CHOOSE x \in cand : \A y \in cand : x <= y
         b == LET RECURSIVE NS(_)
                  NS(k) == IF k > from /\ cs[k - 1] \in Word THEN NS(k - 1) ELSE k
              IN NS(i)
     IN SubSeq(cs, from, b - 1) \o DropEmptyFrom(cs, i + 4)
DropEmpty(cs) == DropEmptyFrom(cs, 1)

\* --------------------------------------------- comparing with observed cells
\* an observed cell: [k: "i", neg, d, x, o, b] | [k: "s", v] | [k: "n"] (missing)
ObsEq(o, val) == CASE val.k = "i" -> ObsIsInt(o, val.lit)
                   [] val.k = "s" -> o.k = "s" /\ o.v = val.v
                   [] val.k = "n" -> o.k = "n"

\* an observed row is a record column -> cell; missing columns read as missing
ObsCell(row, key) == IF key \in DOMAIN row THEN row[key] ELSE [k |-> "n"]
\* the row shows exactly the dictionary (special columns aside)
RowIs(row, d) ==
  /\ \A i \in 1..Len(d) : ObsEq(ObsCell(row, d[i].key), d[i].val)
  /\ \A key \in DOMAIN row : Has(d, key) \/ row[key].k = "n"
==========================================================================
