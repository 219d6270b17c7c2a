----------------------------- MODULE Decoders -----------------------------
(* What the table of an event shows for its payloads, per kind of event.   *)
(* Rows(kind, payloads) = [err, rows]: err # "" if the event cannot be     *)
(* parsed, otherwise one dictionary per payload.                           *)
EXTENDS Payload, SysTrace

\* ------------------------------------------------------------- per-line text
Rename(d, from, to) == [i \in 1..Len(d) |-> IF d[i].key = from THEN [d[i] EXCEPT !.key = to] ELSE d[i]]

Bad(why) == [d |-> <<>>, err |-> why, warn |-> FALSE]

\* "clk_name field=value ..."
DecodeClk(cs) ==
  LET sp == SkipUntil(cs, 1, {" "}) IN
  IF sp > Len(cs) THEN Bad("clk")
  ELSE LET r == ParseKV(SubSeq(cs, sp + 1, Len(cs))) IN
       IF r.err # "" THEN r
       ELSE [r EXCEPT !.d = Put(@, "clk_name", StrVal(SubSeq(cs, 1, sp - 1)))]

\* optionally signed number of digits D at i: [ok, e, neg, digits]
SignedRun(cs, i, D) ==
  LET s == i <= Len(cs) /\ cs[i] \in {"+", "-"}
      b == IF s THEN i + 1 ELSE i
      e == SkipWhile(cs, b, D)
  IN IF e = b THEN [ok |-> FALSE]
     ELSE LET dg == NormalDigits(SubSeq(cs, b, e - 1))
          IN [ok |-> TRUE, e |-> e, neg |-> s /\ cs[i] = "-" /\ dg # "0", digits |-> dg]
IntOf(r, base) == [k |-> "i", lit |-> [ok |-> TRUE, base |-> base, neg |-> r.neg, digits |-> r.digits]]

RECURSIVE SysArgs(_, _, _)
SysArgs(cs, i, n) ==     \* arguments n..5 starting at i, closed by ")"
  LET r == SignedRun(cs, i, HexDig) IN
  IF ~r.ok THEN [ok |-> FALSE]
  ELSE IF n = 5
       THEN IF MatchesAt(cs, <<")">>, r.e) THEN [ok |-> TRUE, a |-> <<IntOf(r, 16)>>] ELSE [ok |-> FALSE]
       ELSE IF ~MatchesAt(cs, <<",", " ">>, r.e) THEN [ok |-> FALSE]
            ELSE LET more == SysArgs(cs, r.e + 2, n + 1)
                 IN IF more.ok THEN [ok |-> TRUE, a |-> <<IntOf(r, 16)>> \o more.a] ELSE more

\* "NR <n> (<hex>, ... six of them)"
DecodeSysEnter(cs) ==
  LET at == FindFrom(cs, Chars("NR "), 1) IN
  IF at = 0 THEN Bad("sys") ELSE
  LET nr == SignedRun(cs, at + 3, Digits) IN
  IF ~nr.ok \/ cs[at + 3] \in {"+", "-"} THEN Bad("sys")
  ELSE IF ~MatchesAt(cs, <<" ", "(">>, nr.e) THEN Bad("sys")
  ELSE LET a == SysArgs(cs, nr.e + 2, 0) IN
       IF ~a.ok THEN Bad("sys")
       ELSE [err |-> "", warn |-> FALSE,
             d |-> <<[key |-> "nr", val |-> IntOf(nr, 10)]>> \o
                   [i \in 1..6 |-> [key |-> <<"arg0","arg1","arg2","arg3","arg4","arg5">>[i], val |-> a.a[i]]]]

\* "NR <n> = <ret>"
DecodeSysExit(cs) ==
  LET at == FindFrom(cs, Chars("NR "), 1) IN
  IF at = 0 THEN Bad("sys") ELSE
  LET nr == SignedRun(cs, at + 3, Digits) IN
  IF ~nr.ok THEN Bad("sys")
  ELSE IF ~MatchesAt(cs, <<" ", "=", " ">>, nr.e) THEN Bad("sys")
  ELSE LET ret == SignedRun(cs, nr.e + 3, Digits) IN
       IF ~ret.ok THEN Bad("sys")
       ELSE [err |-> "", warn |-> FALSE,
             d |-> <<[key |-> "nr", val |-> IntOf(nr, 10)], [key |-> "ret", val |-> IntOf(ret, 10)]>>]

\* "field value field value ..." (values kept as text)
RECURSIVE PairUp(_, _, _)
PairUp(ws, i, d) == IF i + 1 > Len(ws) THEN d
                    ELSE PairUp(ws, i + 2, Put(d, Join(ws[i]), StrVal(ws[i + 1])))
DecodeExt4(cs) == [err |-> "", warn |-> FALSE,
                   d |-> Rename(PairUp(Split(cs, " "), 1, <<>>), "ino", "inode")]

F2FSText(cs) == ReplaceAll(ReplaceAll(cs, Chars(" = "), <<"=">>), <<",">>, <<" ">>)
OnD(r, Op(_)) == IF r.err # "" THEN r ELSE [r EXCEPT !.d = Op(@)]
InoInode(d) == Rename(d, "ino", "inode")
FreqNames(d) == Rename(Rename(d, "cpu_id", "cpu"), "state", "frequency")
CapNames(d)  == Rename(Rename(d, "cpu_id", "cpu"), "state", "capacity")
RateNames(d) == Rename(d, "state", "rate")

\* 4294967295 (2^32 - 1) stands for -1
IdleVal(v) == IF v.k = "i" /\ ~v.lit.neg /\
                 (\/ v.lit.base = 10 /\ v.lit.digits = "4294967295"
                  \/ v.lit.base = 16 /\ v.lit.digits = "ffffffff")
              THEN [k |-> "i", lit |-> [ok |-> TRUE, base |-> 10, neg |-> TRUE, digits |-> "1"]]
              ELSE v
IdleVals(d) == [i \in 1..Len(d) |-> [d[i] EXCEPT !.val = IdleVal(@)]]

\* eight characters, zero padded on the left; integers print in decimal
RECURSIVE PadLeft(_, _)
PadLeft(cs, n) == IF Len(cs) >= n THEN cs ELSE PadLeft(<<"0">> \o cs, n)
RECURSIVE HexNat(_, _, _)
HexVal(c) == CASE c = "a" -> 10 [] c = "b" -> 11 [] c = "c" -> 12 [] c = "d" -> 13
               [] c = "e" -> 14 [] c = "f" -> 15 [] OTHER -> DigitVal(c)
HexNat(cs, i, acc) == IF i > Len(cs) THEN acc ELSE HexNat(cs, i + 1, acc * 16 + HexVal(cs[i]))
MaskVal(v) ==
  IF v.k = "s" THEN [k |-> "s", v |-> Join(PadLeft(Chars(v.v), 8))]
  ELSE LET dec == IF v.lit.base = 16 THEN NatStr(HexNat(Chars(v.lit.digits), 1, 0))
                  ELSE Chars(v.lit.digits)
       IN [k |-> "s", v |-> Join(PadLeft(dec, 8))]
MaskCpus(d) == [i \in 1..Len(d) |-> IF d[i].key = "cpus" THEN [d[i] EXCEPT !.val = MaskVal(@)] ELSE d[i]]

\* userspace marker of a systrace; any other text is kept whole
DecodeMarker(cs) ==
  LET m == Marker(cs)
      part(key, i, V(_)) == IF Len(m.parts) < i THEN <<>> ELSE <<[key |-> key, val |-> V(m.parts[i])]>>
      num(ds) == [k |-> "i", lit |-> [ok |-> TRUE, base |-> 10, neg |-> FALSE, digits |-> NormalDigits(ds)]]
  IN [err |-> "", warn |-> FALSE,
      d |-> IF ~m.ok THEN <<[key |-> "string", val |-> StrVal(cs)]>>
            ELSE <<[key |-> "event", val |-> [k |-> "s", v |-> m.event]]>>
                 \o part("pid", 1, num) \o part("func", 2, StrVal) \o part("data", 3, StrVal)]

DecodeOne(kind, cs, lens) ==
  CASE kind = "kv"        -> ParseKV(Explode(cs, lens))
    [] kind = "text"      -> [err |-> "", warn |-> FALSE, d |-> <<[key |-> "string", val |-> StrVal(Explode(cs, lens))]>>]
    [] kind = "systext"   -> DecodeMarker(Explode(cs, lens))
    [] kind = "clk"       -> DecodeClk(Explode(cs, lens))
    [] kind = "clkrate"   -> OnD(DecodeClk(Explode(cs, lens)), RateNames)
    [] kind = "sysenter"  -> DecodeSysEnter(cs)
    [] kind = "sysexit"   -> DecodeSysExit(cs)
    [] kind = "idle"      -> OnD(ParseKV(Explode(cs, lens)), IdleVals)
    [] kind = "ext4"      -> DecodeExt4(cs)
    [] kind = "f2fs"      -> OnD(ParseKV(F2FSText(cs)), InoInode)
    [] kind = "f2fsexit"  -> OnD(ParseKV(F2FSText(ReplaceAll(cs, Chars("checkpoint is "), Chars("checkpoint = ")))), InoInode)
    [] kind = "freq"      -> OnD(ParseKV(Explode(cs, lens)), FreqNames)
    [] kind = "capacity"  -> OnD(ParseKV(Explode(cs, lens)), CapNames)
    [] kind = "switch"    -> ParseKV(Explode(ReplaceFirst(cs, Chars(" ==> "), <<" ">>), lens))
    [] kind = "mask"      -> OnD(ParseKV(Explode(cs, lens)), MaskCpus)

Rows(kind, payloads) ==
  LET lens == ArrayLens(payloads) IN
  [i \in 1..Len(payloads) |-> DecodeOne(kind, payloads[i], lens)]
===========================================================================
