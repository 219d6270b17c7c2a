--------------------------- MODULE Trace_NbExport ---------------------------
(* Exported notebooks (C31) against NbExport.                              *)
(* Case: [id, how (prep: the preprocessor, page: the HTML exporter), nbs:  *)
(*   sequence of notebooks exported one after the other, each a sequence   *)
(*   of outputs [shown (display_data of HTML in a code cell), lines]; obs: *)
(*   [err, nbs: sequence of [outs: sequence of lines, rest (whether all    *)
(*   else is untouched)]]]                                                 *)
EXTENDS NbExport, TV
VARIABLES cx, bad
RECURSIVE Flat(_, _)
Flat(outs, o) ==
  IF o > Len(outs) THEN <<>>
  ELSE (IF ~outs[o].shown THEN <<>>
        ELSE [i \in 1..Len(outs[o].lines) |->
               LET q == Kind(outs[o].lines[i]) IN [out |-> o, k |-> q.k, arg |-> q.arg, text |-> outs[o].lines[i]]])
       \o Flat(outs, o + 1)
Marked(outs, o) == \E i \in 1..Len(outs[o].lines) : Kind(outs[o].lines[i]).k # "text"
JudgeNb(c, n) ==
  LET outs == c.nbs[n]
      x == c.obs.nbs[n]
      L == TLCEval(Flat(outs, 1))
  IN Clause("outputs", \A o \in 1..Len(outs) : outs[o].shown => x.outs[o] = Exported(L, o))
     \* marks in other outputs are left open
     \o Clause("others-untouched", \A o \in 1..Len(outs) : (~outs[o].shown /\ ~Marked(outs, o)) => x.outs[o] = outs[o].lines)
     \o Clause("rest-untouched", x.rest)
RECURSIVE Nbs(_, _)
Nbs(c, n) == IF n > Len(c.nbs) THEN <<>> ELSE JudgeNb(c, n) \o Nbs(c, n + 1)
Judge(c) == IF c.obs.err # "" THEN <<"no-error">> ELSE Nbs(c, 1)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
