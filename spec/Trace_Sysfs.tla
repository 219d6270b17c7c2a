---------------------------- MODULE Trace_Sysfs ----------------------------
(* Extracted parameters (C30) against Sysfs.                               *)
(* Case: [id, files, obs = [err, params: sequence of [name, num, text],    *)
(*   again (the same the second time), shown: rows [name, text] of the     *)
(*   table displayed, displays (their number), kept]]                      *)
EXTENDS Sysfs, TV
VARIABLES cx, bad
Range(s) == {s[i] : i \in 1..Len(s)}
Judge(c) ==
  LET o == c.obs
      want == TLCEval(Params(c.files))
      got == {[name |-> p.name, v |-> [num |-> p.num, text |-> p.text]] : p \in Range(o.params)}
      rows == {[name |-> r.name, text |-> r.text] : r \in Range(o.shown)}
      strip(x) == {p \in x : Asked(p.name)}
  IN
  IF o.err # "" THEN <<"no-error">>
  ELSE Clause("every-parameter", want \subseteq got)
    \o Clause("nothing-else", \A p \in got : p \in want \/ (Open(p.name) /\ \E i \in 1..Len(c.files) : c.files[i].name = p.name))
    \o Clause("each-once", Len(o.params) = Cardinality(got))
    \o Clause("repeatable", o.again)
    \o Clause("shown-unless-none", o.displays = (IF o.params = <<>> THEN 0 ELSE 1))
    \o Clause("table", o.displays = 1 => /\ strip(rows) = {[name |-> p.name, text |-> p.v.text] : p \in want}
                                         /\ Len(o.shown) = Len(o.params))
    \o Clause("files-kept", o.kept)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
