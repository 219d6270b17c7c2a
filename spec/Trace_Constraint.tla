-------------------------- MODULE Trace_Constraint --------------------------
(* Recorded constraints (C21) and expansions (C22) against Constraints.    *)
(* Case: [id, data (sequence of [name, frame, tabs (event -> table)]),     *)
(*  cols, tmpls (events by name), zip, pivot, filters, w, unit,            *)
(*  obs = [err, made (sequence of [label, res (sequence of [pv, pts])]),   *)
(*         labels, pivots, npivots, perm (sequence of <<trace, pivot>>),   *)
(*         nperm, len]]                                                    *)
EXTENDS Constraints, TV
VARIABLES cx, bad
Prop == IOEnv.TV_PROP
Judge(c) ==
  LET o == c.obs
      ex == TLCEval(Expand(Len(c.data), Len(c.cols), Len(c.tmpls), c.zip))
      tab(k) == c.data[ex[k].tr].tabs[c.tmpls[ex[k].tmpl]]
      col(k) == c.cols[ex[k].col]
      pvs == TLCEval([k \in 1..Len(ex) |-> Pivots(tab(k), col(k), c.pivot, c.filters, c.w)])
      label(k) == Label(c.data[ex[k].tr].name, c.data[ex[k].tr].frame, ex[k].ix, c.tmpls[ex[k].tmpl], col(k))
      all == TLCEval(SortPivots(UNION {pvs[k] : k \in 1..Len(ex)}, c.unit))
  IN
  IF ex = Rejected THEN Clause("mismatch-rejected", o.err \in {"RuntimeError", "ValueError"})
  ELSE IF o.err # "" THEN <<"no-error">>
  ELSE IF Len(o.made) # Len(ex) \/ o.len # Len(ex) THEN <<"number-of-constraints">>
  ELSE
     Clause("labels", \A k \in 1..Len(ex) : o.made[k].label = label(k) /\ o.labels = [j \in 1..Len(ex) |-> label(j)])
  \o Clause("pivot-values", \A k \in 1..Len(ex) : /\ {o.made[k].res[j].pv : j \in 1..Len(o.made[k].res)} = pvs[k]
                                                   /\ Len(o.made[k].res) = Cardinality(pvs[k]))
  \o Clause("series", \A k \in 1..Len(ex) : \A j \in 1..Len(o.made[k].res) :
        o.made[k].res[j].pv \in pvs[k] =>
          o.made[k].res[j].pts = SeriesOf(tab(k), col(k), c.pivot, c.filters, c.w, o.made[k].res[j].pv))
  \o Clause("union-of-pivots", o.pivots = all /\ o.npivots = Len(all))
  \o Clause("permuted-pivots",
        /\ o.nperm = Len(c.data) * Len(all)
        /\ o.perm = [k \in 1..(Len(c.data) * Len(all)) |-> <<I((k - 1) \div Len(all)), all[((k - 1) % Len(all)) + 1]>>])
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
