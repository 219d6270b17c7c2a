--------------------------- MODULE Trace_Grammar ---------------------------
(* Recorded Parser.solve() histories against Grammar (C19) and Super (C20).*)
(* C19: [id, vars, exprs (token sequences), obs (per expression [err, v])] *)
(* C20: [id, world, opts, exprs, obs = [sols (per expression [err, k, times, v,  *)
(*       n]), ref, info]]                                                  *)
EXTENDS Super, TV
VARIABLES cx, bad
Prop == IOEnv.TV_PROP

Same(due, got) == \/ due.t = "?"
                  \/ due.t = "-" /\ got.t = "-"
                  \/ due.t \notin {"?", "-", "e"} /\ got.t \notin {"?", "-"} /\ got.n = due.n /\ got.d = due.d
Fits(due, o) == IF due.t = "e" THEN o.err # "" ELSE IF due.t = "?" THEN TRUE ELSE o.err = "" /\ Same(due, o.v)
C19(c) ==
     Clause("value", \A i \in 1..Len(c.exprs) : Fits(Eval(AST(c.exprs[i]), c.vars), c.obs[i]))
  \o Clause("same-again", \A i, j \in 1..Len(c.exprs) : c.exprs[i] = c.exprs[j] =>
        c.obs[i].err = c.obs[j].err /\ (c.obs[i].err = "" => c.obs[i].v = c.obs[j].v))

\* accessors are named by their place in c.accs: [s (text), ev, col]
AccsIn(c, ts) == {a \in 1..Len(c.accs) : \E i \in 1..Len(ts) : ts[i].k = "acc" /\ ts[i].s = c.accs[a].s}
SameAll(due, got) == Len(due) = Len(got) /\ \A k \in 1..Len(due) : Same(due[k], got[k])
\* other ways of reindexing: single accessors
C20Other(c) ==
  LET w == c.world o == c.obs
      A(i) == c.accs[CHOOSE a \in AccsIn(c, c.exprs[i]) : TRUE]
      tms == TLCEval([i \in 1..Len(c.exprs) |-> Sorted(Times(w, {A(j).ev : j \in 1..i}))])
      absent(i) == RowsOf(w, A(i).ev) = <<>>
      I0 == 1..Len(c.exprs)
      T == {i \in I0 : ~absent(i) /\ o.sols[i].err = "" /\ o.sols[i].k = "t"}
  IN
     Clause("error", \A i \in I0 : absent(i) <=> o.sols[i].err # "")
  \o Clause("kind", \A i \in I0 : o.sols[i].err = "" => o.sols[i].k = "t")
  \o Clause("times", \A i \in T : o.sols[i].times = tms[i])
  \o Clause("pivots", \A i \in T : DOMAIN o.sols[i].v = Labels(w, A(i).ev))
  \o Clause("neighbours", \A i \in T : o.sols[i].times = tms[i] => \A l \in DOMAIN o.sols[i].v : \A k \in 1..Len(tms[i]) :
              MayShow(w, A(i).ev, A(i).col, l, tms[i][k], o.sols[i].v[l][k], c.opts))
C20(c) ==
  LET w == c.world o == c.obs
      evs(i) == {c.accs[a].ev : a \in UNION {AccsIn(c, c.exprs[j]) : j \in 1..i}}
      tms == TLCEval([i \in 1..Len(c.exprs) |-> Sorted(Times(w, evs(i)))])
      absent(i) == \E a \in AccsIn(c, c.exprs[i]) : RowsOf(w, c.accs[a].ev) = <<>>
      acc(i) == [s \in {c.accs[a].s : a \in AccsIn(c, c.exprs[i])} |->
                   LET a == CHOOSE a \in 1..Len(c.accs) : c.accs[a].s = s IN Tab(Column(w, c.accs[a].ev, c.accs[a].col, tms[i]))]
      due == TLCEval([i \in 1..Len(c.exprs) |-> IF absent(i) THEN ErrV ELSE EvalV(AST(c.exprs[i]), acc(i))])
      err(i) == due[i].k = "n" /\ due[i].v.t = "e"
      I0 == 1..Len(c.exprs)
      tables == {i \in I0 : due[i].k = "t" /\ o.sols[i].err = "" /\ o.sols[i].k = "t"}
      vectors == {i \in I0 : due[i].k = "v" /\ o.sols[i].err = "" /\ o.sols[i].k = "v"}
      last == Len(c.exprs)
      hits == LET m == due[last].v[c.mask] IN {k \in 1..Len(m) : m[k].n = 1}
      pick(s) == [j \in 1..Cardinality(hits) |-> LET k == Sorted(hits)[j] IN s[k]]
      allacc == UNION {AccsIn(c, c.exprs[j]) : j \in I0}
      refcol(a, lab) == \E j \in 1..Len(o.ref.cols) : /\ o.ref.cols[j].col = c.accs[a].col /\ o.ref.cols[j].lab = lab
                              /\ SameAll(pick(Column(w, c.accs[a].ev, c.accs[a].col, tms[last])[lab]), o.ref.cols[j].v)
  IN
     Clause("error", \A i \in I0 : due[i] # UndV => (err(i) <=> o.sols[i].err # ""))
  \o Clause("kind", \A i \in I0 : o.sols[i].err = "" /\ due[i] # UndV => o.sols[i].k = due[i].k)
  \o Clause("times", \A i \in tables : o.sols[i].times = tms[i])
  \o Clause("pivots", \A i \in tables \cup vectors : DOMAIN o.sols[i].v = DOMAIN due[i].v)
  \o Clause("table-values", \A i \in tables : \A l \in DOMAIN due[i].v \cap DOMAIN o.sols[i].v : SameAll(due[i].v[l], o.sols[i].v[l]))
  \o Clause("reduced-values", \A i \in vectors : \A l \in DOMAIN due[i].v \cap DOMAIN o.sols[i].v : Same(due[i].v[l], o.sols[i].v[l][1]))
  \o Clause("numbers", \A i \in I0 : due[i].k = "n" /\ ~err(i) /\ o.sols[i].err = "" /\ o.sols[i].k = "n" => Same(due[i].v, o.sols[i].n))
  \o (IF c.mask = "" THEN <<>> ELSE
         Clause("ref-times", o.ref.times = pick(tms[last]))
      \o Clause("ref-data", /\ \A a \in allacc : \A lab \in Labels(w, c.accs[a].ev) : refcol(a, lab)
                            /\ Len(o.ref.cols) = Cardinality(UNION {{<<c.accs[a].ev, c.accs[a].col, lab>> : lab \in Labels(w, c.accs[a].ev)} : a \in allacc})))
  \o Clause("inspect", \A a \in 1..Len(o.info) : LET ac == c.accs[a] n == o.info[a] IN
         /\ n.length = Len(RowsOf(w, ac.ev)) /\ n.column = ac.col /\ n.present /\ n.cls = ac.ev
         /\ n.pivot = w.pivot[ac.ev]
         /\ (w.pivot[ac.ev] # "" => {n.values[i] : i \in 1..Len(n.values)} = Labels(w, ac.ev) /\ Len(n.values) = Cardinality(Labels(w, ac.ev))))

Verdict(c) == IF Prop = "C19" THEN C19(c) ELSE IF Usual(c.opts) THEN C20(c) ELSE C20Other(c)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Verdict(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
============================================================================
