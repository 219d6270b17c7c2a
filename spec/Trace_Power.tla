---------------------------- MODULE Trace_Power ----------------------------
(* Power tables and plots of them (C27) against Power.                     *)
(* Case: [id, name, title, ev: sequence of [k, t, mask, freq (kHz), load]  *)
(*   with k one of cin, cout (clusters), din, dout (devfreq); map: [mask,  *)
(*   label]; obs: tables and plots [err, ok, title, cols], each column     *)
(*   [name, pts = <<time, value or -1>>...]; hist: [err, hs]]              *)
(* Values: kHz, thousandths of a load, millionths of a normalized one.     *)
EXTENDS PowerTables, TV
VARIABLES cx, bad
Table(c, name, k, rows, o, may) ==
  IF Unmapped(c, k) THEN Clause(name \o "-unmapped-rejected", o.err = "KeyError")
  ELSE IF Sel(c, k) = <<>> THEN Clause(name, o.err # "" \/ \A i \in 1..Len(o.cols) : \A j \in 1..Len(o.cols[i].pts) : o.cols[i].pts[j][2] = None)
  ELSE IF o.err # "" THEN <<name \o "-no-error">>
  ELSE Clause(name, ColsOk(rows, o.cols, may))
Judge(c) ==
  LET o == c.obs
      lab(e) == Label(c, e.mask)
      gpu(e) == "GPU"
      bad2 == Unmapped(c, "cin") \/ Unmapped(c, "cout")
      full == Sel(c, "cin") # <<>> /\ Sel(c, "cout") # <<>>
      din == Sel(c, "din")   dout == Sel(c, "dout")
      ifreq == IF Unmapped(c, "cin") THEN <<>> ELSE Rows(c, "cin", "freq", lab)
      ofreq == IF Unmapped(c, "cout") THEN <<>> ELSE Rows(c, "cout", "freq", lab)
      ild == IF Unmapped(c, "cin") THEN <<>> ELSE Rows(c, "cin", "load", lab)
      inm == IF Unmapped(c, "cin") THEN <<>> ELSE Rows(c, "cin", "norm", lab)
      gi == Rows(c, "din", "freq", gpu)   go == Rows(c, "dout", "freq", gpu)
      may == Labels(c)
      need == IF din # <<>> /\ dout # <<>> THEN {"GPU"} ELSE {}
      allow == IF din # <<>> \/ dout # <<>> THEN {"GPU"} ELSE {}
      \* pairs of one actor: [label, both directions]
      pair(l, a) == CASE l = "GPU" /\ l \notin Labels(c) -> Both(gi, go, "gpu_freq_in", "gpu_freq_out")
                      [] OTHER -> Both(Of(ifreq, l), Of(ofreq, l), l \o "_freq_in", l \o "_freq_out")
      two(l) == IF l = "GPU" THEN {"gpu_freq_in", "gpu_freq_out"} ELSE {l \o "_freq_in", l \o "_freq_out"}
      allt == Both(ifreq, ofreq, "i", "o")
      PairOk(p) ==
        LET rows == pair(p.label, 0) IN
        /\ \A i, j \in 1..Len(p.cols) : i # j => p.cols[i].name # p.cols[j].name
        /\ {p.cols[i].name : i \in 1..Len(p.cols)} \subseteq two(p.label)
        /\ {rows[i].who : i \in 1..Len(rows)} \subseteq {p.cols[i].name : i \in 1..Len(p.cols)}
        /\ \A i \in 1..Len(p.cols) :
             LET ts == [j \in 1..Len(p.cols[i].pts) |-> p.cols[i].pts[j][1]] IN
             /\ Rising(ts)
             /\ \A j \in Reports(rows, p.cols[i].name) : rows[j].t \in Range(ts)
             /\ \A j \in 1..Len(ts) : /\ ts[j] \in Times(IF p.label = "GPU" THEN rows ELSE allt)
                                      /\ Close(p.cols[i].pts[j][2], At(rows, p.cols[i].name, ts[j]))
      PairsOk(ps) == /\ \A i, j \in 1..Len(ps) : i # j => ps[i].label # ps[j].label
                     /\ Labels(c) \cup need \subseteq {ps[i].label : i \in 1..Len(ps)}
                     /\ {ps[i].label : i \in 1..Len(ps)} \subseteq Labels(c) \cup allow
                     /\ \A i \in 1..Len(ps) : PairOk(ps[i])
      All(name, x, titled) == IF bad2 THEN Clause(name \o "-unmapped-rejected", x.err = "KeyError")
        ELSE IF ~full THEN Clause(name, x.err # "" \/ PairsOk(x.ps))
        ELSE IF x.err # "" THEN <<name \o "-no-error">>
        ELSE Clause(name, PairsOk(x.ps)) \o Clause(name \o "-titles", titled => \A i \in 1..Len(x.ps) : x.ps[i].title = Titled(c.name, "allfreqs " \o x.ps[i].label))
      Plot(name, x, rows, ttl) == IF Unmapped(c, "cin") THEN Clause(name \o "-unmapped-rejected", x.err = "KeyError")
        ELSE IF Sel(c, "cin") = <<>> THEN <<>>
        ELSE IF x.err # "" THEN <<name \o "-no-error">>
        ELSE Clause(name, ColsOk(rows, x.cols, may)) \o Clause(name \o "-title", x.title = Titled(c.title, ttl))
      gl == Rows(c, "din", "load", gpu)
      gn == Rows(c, "din", "norm", gpu)
      hists == [i \in 1..Len(o.hist.hs) |-> o.hist.hs[i]]
      hrows(dir, l) == IF l = "GPU" THEN (IF dir = "in" THEN gi ELSE go) ELSE (IF dir = "in" THEN ifreq ELSE ofreq)
      wanted == {<<dir, l>> \in {"in", "out"} \X (may \cup need) : Reports(hrows(dir, l), l) # {}}
      Hists == IF bad2 THEN Clause("hist-unmapped-rejected", o.hist.err = "KeyError")
        ELSE IF ~full THEN <<>>
        ELSE IF o.hist.err # "" THEN <<"hist-no-error">>
        ELSE Clause("hist-each-once", \A w \in wanted : Cardinality({i \in 1..Len(hists) : hists[i].title = Titled(c.name, "freq " \o w[1] \o " " \o w[2])}) = 1)
          \o Clause("hist-no-other", \A i \in 1..Len(hists) : hists[i].bars # <<>> =>
               \E dir \in {"in", "out"}, l \in may \cup allow : Reports(hrows(dir, l), l) # {} /\ hists[i].title = Titled(c.name, "freq " \o dir \o " " \o l))
          \o Clause("hist-data", \A i \in 1..Len(hists) : \A dir \in {"in", "out"}, l \in may \cup allow :
               hists[i].title = Titled(c.name, "freq " \o dir \o " " \o l) /\ Reports(hrows(dir, l), l) # {} => HistOk(hrows(dir, l), l, hists[i]))
          \o Clause("hist-unit", \A i \in 1..Len(hists) : hists[i].bars # <<>> => hists[i].unit = "MHz")
          \o Clause("hist-half", \A i \in 1..Len(hists) : \A l \in may \cup allow :
               /\ hists[i].title = Titled(c.name, "freq out " \o l) => 2 * i <= Len(hists)
               /\ hists[i].title = Titled(c.name, "freq in " \o l) => 2 * i > Len(hists))
  IN Table(c, "in-freqs", "cin", ifreq, o.cin, may) \o Table(c, "out-freqs", "cout", ofreq, o.cout, may)
     \o Table(c, "load", "cin", ild, o.load, may) \o Table(c, "normalized-load", "cin", inm, o.norm, may)
     \o Clause("devfreq-in", din = <<>> \/ (o.din.err = "" /\ Len(o.din.cols) = 1 /\ ColOk(gi, [o.din.cols[1] EXCEPT !.name = "GPU"])))
     \o Clause("devfreq-out", dout = <<>> \/ (o.dout.err = "" /\ Len(o.dout.cols) = 1 /\ ColOk(go, [o.dout.cols[1] EXCEPT !.name = "GPU"])))
     \o All("allfreqs", o.all, FALSE) \o All("plot-allfreqs", o.pall, TRUE)
     \o Plot("plot-load", o.pload, ild \o gl, "Utilization") \o Plot("plot-normalized-load", o.pnorm, inm \o gn, "Normalized Utilization")
     \o Hists \o Clause("tables-kept", o.kept)
Init == cx = 1 /\ bad = <<>>
Next == /\ cx <= Len(Cases)
        /\ bad' = bad \o Tagged(Cases[cx].id, Judge(Cases[cx]))
        /\ cx' = cx + 1
        /\ (cx < Len(Cases) \/ WriteVerdict(cx, bad'))
Spec == Init /\ [][Next]_<<cx, bad>>
===========================================================================
