------------------------------ MODULE MC_Super ------------------------------
(* A parser solving one accessor after the other: the table it aggregates  *)
(* grows by re-indexing and padding what it has; each column nevertheless  *)
(* reads, at every time, the last value known in the trace.                *)
EXTENDS Super, Json, IOUtils
VARIABLES which, hist, idx, agg
D == IF IOEnv.TV_TIER = "thorough" THEN 4 ELSE 3
R(t, p, x, y) == [t |-> t, c |-> [p |-> p, x |-> x, y |-> y]]
RX(t, p, x) == [t |-> t, c |-> [p |-> p, x |-> x]]
Base == [a |-> <<R(1, 0, 1, 5), R(3, 1, 2, 6), RX(4, 0, 3), R(9, 1, 4, 7)>>,
         b |-> <<R(0, 1, 10, 2), R(3, 1, 20, 3), R(6, 2, 30, 4)>>]
World(pa, pb, lo, hi, ended, fs) ==
  [rows |-> Base, cols |-> [a |-> <<"p", "x", "y">>, b |-> <<"p", "x", "y">>],
   pivot |-> [a |-> pa, b |-> pb], lo |-> lo, hi |-> hi, ended |-> ended, filters |-> fs]
Worlds == <<World("p", "", 0, 0, FALSE, <<>>), World("", "", 1, 6, TRUE, <<>>), World("p", "p", 0, 9, TRUE, <<>>),
            World("p", "", 0, 0, FALSE, <<[col |-> "p", vals |-> <<1>>]>>), World("", "p", 2, 0, FALSE, <<[col |-> "x", vals |-> <<2, 4, 30>>]>>)>>
W == Worlds[which]
Accs == {<<"a", "x">>, <<"a", "y">>, <<"b", "x">>, <<"b", "y">>}
Init == which \in 1..Len(Worlds) /\ hist = <<>> /\ idx = <<>> /\ agg = <<>>
RECURSIVE LastKnown(_, _)
LastKnown(s, i) == IF i = 0 THEN Nan ELSE IF s[i].t # "-" THEN s[i] ELSE LastKnown(s, i - 1)
\* re-index a padded column from old to new (a superset): the last one at or before
Pad(s, old, new) == [k \in 1..Len(new) |->
   LET K == {i \in 1..Len(old) : old[i] <= new[k]} IN
   IF K = {} THEN Nan ELSE LastKnown(s, Cardinality(K))]
Access(a) ==
  LET known == \E i \in 1..Len(hist) : hist[i] = a
      new == Sorted({idx[i] : i \in 1..Len(idx)} \cup Times(W, {a[1]}))
      own == Sorted(Times(W, {a[1]}))
      raw(lab) == [k \in 1..Len(own) |->
          LET rs == SelectSeq(RowsOf(W, a[1]), LAMBDA r : r.t = own[k] /\ LabelOf(W, a[1], r) = lab) IN
          IF rs = <<>> \/ ~Has(rs[1], a[2]) THEN Nan ELSE Rat("i", rs[1].c[a[2]], 1)]
  IN /\ hist' = Append(hist, a)
     /\ IF known THEN UNCHANGED <<idx, agg>>
        ELSE /\ idx' = new
             /\ agg' = [x \in DOMAIN agg \cup {a} |->
                         IF x = a THEN [lab \in Labels(W, a[1]) |-> Pad(raw(lab), own, new)]
                         ELSE [lab \in DOMAIN agg[x] |-> Pad(agg[x][lab], idx, new)]]
     /\ UNCHANGED which
Next == Len(hist) < D /\ \E a \in Accs : Access(a)
Spec == Init /\ [][Next]_<<which, hist, idx, agg>>
\* whatever was accessed before and in whichever order
LastValues == hist # <<>> => \A x \in DOMAIN agg : agg[x] = Column(W, x[1], x[2], idx)
IndexIsUnion == hist # <<>> => idx = Sorted(Times(W, {hist[i][1] : i \in 1..Len(hist)}))
Emit == Len(hist) = D => PrintT("@@" \o ToJson([which |-> which, hist |-> hist]))
ASSUME PrintT("@@" \o ToJson([worlds |-> Worlds]))
=============================================================================
