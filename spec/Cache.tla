------------------------------- MODULE Cache -------------------------------
(* The trace cache: a directory beside the trace file holding one table per *)
(* event and a metadata record written last.  Properties C07 and C08 say    *)
(* that it is transparent: whatever happened to the directory before,       *)
(* opening the trace gives what parsing its current content gives.          *)
(*                                                                          *)
(* A version of the file is a sequence of lines; a line is the set of       *)
(* unique words occurring in it.  A selection is a sequence of events.      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Content,     \* version -> sequence of sets of events (words)
          Fallback     \* the events that only take what no other one takes

None == [k |-> "none"]
Torn == [k |-> "torn"]
Elems(s) == {s[i] : i \in 1..Len(s)}

\* ------------------------------------------------------ what parsing gives
Owner(line, s) ==
  LET found == SelectSeq(s, LAMBDA e : e \in line)
      spec == SelectSeq(found, LAMBDA e : e \notin Fallback)
  IN IF spec # <<>> THEN spec[1] ELSE IF found # <<>> THEN found[Len(found)] ELSE "-"
Rows(v, s, e) == {i \in 1..Len(Content[v]) : Owner(Content[v][i], s) = e}
Fresh(v, s) == [e \in Elems(s) |-> Rows(v, s, e)]
Contended(v, s, e) == \E i \in 1..Len(Content[v]) :
                        e \in Content[v][i] /\ Cardinality(Content[v][i] \cap Elems(s)) > 1

\* ------------------------------------------------------------ the protocol
\* cache = [dir, meta, csv]; meta = None | Torn | [k, v, tables];
\* tables: event -> [sum, words, cont]; csv: event -> None | Torn | [k, rows]
NoCache == [dir |-> FALSE, meta |-> None, csv |-> <<>>]
Csv(c, e) == IF e \in DOMAIN c.csv THEN c.csv[e] ELSE None
Put(f, e, x) == [d \in DOMAIN f \cup {e} |-> IF d = e THEN x ELSE f[d]]

Usable(c, v, s, e) ==
  /\ c.meta.k = "meta" /\ c.meta.v = v
  /\ e \in DOMAIN c.meta.tables
  /\ Csv(c, e).k = "csv"
  /\ c.meta.tables[e].sum = Csv(c, e).rows
  /\ IF c.meta.tables[e].cont THEN c.meta.tables[e].words = s
     ELSE Elems(s) \subseteq Elems(c.meta.tables[e].words)

Loaded(c, v, s) == {e \in Elems(s) : Usable(c, v, s, e)}
Opened(c, v, s) == [e \in Elems(s) |-> IF e \in Loaded(c, v, s) THEN Csv(c, e).rows ELSE Rows(v, s, e)]

\* the writes an opening makes after parsing: <<"wipe">>, <<"csv", e>>.., <<"meta">>
Valid(c, v) == c.meta.k = "meta" /\ c.meta.v = v
AfterLoad(c, v) == IF Valid(c, v) THEN c ELSE NoCache
Missing(c, v, s) == SelectSeq(s, LAMBDA e : e \notin Loaded(c, v, s))
Writes(c, v, s) ==
  IF Missing(c, v, s) = <<>> THEN <<>>
  ELSE (IF Loaded(c, v, s) = {} THEN << <<"wipe", "">> >> ELSE <<>>)
       \o [i \in 1..Len(Missing(c, v, s)) |-> <<"csv", Missing(c, v, s)[i]>>]
       \o << <<"meta", "">> >>

Tables(c, v, s, done) ==
  LET old == IF Loaded(c, v, s) = {} \/ c.meta.k # "meta" THEN <<>> ELSE c.meta.tables
      new == {done[i][2] : i \in {j \in 1..Len(done) : done[j][1] = "csv"}}
  IN [e \in DOMAIN old \cup new |->
        IF e \in new THEN [sum |-> Rows(v, s, e), words |-> s, cont |-> Contended(v, s, e)] ELSE old[e]]

RECURSIVE Apply(_, _, _, _, _)
\* the cache after the first k of the writes
Apply(c, v, s, ws, k) ==
  IF k = 0 THEN AfterLoad(c, v)
  ELSE LET p == Apply(c, v, s, ws, k - 1) w == ws[k]
       IN CASE w[1] = "wipe" -> [NoCache EXCEPT !.dir = TRUE]
            [] w[1] = "csv" -> [p EXCEPT !.csv = Put(p.csv, w[2], [k |-> "csv", rows |-> Rows(v, s, w[2])])]
            [] w[1] = "meta" -> [p EXCEPT !.meta = [k |-> "meta", v |-> v, tables |-> Tables(c, v, s, ws)]]
\* the same, the k-th write being cut short
Tear(c, v, s, ws, k) ==
  LET p == Apply(c, v, s, ws, k - 1) w == ws[k]
  IN CASE w[1] = "wipe" -> NoCache
       [] w[1] = "csv" -> [p EXCEPT !.csv = Put(p.csv, w[2], Torn)]
       [] w[1] = "meta" -> [p EXCEPT !.meta = Torn]

\* ------------------------------------------------------------- transitions
VARIABLES file, cache, last    \* last: the last opening [s, res]
cvars == <<file, cache, last>>

CInit(v) == file = v /\ cache = NoCache /\ last = [s |-> <<>>, res |-> <<>>]

Open(s) == LET ws == Writes(cache, file, s) IN
  /\ last' = [s |-> s, res |-> Opened(cache, file, s)]
  /\ cache' = Apply(cache, file, s, ws, Len(ws))
  /\ UNCHANGED file
\* killed before (torn = FALSE) or within the k-th write
Crash(s, k, torn) == LET ws == Writes(cache, file, s) IN
  /\ k \in 1..Len(ws)
  /\ cache' = IF torn THEN Tear(cache, file, s, ws, k) ELSE Apply(cache, file, s, ws, k - 1)
  /\ last' = [s |-> <<>>, res |-> <<>>] /\ UNCHANGED file
Edit(v) == v # file /\ file' = v /\ UNCHANGED cache /\ last' = [s |-> <<>>, res |-> <<>>]
\* something outside removes (None) or cuts (Torn) a file, or all of them
DamageCsv(e, x) == Csv(cache, e).k \notin {"none", x.k} /\ cache' = [cache EXCEPT !.csv = Put(cache.csv, e, x)]
                   /\ UNCHANGED file /\ last' = [s |-> <<>>, res |-> <<>>]
DamageMeta(x) == cache.meta.k \notin {"none", x.k} /\ cache' = [cache EXCEPT !.meta = x]
                 /\ UNCHANGED file /\ last' = [s |-> <<>>, res |-> <<>>]
Wipe == cache.dir /\ cache' = NoCache /\ UNCHANGED file /\ last' = [s |-> <<>>, res |-> <<>>]

Transparent == last.s # <<>> => last.res = Fresh(file, last.s)
\* nothing in the metadata vouches for a table the file would not give
Honest == Valid(cache, file) =>
  \A e \in DOMAIN cache.meta.tables : cache.meta.tables[e].sum = Rows(file, cache.meta.tables[e].words, e)
=============================================================================
