------------------------------ MODULE Requests ------------------------------
(* What a plotter may be asked to plot: data, and either a column (with    *)
(* the events holding it, unless the data are tables) or signals.          *)
EXTENDS Naturals, Sequences, TLC
Data == {"none", "frame", "frames", "trace", "traces"}
Plotters == {"LinePlot", "BarPlot", "ILinePlot"}
Signals == {"", "good", "several", "unknown", "half", "empty-column"}
Requests == [plotter : Plotters, data : Data, templates : BOOLEAN, column : BOOLEAN, signals : Signals]
Frames(r) == r.data \in {"frame", "frames"}
\* a table and templates: not needed, and not settled
Open(r) == Frames(r) /\ r.templates /\ r.signals = ""
Accepted(r) ==
  /\ r.data # "none"
  /\ IF r.signals # "" THEN /\ ~r.column /\ ~r.templates           \* one or the other
                            /\ ~Frames(r)
                            /\ r.signals \in {"good", "several"}
     ELSE r.column /\ (Frames(r) \/ r.templates)
=============================================================================
