----------------------------- MODULE Resources -----------------------------
(* The files an interactive plot loads, in the notebook server's folder    *)
(* (C32): those trappy brings along (local) and those it downloads.        *)
(* A file is none (absent), good (complete: trappy's own one, or what the  *)
(* server has), own (complete, put there by somebody else: an older        *)
(* version or a mirror's), or part (a piece of it).                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Local(f) == f \in {"ILinePlot.js", "EventPlot.js", "EventPlot_help.jpg"}
FilesOf(m) == IF m = "EventPlot" THEN {"d3.min.js", "d3.tip.v0.6.3.js", "EventPlot.js", "EventPlot_help.jpg"}
              ELSE {"dygraph-combined.js", "ILinePlot.js", "synchronizer.js", "underscore-min.js"}
\* files with which the page works
Complete(fs, m) == \A f \in FilesOf(m) : IF Local(f) THEN fs[f] = "good" ELSE fs[f] \in {"good", "own"}
\* the web files a viewer has to download first
Missing(fs, m) == {f \in FilesOf(m) : ~Local(f) /\ fs[f] = "none"}
=============================================================================
