------------------------------- MODULE Publish -------------------------------
(* Publishing a notebook (C33): the paths under which its interactive plots *)
(* ask the local server for scripts become public URLs; requirejs appends   *)
(* .js to either.  A line of the notebook is a sequence of words.           *)
EXTENDS Text, FiniteSets, TLC
Base == "/nbextensions/plotter_scripts/"
\* libraries, by the path pages ask for them
Libs == { [path |-> Base \o "EventPlot/d3.min", file |-> "d3.min.js", plot |-> "EventPlot"],
          [path |-> Base \o "EventPlot/d3.tip.v0.6.3", file |-> "d3.tip.v0.6.3.js", plot |-> "EventPlot"],
          [path |-> Base \o "ILinePlot/synchronizer", file |-> "synchronizer.js", plot |-> "ILinePlot"],
          [path |-> Base \o "ILinePlot/dygraph-combined", file |-> "dygraph-combined.js", plot |-> "ILinePlot"],
          [path |-> Base \o "ILinePlot/underscore-min", file |-> "underscore-min.js", plot |-> "ILinePlot"] }
\* trappy's own scripts: where they are published is up to their maintainers
Own == { Base \o "EventPlot/EventPlot", Base \o "ILinePlot/ILinePlot" }
IsLib(w) == \E l \in Libs : l.path = w
LibOf(w) == CHOOSE l \in Libs : l.path = w
IsLocal(w) == IsLib(w) \/ w \in Own
\* Public(w, out, url, https): out is what may stand for w; url(plot, file) the
\* URL a library is downloaded from, web(o) whether o is an address in the web
Stands(w, out, urls, web) ==
  CASE IsLib(w) -> out \o ".js" = urls[LibOf(w).plot \o "/" \o LibOf(w).file]
    [] w \in Own -> out \in web
    [] OTHER -> out = w
\* the file that is written, in the current directory unless told otherwise
TargetName(base, outfile) ==
  IF outfile = "" THEN "published_" \o base
  ELSE IF EndsWith(Chars(outfile), Chars(".ipynb")) THEN outfile ELSE outfile \o ".ipynb"
=============================================================================
