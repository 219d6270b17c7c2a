------------------------------- MODULE Window -------------------------------
(* Time windows.  A window is [rel, abs], each a pair <<begin, end>> of      *)
(* times; the end is <<>> if open.  rel counts from the trace's base time.   *)
EXTENDS Times

InWindow(t, basetime, win) ==
  /\ TLeq(TAdd(basetime, win.rel[1]), t)
  /\ TLeq(win.abs[1], t)
  /\ win.rel[2] # <<>> => TLeq(t, TAdd(basetime, win.rel[2]))
  /\ win.abs[2] # <<>> => TLeq(t, win.abs[2])
=============================================================================
