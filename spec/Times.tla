------------------------------- MODULE Times -------------------------------
(* Trace times: <<seconds, nanoseconds, bumps>>, ordered lexicographically. *)
(* A bump is one smallest representable step.                               *)
EXTENDS Integers

TLess(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
TLeq(a, b) == a = b \/ TLess(a, b)
TMax(a, b) == IF TLess(a, b) THEN b ELSE a
TMin(a, b) == IF TLess(a, b) THEN a ELSE b
Zero == <<0, 0, 0>>

\* adding anything but zero absorbs the smallest steps of the base
TAdd(a, b) == IF b = Zero THEN a ELSE
              LET ns == a[2] + b[2] IN
              IF ns >= 1000000000 THEN <<a[1] + b[1] + 1, ns - 1000000000, 0>>
              ELSE <<a[1] + b[1], ns, 0>>
TSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
              ELSE <<a[1] - b[1] - 1, a[2] + 1000000000 - b[2]>>
=============================================================================
