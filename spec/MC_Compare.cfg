SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Agrees
INVARIANT Own
INVARIANT Apart
INVARIANT OneZone
INVARIANT Hists
INVARIANT Emit
