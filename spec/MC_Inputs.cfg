SPECIFICATION Spec
INVARIANTS NoDebris SameAsOutcome OnlyDatUsesTool Loud WarnOnlyTxt Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
