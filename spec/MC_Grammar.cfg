SPECIFICATION Spec
INVARIANTS ReadsBack Wrapped FullyParenthesised LeftAssociative Emit
CHECK_DEADLOCK FALSE
