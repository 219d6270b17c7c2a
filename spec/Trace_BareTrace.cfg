SPECIFICATION Spec
INVARIANTS NamesDistinct DurationNonNegative FiltersAll
CHECK_DEADLOCK FALSE
