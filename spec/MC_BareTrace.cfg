SPECIFICATION Spec
INVARIANTS NamesDistinct DurationNonNegative DurationCovers FiltersAll Emit
PROPERTY Append1
VIEW View
CHECK_DEADLOCK FALSE
