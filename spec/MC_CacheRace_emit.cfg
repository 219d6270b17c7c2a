SPECIFICATION Spec
CONSTANT Content <- MCContent
CONSTANT Procs <- MCProcs
CONSTANT Care <- Careful
CONSTANT Quiet = FALSE
CONSTANT Edits = 1
CONSTANT Priors <- EmitPriors
CONSTANT Kills = FALSE
INVARIANTS Emit
VIEW View
CHECK_DEADLOCK FALSE
