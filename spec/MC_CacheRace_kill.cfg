SPECIFICATION Spec
CONSTANT Content <- MCContent
CONSTANT Procs <- MCProcs
CONSTANT Care <- Careful
CONSTANT Quiet = TRUE
CONSTANT Edits = 0
CONSTANT Priors <- MCPriors
CONSTANT Kills = TRUE
INVARIANTS Sound Right Honest Clear
VIEW View
CHECK_DEADLOCK FALSE
