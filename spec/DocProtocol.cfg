CONSTANTS MaxSaves = 4
Rewrites = FALSE
RestoreAfterRewrite = TRUE
SPECIFICATION Spec
INVARIANTS Safe Truthful BackAfterFailure
CHECK_DEADLOCK FALSE
