CONSTANTS MaxSaves = 4
Rewrites = TRUE
RestoreAfterRewrite = TRUE
SPECIFICATION Spec
INVARIANTS Safe Truthful BackAfterFailure
CHECK_DEADLOCK FALSE
