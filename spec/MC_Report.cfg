SPECIFICATION Spec
CONSTANTS MaxSteps = 5 MaxReplay = 3
INVARIANTS Told OneOutcome Reaches Once Steady Kept
CHECK_DEADLOCK FALSE
