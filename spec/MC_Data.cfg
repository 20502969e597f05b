SPECIFICATION Spec
CONSTANTS MaxSteps = 5
 MaxReplay = 4
INVARIANTS UpToDate Unique Frozen
CHECK_DEADLOCK FALSE
