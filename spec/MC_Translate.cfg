SPECIFICATION Spec
CONSTANTS MaxSteps = 5 MaxReplay = 3
INVARIANTS UpToDate NothingLost Catalogues
CHECK_DEADLOCK FALSE
