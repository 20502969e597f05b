SPECIFICATION Spec
CONSTANTS MaxSteps = 6 MaxReplay = 3
INVARIANTS Stored OthersStay OneEach Stable
CHECK_DEADLOCK FALSE
