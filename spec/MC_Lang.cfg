SPECIFICATION Spec
CONSTANTS MaxSteps = 2
INVARIANTS Refined Plausible Written Declared Frame Final
CHECK_DEADLOCK FALSE
