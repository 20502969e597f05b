SPECIFICATION Spec
CONSTANTS MaxSteps = 3
INVARIANTS Refined Plausible Written Declared Frame Final
CHECK_DEADLOCK FALSE
