CONSTANT MaxSteps = 3
SPECIFICATION Spec
INVARIANTS Announced Untouched NoOther Consent Created Lock
CHECK_DEADLOCK FALSE
