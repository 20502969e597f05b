CONSTANT MaxRows = 3
SPECIFICATION Spec
INVARIANTS Order Decide Frame Unedited Stable
CHECK_DEADLOCK FALSE
