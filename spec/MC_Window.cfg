SPECIFICATION Spec
CONSTANTS MaxSteps = 6
 MaxReplay = 3
INVARIANTS Consistent Earned NoHalf Cancelled Fresh
CHECK_DEADLOCK FALSE
