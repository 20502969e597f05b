CONSTANT MaxScenes = 2
SPECIFICATION Spec
INVARIANTS Nested Once Meant Agree SameHeadings
CHECK_DEADLOCK FALSE
