CONSTANT MaxPieces = 4
SPECIFICATION Spec
INVARIANTS Exact Simple Told Found Gone Rest Once
CHECK_DEADLOCK FALSE
