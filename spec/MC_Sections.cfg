CONSTANT MaxBlocks = 5
SPECIFICATION Spec
INVARIANTS Texts Others Unknown Fails Valid Descs
CHECK_DEADLOCK FALSE
