SPECIFICATION Spec
INVARIANTS Persist ReadTwice
PROPERTY NamesKept
CHECK_DEADLOCK FALSE
