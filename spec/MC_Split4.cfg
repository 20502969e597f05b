CONSTANT MaxLines = 4
SPECIFICATION Spec
INVARIANTS SameText Structure Valid KeepsPlace Titles Stable
CHECK_DEADLOCK FALSE
